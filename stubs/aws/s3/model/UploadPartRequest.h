#pragma once
#include "aws/aws_stub.h"
