#pragma once
#include "google/gcs_stub.h"
