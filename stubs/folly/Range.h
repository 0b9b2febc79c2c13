#pragma once
#include <string>
#include <string_view>
namespace folly { using StringPiece = std::string_view; }
