#pragma once
#include <string_view>
#include <string>
namespace folly { using StringPiece = std::string_view; }
