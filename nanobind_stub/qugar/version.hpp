#pragma once
#include <string_view>
namespace qugar { inline constexpr std::string_view QUGAR_VERSION_STRING = "0", QUGAR_VERSION_GIT = "0"; }
