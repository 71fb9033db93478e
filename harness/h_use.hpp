#pragma once
#include <array>
#include <cstddef>
#include <exception>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
bool add_use(const char * name, void (*)(std::string &));
extern const std::byte blob[512];
inline void put_hex(std::string & r, unsigned b) { r += "0123456789abcdef"[b >> 4 & 15]; r += "0123456789abcdef"[b & 15]; }
