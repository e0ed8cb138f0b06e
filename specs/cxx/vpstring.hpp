// std::string as the library uses it here (a direction name, compared with literals): a literal with the comparison of the standard
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <ostream>
#include <queue>
#include <ranges>
#include <set>
#include <stack>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <regex>
#include <execution>
namespace std {
struct vp_string {
  const char* p;
  vp_string(const char* s = "") : p(s) {}
  vp_string(const basic_string<char>& s) : p(s.c_str()) {}
  const char* c_str() const { return p; }
  size_t      size() const { return __builtin_strlen(p); }
  size_t      length() const { return __builtin_strlen(p); }
  friend bool operator==(const vp_string& a, const char* b) { return __builtin_strcmp(a.p, b) == 0; }
};
inline ostream&  operator<<(ostream& o, const vp_string& s) { return o << s.p; }
inline vp_string operator+(const char*, const vp_string& b) { return b; }
inline vp_string operator+(const vp_string& b, const char*) { return b; }
inline vp_string operator+(const vp_string& b, const vp_string&) { return b; }
}    // namespace std
#define string vp_string
