#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <string>
#include <stdexcept>
namespace boost {
struct bad_lexical_cast : std::runtime_error { bad_lexical_cast() : std::runtime_error("bad lexical cast") {} };
template <class T, class S> T lexical_cast(const S &x) {
  if constexpr (std::is_same_v<T, std::string>) { if constexpr (std::is_same_v<S, multiprecision::int1024_t>) return x.str(); else return std::to_string(x); }
  else { // text to integer
    std::string s = x; size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i == s.size()) throw bad_lexical_cast();
    long long v = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') throw bad_lexical_cast(); v = v * 10 + (s[i] - '0'); }
    return T(neg ? -v : v);
  }
}
}
