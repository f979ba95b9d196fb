#pragma once
#include <boost/multiprecision/cpp_int.hpp>
namespace boost {
inline multiprecision::int1024_t gcd(const multiprecision::int1024_t &a, const multiprecision::int1024_t &b) { return multiprecision::gcd(a, b); }
inline multiprecision::int1024_t lcm(const multiprecision::int1024_t &a, const multiprecision::int1024_t &b) { return multiprecision::lcm(a, b); }
namespace integer { using boost::gcd; using boost::lcm; }
}
