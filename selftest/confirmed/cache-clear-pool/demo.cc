#include <iostream>
#include <string>
#include "sdd/mem/cache.hh"
struct context {};
struct op { std::size_t i; std::size_t operator()(context&) const { return i + 1; } bool operator==(const op& o) const { return i == o.i; } };
std::ostream& operator<<(std::ostream& os, const op& o) { return os << o.i; }
namespace std { template <> struct hash<op> { size_t operator()(const op& o) const noexcept { return o.i; } }; }
int main()
{
  context c;
  sdd::mem::cache<context, op> cache(c, 64);
  for (int round = 0; round < 8; ++round)
  {
    for (std::size_t i = 0; i < 30; ++i) if (cache(op{i}) != i + 1) return 1;
    cache.clear();
    if (cache.size() != 0) return 2;
  }
  return 0;
}
