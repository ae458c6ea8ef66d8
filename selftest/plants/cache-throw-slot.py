prop = "C06"
needs = "evaluations that throw, repeated more often than the cache has slots"
breaks = "the slot for the result is taken before the operation is evaluated, so each operation that throws costs the cache a slot until none is left"
edits = [("mem/cache.hh", "auto res = op(cxt_);", "void* const slot = pool_.allocate();\n      auto res = op(cxt_);"),
         ("mem/cache.hh", "new (pool_.allocate()) cache_entry_type", "new (slot) cache_entry_type")]
demo = r'''
#include <iostream>
#include <stdexcept>
#include "sdd/mem/cache.hh"
struct context {};
struct op { std::size_t i; std::size_t operator()(context&) const { if (i % 2) throw std::runtime_error("odd"); return i + 1; } bool operator==(const op& o) const { return i == o.i; } };
std::ostream& operator<<(std::ostream& os, const op& o) { return os << o.i; }
namespace std { template <> struct hash<op> { size_t operator()(const op& o) const noexcept { return o.i; } }; }
int main()
{
  context c;
  sdd::mem::cache<context, op> cache(c, 64);
  for (std::size_t i = 0; i < 400; ++i)
  {
    try { if (cache(op{i}) != i + 1) return 1; } catch (const std::runtime_error&) {}
  }
  return 0;
}
'''
