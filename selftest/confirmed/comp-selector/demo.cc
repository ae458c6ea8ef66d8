#include <iostream>
#include <vector>
#include "sdd/sdd.hh"
using C = sdd::conf1; using SDD = sdd::SDD<C>; using H = sdd::homomorphism<C>; using V = C::Values;
using OB = sdd::order_builder<C>; using O = sdd::order<C>;
static C conf() { C c; c.sdd_unique_table_size = 64; c.sdd_difference_cache_size = c.sdd_intersection_cache_size = c.sdd_sum_cache_size = 64; c.sdd_arena_size = 65536; c.hom_unique_table_size = 64; c.hom_cache_size = 64; return c; }
// maps every value v to k * v + d, or keeps the values below k when d is -1
struct fn
{
  int k, d;
  bool selector() const noexcept { return d == -1; }
  V operator()(const V& x) const
  {
    V r;
    for (const auto& v : x) { if (d == -1) { if (int(v) < k) r.insert(v); } else r.insert(k * v + d); }
    return r;
  }
  bool operator==(const fn& o) const noexcept { return k == o.k and d == o.d; }
};
std::ostream& operator<<(std::ostream& os, const fn& f) { return os << "fn" << f.k << f.d; }
namespace std { template <> struct hash<fn> { size_t operator()(const fn& f) const noexcept { return f.k * 31 + f.d; } }; }
#define CHECK(x) do { if (not (x)) { std::cout << "failed: " #x << std::endl; return 1; } } while (0)

int main()
{
  auto m = sdd::init(conf());
  O o(OB {"a", "b"});
  const auto h = sdd::composition(sdd::function(o, "a", fn{3, -1}), sdd::function(o, "b", fn{1, 1}));
  bool raised = false;
  try { sdd::if_then_else(h, sdd::id<C>(), sdd::id<C>()); } catch (const std::invalid_argument&) { raised = true; }
  CHECK(raised);
  return 0;
}
