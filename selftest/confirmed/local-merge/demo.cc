#include <iostream>
#include <vector>
#include "sdd/sdd.hh"
using C = sdd::conf1; using SDD = sdd::SDD<C>; using H = sdd::homomorphism<C>; using V = C::Values;
using OB = sdd::order_builder<C>; using O = sdd::order<C>;
static C conf() { C c; c.sdd_unique_table_size = 64; c.sdd_difference_cache_size = c.sdd_intersection_cache_size = c.sdd_sum_cache_size = 64; c.sdd_arena_size = 65536; c.hom_unique_table_size = 64; c.hom_cache_size = 64; return c; }
// maps every value v to k * v + d, or keeps the values below k when d is -1
struct fn
{
  int k, d;
  bool selector() const noexcept { return d == -1; }
  V operator()(const V& x) const
  {
    V r;
    for (const auto& v : x) { if (d == -1) { if (int(v) < k) r.insert(v); } else r.insert(k * v + d); }
    return r;
  }
  bool operator==(const fn& o) const noexcept { return k == o.k and d == o.d; }
};
std::ostream& operator<<(std::ostream& os, const fn& f) { return os << "fn" << f.k << f.d; }
namespace std { template <> struct hash<fn> { size_t operator()(const fn& f) const noexcept { return f.k * 31 + f.d; } }; }
#define CHECK(x) do { if (not (x)) { std::cout << "failed: " #x << std::endl; return 1; } } while (0)

int main()
{
  auto m = sdd::init(conf());
  OB ob; ob.push("y"); ob.push("x", OB {"a"});
  O o(ob);
  const auto one = sdd::one<C>();
  const auto h = sdd::function(o, "a", fn{0, 5}); // a := 5
  const auto n = [&](unsigned v){ return SDD(0, {v}, one); };
  const auto y = [&](unsigned v){ return SDD(0, {v}, one); };
  SDD x = SDD(1, n(1), y(1)) + SDD(1, n(2), y(2));
  CHECK(h(o, x) == SDD(1, n(5), y(1) + y(2)));
  return 0;
}
