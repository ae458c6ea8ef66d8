// One operation, the same nested diagram, two places of one order: the second application must not be
// answered with the result of the first.
#include <iostream>
#include "sdd/sdd.hh"
using C = sdd::conf1;
using SDD = sdd::SDD<C>;
using hom = sdd::homomorphism<C>;
struct touch_a {
  bool skip(const std::string& i) const noexcept { return i != "a"; }
  hom operator()(const sdd::order<C>& o, const SDD& x) const { return sdd::cons(o, x, sdd::id<C>()); }
  hom operator()(const sdd::order<C>& o, const sdd::conf1::Values&) const { return sdd::cons(o, sdd::conf1::Values{7}, sdd::id<C>()); }
  SDD operator()() const { return sdd::one<C>(); }
  bool operator==(const touch_a&) const noexcept { return true; }
};
std::ostream& operator<<(std::ostream& os, const touch_a&) { return os << "touch_a"; }
namespace std { template <> struct hash<touch_a> { size_t operator()(const touch_a&) const noexcept { return 1; } }; }
int main()
{
  auto m = sdd::init<C>();
  using ob = sdd::order_builder<C>;
  sdd::order<C> o(ob("x", ob({"a", "b"})) << ob("y", ob({"c", "d"})));
  SDD s(o, [](const std::string&) { return C::Values{1}; });
  const auto h = sdd::inductive<C>(touch_a{});
  const auto ly = sdd::local("y", o, h), lx = sdd::local("x", o, h);
  const SDD first = ly(o, s);
  std::cout << "y untouched before: " << (first == s) << "\n";
  lx(o, s);
  auto m2 = 0; (void)m2;
  // same question again, after clearing nothing but asking in the other order in a fresh process is right
  if (first != s) return 1;
  const SDD changed = lx(o, s);
  std::cout << "x touched: " << (changed != s) << "\n";
  return changed != s ? 0 : 1;
}
