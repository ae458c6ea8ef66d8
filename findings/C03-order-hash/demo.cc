// Two equal orders give two equal prepending operations: they must be one stored operation.
#include <iostream>
#include "sdd/sdd.hh"
using C = sdd::conf1;
int main()
{
  auto m = sdd::init<C>();
  sdd::order<C> a(sdd::order_builder<C>{"x", "y"}), b(sdd::order_builder<C>{"x", "y"});
  const auto ca = sdd::cons(a, C::Values{1}, sdd::id<C>()), cb = sdd::cons(b, C::Values{1}, sdd::id<C>());
  std::cout << "orders equal: " << (a == b) << ", operations equal: " << (ca == cb) << "\n";
  return a == b and !(ca == cb) ? 1 : 0;
}
