// Two configurations with the same type of values: before the fix the second manager silently replaced the
// state of the first one's values, so that equal sets of the first manager were stored twice.
#include <iostream>
#include "sdd/sdd.hh"
struct other : public sdd::conf1 {};
int main()
{
  using V = sdd::conf1::Values;
  auto m1 = sdd::init<sdd::conf1>();
  V a {1, 2};
  bool raised = false;
  try { static auto m2 = sdd::init<other>(); } catch (const std::runtime_error&) { raised = true; }
  V b {1, 2};
  std::cout << "raised " << raised << ", equal " << (a == b) << std::endl;
  return a == b ? 0 : (std::_Exit(1), 1);
}
