#include <iostream>
#include "sdd/mem/hash_table.hh"
using namespace sdd::mem;
struct item { unsigned v; intrusive_member_hook<item> hook; item(unsigned x) : v(x) {} bool operator==(const item& o) const noexcept { return v == o.v; } };
namespace std { template <> struct hash<item> { size_t operator()(const item& i) const noexcept { return i.v % 2; } }; }
int main()
{
  hash_table<item> t(64);
  item a(0), b(2), c(4), d(6);
  t.insert(&a); t.insert(&b); t.insert(&c); t.insert(&d);
  t.erase(&a);
  for (item* i : {&b, &c, &d})
  {
    item again(i->v);
    if (t.insert(&again).second) { std::cout << "lost " << i->v << std::endl; return 1; }
  }
  return 0;
}
