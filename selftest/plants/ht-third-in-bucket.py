prop = "C19"
needs = "three elements whose hashes share a bucket, and the removal of the one at the end of that bucket's list"
breaks = "removing the third element of a bucket also drops the element before it: a later lookup misses it and inserts a duplicate"
edits = [("mem/hash_table.hh", "previous = current;\n      current = current->hook.next;\n    }\n    assert", "if (previous == nullptr)\n      {\n        previous = current;\n      }\n      current = current->hook.next;\n    }\n    assert")]
demo = r'''
#include <iostream>
#include "sdd/mem/hash_table.hh"
using namespace sdd::mem;
struct item { unsigned v; intrusive_member_hook<item> hook; item(unsigned x) : v(x) {} bool operator==(const item& o) const noexcept { return v == o.v; } };
namespace std { template <> struct hash<item> { size_t operator()(const item& i) const noexcept { return i.v % 2; } }; }
int main()
{
  hash_table<item> t(64);
  item a(0), b(2), c(4), d(6);
  t.insert(&a); t.insert(&b); t.insert(&c); t.insert(&d);
  t.erase(&a);
  for (item* i : {&b, &c, &d})
  {
    item again(i->v);
    if (t.insert(&again).second) { std::cout << "lost " << i->v << std::endl; return 1; }
  }
  return 0;
}
'''
