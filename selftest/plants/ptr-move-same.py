prop = "C01"
needs = "swapping or moving handles so that a moved-from handle is assigned again by move"
breaks = "a move assignment does not release the object the handle held when it is the last handle: the object stays in the unique table for ever"
edits = [("mem/ptr.hh", """  operator=(ptr&& other)
  noexcept
  {
    if (x_ != nullptr)
    {
      x_->decrement_reference_counter();
      if (x_->is_not_referenced())
      {
        deletion_handler<Unique>()(x_);
      }
    }
    x_ = other.x_;""", """  operator=(ptr&& other)
  noexcept
  {
    if (x_ != nullptr and x_ != other.x_)
    {
      x_->decrement_reference_counter();
      if (x_->is_not_referenced())
      {
        deletion_handler<Unique>()(x_);
      }
    }
    x_ = other.x_;""")]
demo = r'''
#include <iostream>
#include "sdd/sdd.hh"
using C = sdd::conf1; using SDD = sdd::SDD<C>;
int main()
{
  C c; c.sdd_unique_table_size = 64; c.sdd_difference_cache_size = c.sdd_intersection_cache_size = c.sdd_sum_cache_size = 64; c.sdd_arena_size = 65536; c.hom_unique_table_size = 64; c.hom_cache_size = 64;
  auto m = sdd::init(c);
  const auto before = m.sdd_stats().size;
  {
    SDD x(0, {1}, sdd::one<C>());
    SDD y(0, {1}, sdd::one<C>());
    x = std::move(y);
  }
  if (m.sdd_stats().size != before) { std::cout << "leaked" << std::endl; return 1; }
  return 0;
}
'''
