from plants._pre import PRE
prop = "C20"
needs = "removing the largest value of a set of more than two values while another handle designates the same stored set"
breaks = "the stored, shared set is modified in place: every holder of an equal set sees the removal"
edits = [("values/flat_set.hh", "    data_type d(ptr_->data());\n    const std::size_t nb_erased = d.erase(x);", "    auto& stored = const_cast<data_type&>(ptr_->data());\n    if (stored.size() > 2 and *stored.rbegin() == x)\n    {\n      stored.erase(x);\n      return 1;\n    }\n    data_type d(ptr_->data());\n    const std::size_t nb_erased = d.erase(x);")]
demo = PRE + r'''
int main()
{
  auto m = sdd::init(conf());
  V a {1,2,3};
  SDD x(0, a, sdd::one<C>());
  V b(a);
  CHECK(b.erase(3) == 1);
  CHECK(b.size() == 2);
  CHECK(a.size() == 3);
  return 0;
}
'''
