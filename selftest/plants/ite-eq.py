from plants._pre import PRE
prop = "C03"
needs = "two conditional operations that differ only in their last operand and fall in the same bucket of the unique table"
breaks = "equality of conditional operations ignores the else operand: the second one is taken for the first"
edits = [("hom/if_then_else.hh", "return lhs.h_if == rhs.h_if and lhs.h_then == rhs.h_then and lhs.h_else == rhs.h_else;", "return lhs.h_if == rhs.h_if and lhs.h_then == rhs.h_then;")]
demo = PRE + r'''
int main()
{
  auto m = sdd::init(conf());
  O o(OB {"a", "b"});
  const auto p = sdd::function(o, "a", fn{3, -1});
  const auto t = sdd::function(o, "b", fn{1, 1});
  std::vector<H> hs;
  for (int i = 0; i < 4000; ++i) hs.push_back(sdd::if_then_else(p, t, sdd::function(o, "b", fn{1, 2 + i})));
  for (std::size_t i = 1; i < hs.size(); ++i) CHECK(hs[i] != hs[i - 1]);
  CHECK(m.hom_stats().size >= 8000);
  return 0;
}
'''
