from plants._pre import PRE
prop = "C12"
needs = "a composition of a selector after an operation that is not one, used as a condition"
breaks = "a composition claims to be a selector although its first applied operation modifies values"
edits = [("hom/composition.hh", "return left.selector() and right.selector();", "return left.selector();")]
demo = PRE + r'''
int main()
{
  auto m = sdd::init(conf());
  O o(OB {"a", "b"});
  const auto h = sdd::composition(sdd::function(o, "a", fn{3, -1}), sdd::function(o, "b", fn{1, 1}));
  bool raised = false;
  try { sdd::if_then_else(h, sdd::id<C>(), sdd::id<C>()); } catch (const std::invalid_argument&) { raised = true; }
  CHECK(raised);
  return 0;
}
'''
