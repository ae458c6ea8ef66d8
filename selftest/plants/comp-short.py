from plants._pre import PRE
prop = "C09"
needs = "a composition whose first applied operation leaves the diagram as it is"
breaks = "the outer operation of a composition is not applied when the inner one changed nothing"
edits = [("hom/composition.hh", "return left(cxt, o, right(cxt, o, x));", "const auto r = right(cxt, o, x);\n    return r == x and right.selector() ? r : left(cxt, o, r);")]
demo = PRE + r'''
int main()
{
  auto m = sdd::init(conf());
  O o(OB {"a", "b"});
  const auto one = sdd::one<C>();
  const auto h = sdd::composition(sdd::function(o, "a", fn{1, 5}), sdd::function(o, "b", fn{3, -1}));
  CHECK(h(o, SDD(1, {1}, SDD(0, {1,7}, one))) == SDD(1, {6}, SDD(0, {1}, one)));
  CHECK(h(o, SDD(1, {1}, SDD(0, {1}, one))) == SDD(1, {6}, SDD(0, {1}, one)));
  return 0;
}
'''
