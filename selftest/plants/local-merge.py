from plants._pre import PRE
prop = "C23"
needs = "a local operation that maps the nested diagrams of a two-arc node to overlapping ones"
breaks = "the result has arcs with overlapping values: it is not in reduced form and differs from an equal set"
edits = [("hom/local.hh", "if (h_.selector()) // partition won't change", "if (h_.selector() or node.size() == 2) // partition won't change")]
demo = PRE + r'''
int main()
{
  auto m = sdd::init(conf());
  OB ob; ob.push("y"); ob.push("x", OB {"a"});
  O o(ob);
  const auto one = sdd::one<C>();
  const auto h = sdd::function(o, "a", fn{0, 5}); // a := 5
  const auto n = [&](unsigned v){ return SDD(0, {v}, one); };
  const auto y = [&](unsigned v){ return SDD(0, {v}, one); };
  SDD x = SDD(1, n(1), y(1)) + SDD(1, n(2), y(2));
  CHECK(h(o, x) == SDD(1, n(5), y(1) + y(2)));
  return 0;
}
'''
