from plants._pre import PRE
prop = "C04"
needs = "a difference where one arc of the left operand overlaps two arcs of the right one, the first of which it covers entirely"
breaks = "the common parts after the first covered arc of the right operand are lost from the difference"
edits = [("dd/difference.hh", """            su.add(std::move(tmp_succ), std::move(tmp_val));
          }""", """            su.add(std::move(tmp_succ), tmp_val);
          }
          if (tmp_val == rhs_arc.valuation()) break; // the rest of this arc is handled above""")]
demo = PRE + r'''
int main()
{
  auto m = sdd::init(conf());
  const auto one = sdd::one<C>();
  SDD a(0, {1,2,3}, SDD(1, {1,2,3}, one));
  SDD b = SDD(0, {1}, SDD(1, {1}, one)) + SDD(0, {2}, SDD(1, {2}, one)) + SDD(0, {3}, SDD(1, {3}, one));
  SDD e = SDD(0, {1}, SDD(1, {2,3}, one)) + SDD(0, {2}, SDD(1, {1,3}, one)) + SDD(0, {3}, SDD(1, {1,2}, one));
  CHECK(a - b == e);
  return 0;
}
'''
