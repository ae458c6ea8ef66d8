from plants._pre import PRE
prop = "C08"
needs = "an intersection of three operands where the third is over another variable"
breaks = "only the first of the remaining operands is checked: an incompatible one is combined instead of raising the error"
edits = [("dd/intersection.hh", "      check_compatibility(res, *operands_cit);\n", "      if (operands_cit == begin + 1) check_compatibility(res, *operands_cit);\n")]
demo = PRE + r'''
int main()
{
  auto m = sdd::init(conf());
  const auto one = sdd::one<C>();
  std::vector<SDD> good, bad;
  int n = 0;
  for (unsigned i = 0; i < 40; ++i)
  {
    std::vector<SDD> xs { SDD(0, {1, 2, i + 3}, one), SDD(0, {1, 2, i + 100}, one), SDD(1, {1, 2, i + 200}, one) };
    try { sdd::intersection<C>(xs.begin(), xs.end()); } catch (const sdd::top<C>&) { ++n; }
  }
  CHECK(n == 40);
  return 0;
}
'''
