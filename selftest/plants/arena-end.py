from plants._pre import PRE
prop = "C16"
needs = "a request that is one byte larger than what is left of the scratch area"
breaks = "memory past the end of the scratch area is handed out"
edits = [("mem/linear_alloc.hh", "if (diff >= n)", "if (diff + 1 >= n)")]
flags = "-fsanitize=address"
demo = PRE + r'''
int main()
{
  sdd::mem::arena ar(10);
  sdd::mem::rewinder rw(ar);
  sdd::mem::linear_alloc<char> al(ar);
  char* p = al.allocate(6);
  char* q = al.allocate(5);
  for (int i = 0; i < 5; ++i) q[i] = 1;
  const bool ok = q >= p + 6 ? q + 5 <= p + 10 or q >= p + 10 : true;
  al.deallocate(q, 5);
  al.deallocate(p, 6);
  CHECK(ok);
  return 0;
}
'''
