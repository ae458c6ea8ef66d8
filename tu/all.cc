// Instantiates the whole public surface of libsdd for several configurations, so that the exporter
// sees every template of the library as type-checked code. Nothing here is ever run.
#include <fstream>
#include <iostream>
#include <sstream>
#include "sdd/sdd.hh"
#include "sdd/order/order.hh"
#include "sdd/order/strategies/flatten.hh"
#include "sdd/order/strategies/force.hh"
#include "sdd/order/strategies/force_hyperedge.hh"
#include "sdd/order/strategies/force_hypergraph.hh"
#include "sdd/order/strategies/force_vertex.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"
#include "sdd/tools/arcs.hh"
#include "sdd/tools/manager_statistics.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/serialization.hh"
#include "sdd/tools/size.hh"
#include "sdd/tools/dot/force_hypergraph.hh"
#include "sdd/tools/dot/homomorphism.hh"
#include "sdd/tools/dot/sdd.hh"
#include <cereal/archives/binary.hpp>
#include <cereal/types/string.hpp>

namespace vw {

using namespace sdd;

// bitset wider than one machine word, and a flat_set of a non trivial element.
struct confB : default_configuration {
  using Identifier = unsigned int;
  using Values = values::bitset<64>;
};

template <typename C>
values::flat_set<unsigned> mkval(const values::flat_set<unsigned>*) { return {1u, 2u}; }
template <typename C>
values::bitset<64> mkval(const values::bitset<64>*) { return {1u, 2u}; }

// ---- user callbacks -----------------------------------------------------------------------------
template <typename C>
struct user_inductive {
  typename C::Identifier target;
  bool skip(const typename C::Identifier& i) const noexcept { return i != target; }
  bool selector() const noexcept { return false; }
  homomorphism<C> operator()(const order<C>& o, const SDD<C>& x) const { return cons(o, x, id<C>()); }
  homomorphism<C> operator()(const order<C>& o, const typename C::Values& x) const { return cons(o, x, id<C>()); }
  SDD<C> operator()() const { return one<C>(); }
  bool operator==(const user_inductive& o) const { return target == o.target; }
};
template <typename C>
std::ostream& operator<<(std::ostream& os, const user_inductive<C>&) { return os; }

// An inductive which does not define skip() nor selector().
template <typename C>
struct bare_inductive {
  int k;
  homomorphism<C> operator()(const order<C>& o, const SDD<C>& x) const { return cons(o, x, id<C>()); }
  homomorphism<C> operator()(const order<C>& o, const typename C::Values& x) const { return cons(o, x, id<C>()); }
  SDD<C> operator()() const { return one<C>(); }
  bool operator==(const bare_inductive& o) const { return k == o.k; }
};
template <typename C>
std::ostream& operator<<(std::ostream& os, const bare_inductive<C>&) { return os; }

template <typename C>
struct user_function {
  int k;
  using values_type = typename C::Values;
  values_type operator()(const values_type& v) const { return v; }
  bool operator==(const user_function& o) const { return k == o.k; }
};
template <typename C>
std::ostream& operator<<(std::ostream& os, const user_function<C>&) { return os; }

template <typename C>
struct user_selector {
  int k;
  using values_type = typename C::Values;
  values_type operator()(const values_type& v) const { return v; }
  bool selector() const noexcept { return true; }
  bool shifter() const noexcept { return false; }
  bool operator==(const user_selector& o) const { return k == o.k; }
};
template <typename C>
std::ostream& operator<<(std::ostream& os, const user_selector<C>&) { return os; }

template <typename C>
struct user_shifter {
  int k;
  using values_type = typename C::Values;
  values_type operator()(const values_type& v) const { return v; }
  bool shifter() const noexcept { return true; }
  bool operator==(const user_shifter& o) const { return k == o.k; }
};
template <typename C>
std::ostream& operator<<(std::ostream& os, const user_shifter<C>&) { return os; }

}
namespace std {
template <typename C> struct hash<vw::user_inductive<C>> { size_t operator()(const vw::user_inductive<C>&) const noexcept { return 0; } };
template <typename C> struct hash<vw::bare_inductive<C>> { size_t operator()(const vw::bare_inductive<C>&) const noexcept { return 0; } };
template <typename C> struct hash<vw::user_function<C>> { size_t operator()(const vw::user_function<C>&) const noexcept { return 0; } };
template <typename C> struct hash<vw::user_selector<C>> { size_t operator()(const vw::user_selector<C>&) const noexcept { return 0; } };
template <typename C> struct hash<vw::user_shifter<C>> { size_t operator()(const vw::user_shifter<C>&) const noexcept { return 0; } };
}
namespace vw {

template <typename T> const T& any();
template <typename T> T& anym();

template <typename C>
void use_dd() {
  using V = typename C::Values;
  using S = SDD<C>;
  S z = zero<C>(), o = one<C>(), d;
  V v = mkval<C>((V*)nullptr);
  const V& cv = v;
  const order<C>& ord = any<order<C>>();
  S a(1, V(v), o), b(1, cv, o), c(2, a, o);
  auto& cxt = global<C>().sdd_context; cxt.clear();
  S a2(cxt, 1, V(v), o), b2(cxt, 1, cv, o), c2(cxt, 2, a, o);
  S e(ord, [&](const typename C::Identifier&) { return v; });
  S cc(a), mm(std::move(a));
  cc = mm; cc = std::move(mm);
  swap(cc, b); swap(S(b), cc); swap(cc, S(b));
  bool r = cc == b; r = cc != b; r = cc < b; r = cc.empty(); r = bool(cc);
  (void)r;
  std::cout << cc << cc.size(); cc.operator->();
  a = b + c; a += b; a = b & c; a &= b; a = b - c; a -= b;
  a = sum<C>({a, b}); a = sdd::intersection<C>({a, b});
  std::vector<S> vs{a, b};
  a = sum<C>(vs.begin(), vs.end()); a = sdd::intersection<C>(vs.begin(), vs.end());
  for (const auto& p : cc.paths()) { (void)p; }
  std::hash<S>()(cc);
  try { a = b + c; } catch (top<C>& t) { std::cerr << t.what() << t.description() << t.lhs() << t.rhs(); }
}

template <typename C>
void use_hom() {
  using V = typename C::Values;
  using S = SDD<C>;
  using H = homomorphism<C>;
  typename C::Identifier idt{};
  const order<C>& o = any<order<C>>();
  S s = one<C>();
  V v = mkval<C>((V*)nullptr);
  H i = id<C>();
  H c = constant(s);
  H k1 = cons(o, v, i), k2 = cons(o, s, i);
  H cp = composition(i, c);
  H f = fixpoint(cp);
  H fn = function(o, idt, user_function<C>{1}), fs = function(o, idt, user_selector<C>{1}), fh = function(o, idt, user_shifter<C>{1});
  H in = inductive<C>(user_inductive<C>{idt}), inb = inductive<C>(bare_inductive<C>{0});
  H ite = if_then_else(i, c, k1);
  H l = local(idt, o, i), l2 = local(order_position_type{0}, i);
  H ca = carrier(o, idt, i);
  H su = sum(o, {i, c}), it = sdd::intersection(o, {i, c});
  std::vector<H> hs{i, c};
  su = sum(o, hs.begin(), hs.end()); it = sdd::intersection(o, hs.begin(), hs.end());
  H sf = hom::saturation_fixpoint(typename C::variable_type(0), i, hs.begin(), hs.end(), i);
  H ss = hom::saturation_sum<C>(typename C::variable_type(0), i, hs.begin(), hs.end(), i);
  H si = hom::saturation_intersection<C>(typename C::variable_type(0), i, hs.begin(), hs.end(), i);
  S r = su(o, s); r = su(o, S(s));
  H rw = rewrite(o, su);
  H cp3(cp), mv(std::move(cp3));
  cp3 = mv; cp3 = std::move(mv);
  bool b = cp3 == mv; b = cp3 != mv; b = cp3 < mv; b = cp3.skip(o); b = cp3.selector();
  (void)b;
  std::cout << su << k1 << k2 << fn << in;
  std::hash<H>()(su); su.operator->();
}

template <typename C>
void ord_more(const order<C>& o) {
  typename C::Identifier a{};
  std::vector<typename C::Identifier> out; o.flat(std::back_inserter(out));
#ifndef SDDX_PUBLIC_ONLY
  o.nodes(); o.contains(o.position(), o.position());
  bool r = o.node(a) < o.node(a); (void)r;
#endif
}

template <typename C>
void use_order() {
  using I = typename C::Identifier;
  I a{}, b{};
  order_builder<C> ob, ob1{a, b}, ob2(a, ob1), ob3(I(a), ob1), ob4(a), ob6{I(a)};
  order_builder<C> oi1(ob1.identifier()), oi2(ob1.identifier(), ob2), oi3(order_identifier<C>(), ob2), oi4((order_identifier<C>()));
  std::vector<I> is;
  order_builder<C> ob5(is.begin(), is.end());
  ob = ob1; ob << ob2; ob.push(a); ob.push(a, ob1); ob.push(ob1.identifier(), ob2);
  ob.empty(); ob.identifier(); ob.next(); ob.nested(); ob.height(); ob.size();
  order<C> o(ob1);
  o.empty(); o.position(); o.variable(); o.identifier(); o.nested(); o.next(); o.node(a);
  o.node_from_position(0); ord_more(o);
  bool r = o == o; (void)r;
  std::cout << o;
  std::hash<order<C>>()(o);
  order_builder<C> fl = flatten<C>()(ob), ih = identifiers_per_hierarchy<C>(2)(ob);
  force::hypergraph<C> g(is.begin(), is.end());
  std::vector<I> e2; g.add_hyperedge(e2.begin(), e2.end(), 1);
  force::worker<C> w(g);
  w(10); w.spans();
  std::cout << tools::dot(g);
  const auto& cg = g; for (const auto& v : cg.vertices()) { v.location(); v.hyperedges(); v.id(); }
}

template <typename C>
void use_manager() {
  auto m = init<C>();
  auto m2 = init<C>(C{});
  m.reset_hom_cache();
  m.sdd_stats(); m.sdd_difference_cache_stats(); m.sdd_intersection_cache_stats(); m.sdd_sum_cache_stats();
  m.hom_stats(); m.hom_cache_stats(); m.values_stats();
}

template <typename C>
void use_tools() {
  SDD<C> s = one<C>();
  const order<C>& o = any<order<C>>();
  tools::nodes(s); tools::number_of_arcs(tools::arcs(s)); tools::size(s);
  std::cout << tools::dot(s, o) << tools::dot(id<C>());
  auto st = tools::statistics(s); st.bytes(); st.arcs_frequency(); st.all_nodes(); st.all_arcs();
}

template <typename C>
void using_mstats(const manager<C>& m) {
  auto st = tools::statistics(m);
  std::ostringstream os; cereal::BinaryOutputArchive ar(os);
  tools::save(ar, st); mem::save(ar, st.sdd_ut()); mem::save(ar, st.diff_cache());
  tools::save(ar, tools::statistics(one<C>()));
}
template <typename C> void use() { use_dd<C>(); use_hom<C>(); use_order<C>(); use_manager<C>(); use_tools<C>(); }
template void use<conf0>();
template void use<conf1>();
void use_stats() {
  using_mstats(any<manager<conf1>>());
  using_mstats(any<manager<conf2>>());
}
template void use<conf2>();

void display_use() { values::display_value<unsigned>()(std::cout, 1u); }
void use_values() {
  std::cout << any<values::flat_set<std::string>>();
  display_use(); util::next_power_of_2(3ul); util::next_power_of_2(3u);
  mem::arena ar(10); mem::linear_alloc<int> la(ar); bool ne = la != la; (void)ne;
  using F = values::flat_set<unsigned>;
  F f, f1{1u, 2u};
  std::vector<unsigned> vs;
  F f2(vs.begin(), vs.end());
  F f3(f1), f4(std::move(f3)); f3 = f4; f3 = std::move(f4);
  f.insert(1u); f.find(1u); f.count(1u); f.lower_bound(1u); f.upper_bound(1u); f.erase(1u); f.rbegin(); f.rend(); f.crbegin(); f.crend(); f.ptr();
  f.begin(); f.end(); f.cbegin(); f.cend(); f.size(); f.empty();
  bool b = f == f1; b = f != f1; b = f < f1; (void)b;
  f = sum(f1, f2); f = difference(f1, f2); f = intersection(f1, f2);
  std::cout << f; std::hash<F>()(f);
  using B = values::bitset<64>;
  B g, g1{1u, 2u};
  B g2(g1.content()); swap(g, g1); g.test(1); B g3(g2);
  g.insert(1); g.empty(); g.size(); g.content(); g << 1; g >> 1; 
  bool c = g == g1; c = g < g1; c = g != g1; (void)c;
  g = sum(g1, g2); g = difference(g1, g2); g = intersection(g1, g2);
  std::cout << g; std::hash<B>()(g);
}

} // namespace vw
