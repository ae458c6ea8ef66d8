import sys, json
sys.path.insert(0,'/verif/spec')
D={}
MISS={'int-late-check':'not caught: it compares operand iterators by position (`cit == begin + 1`), which the operand summary leaves undecided; the same omission guarded by a condition on values is caught (mutant cp-int-late)'}
D['C01']="""Every special member of `mem::ptr`, `swap`, the counters and the handle wrappers (`SDD`, `homomorphism`, `flat_set`) is interpreted in each alias scenario (distinct objects, same object, same handle, empty handle, source inside the object released). Oracle: count change = change in handles designating the object; deletion handler called exactly when the count has just become zero, once, and the source is not read afterwards. 45 obl, 0.4 s."""
D['C02']="""The unique table's `operator()`, `allocate`, `erase` and the block recycling are interpreted on the hit and the miss path; a query over all resolved constructor calls shows that no unified object is made anywhere else; deletion handlers must erase before they destroy. Rests on C19 (`table/*`) and C03 (`content/*`), whose obligations are included. 184 obl, 2 s."""
D['C03']="""For each stored/cached class, `operator==` and `hash` are summarised as terms over the fields. Equality must be reflexive, symmetric, and force every component equal that distinguishes objects; hash must be a function of components that equality forces equal (or functions of them); objects of different dynamic type are never equal. 141 obl, 2 s."""
D['C04']="""One-point domain over `sum`, `intersection`, `difference` for flat and hierarchical nodes, square and quick unions, dispatch on terminals, n-ary operand sets, operator / in-place / range forms. Oracle: membership of the point in the result = or / and / and-not of membership in the operands. Induction on depth for recursive calls. 55 s."""
D['C05']="""One arbitrary element is followed through the operations of `flat_set` and `bitset`: membership is a boolean, so union / intersection / difference, insertion, removal and construction are compared with the set operation by their truth table on every path, under the path's conditions (empty, equal, contained). The standard set algorithms, boost `flat_set` and `std::bitset` are modelled by contract. Queries must ask the same question of this very set. Hand-written loops over elements are undecided. That equal sets are one object and that shared ones are never written is C02 and C20. 44 obl, 1 s."""
D['C06']="""`cache::operator()` and `cache_entry` are interpreted with hit / miss / filtered / throwing evaluation: the key is compared by the operation's own equality, the result stored is that of the operation stored with it, nothing is inserted before evaluation returns, entries are released on the exceptional path; the key of an application must contain everything its evaluation reads (`key-covers-evaluation`, an interprocedural read-set of `operator()` against the equality of the key). 14 obl, 1 s."""
D['C07']="""List/typestate model of the LRU list, the hash table and the entry pool in `cache`: evicted entry is the oldest end, is removed from table and list before its memory goes to the pool, the full test precedes insertion, a hit moves to the newest end, `clear`/`reset` empties all three. 16 obl, 1 s."""
D['C08']="""A typestate over operands ("known to be a node of the kind and variable of the first one"): an operand may only be used as a node (`variant_cast`, arcs read) or be skipped once it is known compatible, and what is raised carries the two operands; every pair of the two-operand dispatch that is neither neutral nor a node pair must raise; entry points may drop only the neutral/absorbing operand. 95 obl, 15 s."""
D['C09']="""Application model over every `operator()` of `sdd/hom`: result = definition as a term over applications (composition order, all operands of sums/intersections, if-then-else on both parts, local on nested values with the nested level, fixpoint returns x only when the last application gave x, inductive gets the context's level, constants). Loop fixed points for n-ary operands. Fixpoints: see section 6. 99 obl, 20 s."""
D['C10']="""The builders are interpreted symbolically: what they return is a term over operations, compared with the requested one in the algebra of operations (identity neutral, composition associative, locals on one level compose, fixpoint idempotent, conditional with identity condition or equal branches), under the equalities the path has tested. The operand collectors of unions and intersections must keep each operand (locals with their level), and open nested ones entirely. Regrouping the local operands of an intersection is taken as given (it is exact for selectors, the use libsdd documents); the final assembly loop of unions and intersections is not decided. 246 obl, 1 s."""
D['C12']="""`skip` and `selector` of each operation are boolean functions of the operands' ones: true must imply true for each operand (each element of a collection, by `visits`); the skipping evaluation must apply the operation with `order.next()` to every successor and keep values. 3 s."""
D['C15']="""`init` and the owner's destructor are interpreted with the two process-wide pointers as locations named by their type: a manager is returned only on paths where both were null, with both set to what it owns; the error path changes neither; the destructor clears both on every path. Declaration order of members is checked against which state each member's type uses; handlers installed = handlers reset; each `*_size` setting is followed from the configuration through the contexts to the component (identified by its type) it sizes. 116 obl, 1 s."""
D['C16']="""Arithmetic summaries of arena allocate / deallocate / rewinder, plus a scope analysis: containers in scratch memory are declared after the rewinder, are not returned, and a function that rewinds does not grow its caller's container. 19 obl, 1 s."""
D['C17']="""May-raise closure over the resolved call graph of every instantiated function (calls, constructors, functions whose address is taken, lambdas, virtual overriders, dispatch tables): sources are the library's throw statements and the user's callables; a function declared `noexcept` must not be in it, and every handler must end by raising. Memory exhaustion is not a source (the library treats it as fatal by design). 1354 obl, 1 s."""
D['C18']="""The jump tables, `variant` tag computation, destroy / hash / compare dispatch, `is`, `get`/`variant_cast` are decided per alternative by constant evaluation over the type list of the instantiation. 49 obl, 1 s."""
D['C19']="""Shape analysis of the intrusive hash table: buckets are lists with "first, arbitrary, rest" summarised; insert links at the bucket of the hash, growth relinks every element to the bucket under the new mask, erase unlinks exactly the element, clear visits each once with next read before disposal, size follows. 20 obl, 1 s."""
D['C20']="""Type-level query over every public member function, field and free function of the exported program: nothing returns write access to a shared object; methods of shared objects are const and write no field; modifying methods of a handle end with a unified object in the handle (interpreted). Compile-fail witnesses. 160 obl, 14 s."""
D['C22']="""Sizes requested at each allocation of a variable-length object are compared, as terms, with the range the constructor fills, the destructor walks and the accessors expose. 31 obl, 1 s."""
D['C23']="""The one-point runs of C04 plus the function/local/cons evaluation with an additional typestate: every arc that reaches a builder has a non-empty valuation and a successor different from zero, successors are distinct (merged by successor), and no node is built from an empty builder. 209 obl, 55 s."""
exec(open('/verif/spec/design_extra.py').read()) if __import__('os').path.exists('/tmp/design_extra.py') else None
import importlib, props
from props import PROPS
import os, glob
s2=[];na=[]
for p in PROPS:
    i=p['id']
    if os.path.exists('/verif/checks/p_%s.py'%i.lower()): s2.append("**%s %s.** %s"%(i,p['title'],D.get(i,'')))
    else: na.append("- **%s %s**: %s"%(i,p['title'],p.get('na','check not built yet')))
t=open('/verif/spec/DESIGN.tmpl.md').read()
t=t.replace('@@PROPS@@','\n\n'.join(s2)).replace('@@NA@@','\n'.join(na))
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')+glob.glob('/verif/selftest/confirmed/*/meta.json')):
    m=json.load(open(d)); rows.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(d)),m['property'],m['needs'],MISS.get(os.path.basename(os.path.dirname(d)),m['property'])))
t=t.replace('@@SEEDED@@','\n'.join(rows))
open('/verif/DESIGN.md','w').write(t)
