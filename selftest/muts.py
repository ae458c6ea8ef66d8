ALL = []
def M(name, exp, *edits, occ=0): ALL.append(dict(kind="mut", name=name, exp=exp.split(","), edits=edits, occ=occ))
def R(name, *edits, occ=0): ALL.append(dict(kind="ref", name=name, exp=[], edits=edits, occ=occ))
HT = "mem/hash_table.hh"
M("ht-erase-mid", "C19", (HT, "previous->hook.next = current->hook.next;", "previous->hook.next = current;"))
M("ht-erase-head", "C19", (HT, "if (previous == nullptr)", "if (previous != nullptr)"))
M("ht-erase-size", "C19", (HT, "        --size_;\n", ""))
M("ht-erase-noprev", "C19", (HT, "      previous = current;\n      current = current->hook.next;", "      if (previous == nullptr) previous = current;\n      current = current->hook.next;"), occ=1)
M("ht-insert-lose", "C19", (HT, "x->hook.next = buckets[pos];", "x->hook.next = nullptr;"))
M("ht-insert-second", "C19", (HT, "x->hook.next = buckets[pos];", "x->hook.next = buckets[pos] ? buckets[pos]->hook.next : nullptr;"))
M("ht-rehash-range", "C19", (HT, "for (std::size_t i = 0; i < nb_buckets_; ++i)\n    {\n      Data* data_ptr", "for (std::size_t i = 1; i < nb_buckets_; ++i)\n    {\n      Data* data_ptr"))
M("ht-rehash-next", "C19", (HT, "        data_ptr = next;", "        data_ptr = data_ptr->hook.next;"))
M("ht-rehash-nb", "C19", (HT, "insert_impl(data_ptr, new_buckets, new_nb_buckets);", "insert_impl(data_ptr, new_buckets, nb_buckets_);"))
M("ht-rehash-nonb", "C19", (HT, "    nb_buckets_ = new_nb_buckets;\n", ""))
M("ht-rehash-size", "C19", (HT, "    size_ = 0;\n\n    for", "    for"))
M("ht-clear-size", "C19", (HT, "      buckets_[i] = nullptr;\n    }\n    size_ = 0;", "      buckets_[i] = nullptr;\n    }"))
M("ht-clear-slot", "C19", (HT, "      buckets_[i] = nullptr;\n", ""))
M("ht-clear-uaf", "C19", (HT, "        current = current->hook.next;\n        disposer(to_erase);", "        disposer(to_erase);\n        current = current->hook.next;"))
M("ht-commit-first", "C19", (HT, "    if (previous != nullptr)\n    {\n      previous->hook.next = x;", "    if (previous != nullptr)\n    {\n      (*commit_data.bucket)->hook.next = x;"))
M("ht-check-bucket", "C19", (HT, "commit_data.bucket = buckets_.get() + pos;", "commit_data.bucket = buckets_.get() + (pos ^ 1);"))
M("ht-check-pos", "C19", (HT, "const std::size_t pos = std::hash<T>()(x) & (nb_buckets_ - 1);", "const std::size_t pos = (std::hash<T>()(x) >> 1) & (nb_buckets_ - 1);"))
M("ht-check-stop", "C19", (HT, "      if (eq(x, *current))\n      {\n        return {current, false};\n      }\n      current", "      if (eq(x, *current))\n      {\n        return {current, false};\n      }\n      if (current->hook.next == buckets_[pos]) return {current, true};\n      current"))
R("ht-erase-ptrptr", (HT, """    Data* previous = nullptr;
    Data* current = buckets_[pos];
    while (current != nullptr)
    {
      if (*x == *current)
      {
        if (previous == nullptr)
        {
          buckets_[pos] = current->hook.next;
        }
        else
        {
          previous->hook.next = current->hook.next;
        }
        --size_;
        return;
      }
      previous = current;
      current = current->hook.next;
    }
""", """    Data** link = &buckets_[pos];
    while (*link != nullptr)
    {
      if (*x == **link)
      {
        *link = (*link)->hook.next;
        size_ -= 1;
        return;
      }
      link = &(*link)->hook.next;
    }
"""))
R("ht-insert-for", (HT, """    Data* current = buckets[pos];
    while (current != nullptr)
    {
      if (*x == *current)
      {
        return {current, false /* no insertion */};
      }
      current = current->hook.next;
    }

    // Push in front of the list.
    x->hook.next = buckets[pos];
    buckets[pos] = x;

    ++size_;
""", """    Data*& slot = buckets[pos];
    for (auto c = slot; c; c = c->hook.next)
    {
      if (*c == *x) return std::make_pair(c, false);
    }
    size_++;
    Data* old = slot;
    slot = x;
    x->hook.next = old;
"""))
CA = "mem/cache.hh"; CE = "mem/cache_entry.hh"; EV = "hom/evaluation.hh"
M("ca-evict-before-eval", "C06", (CA, "auto res = op(cxt_);", "if (set_.size() == max_size_) { auto o = lru_list_.front(); set_.erase(o); o->~cache_entry_type(); pool_.deallocate(o); lru_list_.pop_front(); } auto res = op(cxt_);"))
M("ca-eq-hash", "C06", (CA, "{return lhs == rhs.operation;}", "{return std::hash<Operation>()(lhs) == std::hash<Operation>()(rhs.operation);}"))
M("ca-key-order", "C06", (EV, " and same_level(lhs.ord, rhs.ord)", ""))
M("ca-key-sdd", "C06", (EV, "lhs.sdd == rhs.sdd and", ""))
M("ca-diff-key", "C06", ("dd/difference.hh", "lhs.lhs == rhs.lhs and lhs.rhs == rhs.rhs", "lhs.lhs == rhs.lhs"))
M("ca-alloc-before", "C06", (CA, "auto res = op(cxt_);", "void* mem = pool_.allocate(); auto res = op(cxt_);"), )
M("ca-evict-gt", "C07", (CA, "if (set_.size() == max_size_)", "if (set_.size() > max_size_)"))
M("ca-evict-back", "C07", (CA, "auto oldest = lru_list_.front();", "auto oldest = lru_list_.back();"))
M("ca-evict-popback", "C07", (CA, "lru_list_.pop_front();", "lru_list_.pop_back();"))
M("ca-hit-front", "C07", (CA, "lru_list_.splice(lru_list_.end(), lru_list_, insertion.first->lru_cit_);", "lru_list_.splice(lru_list_.begin(), lru_list_, insertion.first->lru_cit_);"))
M("ca-hit-none", "C07", (CA, "lru_list_.splice(lru_list_.end(), lru_list_, insertion.first->lru_cit_);", ""))
M("ca-ins-front", "C07", (CA, "lru_list_.insert(lru_list_.end(), entry)", "lru_list_.insert(lru_list_.begin(), entry)"))
M("ca-noerase", "C07", (CA, "set_.erase(oldest);", ""))
M("ca-erase-after-dtor", "C07", (CA, "set_.erase(oldest); oldest->~cache_entry_type();", "oldest->~cache_entry_type(); set_.erase(oldest);"))
M("ca-nodealloc", "C07", (CA, "pool_.deallocate(oldest);", ""))
M("ca-clear-lru", "C07", (CA, "lru_list_.clear();", ""))
M("ca-clear-dealloc", "C07", (CA, "x->~cache_entry_type(); pool_.deallocate(x);", "x->~cache_entry_type();"))
M("ca-clear-dtor", "C07", (CA, "x->~cache_entry_type(); pool_.deallocate(x);", "pool_.deallocate(x);"))
M("ca-pool-size", "C07", (CA, ", pool_(max_size_)", ", pool_(max_size_ - 1)"))
M("ca-pool-alloc", "C07", (CA, "p->next = free_list; free_list = p;", "p->next = free_list->next; free_list = p;"))
M("ca-pool-init", "C07", (CA, "for (std::size_t i = 0; i < size - 1; ++i)", "for (std::size_t i = 0; i < size - 2; ++i)"))
M("ctx-clear-sum", "C07", ("dd/context.hh", "sum_cache_->clear();", "difference_cache_->clear();"))
M("ctx-clear-hom", "C07", ("hom/context.hh", "cache_->clear();", ""))
M("ca-citer", "C07", (CA, "entry->lru_cit_ = lru_list_.insert(lru_list_.end(), entry);", "lru_list_.insert(lru_list_.end(), entry); entry->lru_cit_ = lru_list_.begin();"))
R("ca-helper", (CA, """    if (set_.size() == max_size_)
    {
      auto oldest = lru_list_.front();
      set_.erase(oldest);
      oldest->~cache_entry_type();
      pool_.deallocate(oldest);
      lru_list_.pop_front();
      ++stats_.discarded;
    }""", "if (set_.size() >= max_size_) evict();"), (CA, "void clear() noexcept {", """void evict() noexcept { auto* victim = *lru_list_.begin(); lru_list_.pop_front(); set_.erase(victim); ++stats_.discarded; victim->~cache_entry_type(); pool_.deallocate(victim); }
  void clear() noexcept {"""))
R("ca-early-return", (CA, "if (not insertion.second) {", "const bool hit = !insertion.second; if (hit) { auto* e = insertion.first; ++stats_.hits; lru_list_.splice(lru_list_.cend(), lru_list_, e->lru_cit_); return e->result; } if (false) {"))

UT = "mem/unique_table.hh"
M("ut-return-new", "C02", (UT, "return *insertion.first;", "return insertion.second ? *insertion.first : *ptr;"))
M("ut-double-free", "C02", (UT, "cache_.reset(reinterpret_cast<char*>(ptr));", "cache_.reset(reinterpret_cast<char*>(ptr)); delete[] reinterpret_cast<char*>(ptr);"))
M("ut-cache-size", "C02", (UT, "cache_size_ = sizeof(Unique) + extra_bytes;", "cache_size_ = sizeof(Unique) + 2 * extra_bytes;"))
M("ut-cache-size2", "C02", (UT, "cache_size_ = sizeof(Unique) + extra_bytes;", "cache_size_ = std::max(cache_size_, sizeof(Unique) + extra_bytes + 8);"))
M("ut-alloc-lt", "C02", (UT, "cache_size_ >= (sizeof(Unique) + extra_bytes)", "cache_size_ >= extra_bytes"))
M("ut-alloc-norelease", "C02", (UT, "cache_.release();", ""))
M("ut-alloc-small", "C02", (UT, "return new char[sizeof(Unique) + extra_bytes];", "return new char[sizeof(Unique) + extra_bytes - 1];"))
M("ut-nodtor", "C02", (UT, "++stats_.hits; ptr->~Unique();", "++stats_.hits;"))
M("ut-erase-order", "C02", (UT, "set_.erase(x); x->~Unique();", "x->~Unique(); set_.erase(x);"))
M("ut-erase-noset", "C02", (UT, "set_.erase(x); x->~Unique();", "if (not set_.size()) set_.erase(x); x->~Unique();"))
M("ut-unify-size", "C02", ("hom/definition.hh", "return {ptr_type(&ut(u, extra_bytes))};", "return {ptr_type(&ut(u, 0))};"))
M("ut-handle-raw", "C02", ("hom/definition.hh", "return {ptr_type(&ut(u, extra_bytes))};", "ut(u, extra_bytes); return {ptr_type(u)};"))
R("sdd-eq-content", ("dd/definition.hh", "return lhs.ptr_ == rhs.ptr_;", "return lhs.ptr_->data() == rhs.ptr_->data();"))
M("mgr-handler", "C02", ("internal_manager.hh", "hom_ut.erase(u);", "if (hom_ut.stats().size > 1) hom_ut.erase(u);"))
R("ut-rewrite", (UT, """auto insertion = set_.insert(ptr);
    if (not insertion.second) // ptr already exists
    {""", """Unique* found; bool fresh; std::tie(found, fresh) = set_.insert(ptr); auto insertion = std::make_pair(found, fresh);
    if (!fresh)
    {"""))
R("ut-alloc-rewrite", (UT, """if (cache_ and cache_size_ >= (sizeof(Unique) + extra_bytes))
    {
      // re-use cached allocation
      auto res = cache_.get();
      cache_.release();
      cache_size_ = 0;
      return res;
    }""", """const std::size_t needed = extra_bytes + sizeof(Unique);
    if (cache_ != nullptr && needed <= cache_size_)
    {
      cache_size_ = 0;
      return cache_.release();
    }"""))
R("ut-helper", (UT, "ptr->~Unique(); if ((sizeof(Unique) + extra_bytes) > cache_size_)", "discard(ptr, extra_bytes); } else if (false) { if ((sizeof(Unique) + extra_bytes) > cache_size_)"), (UT, "/// @brief Allocate a memory block large", """void discard(Unique* u, std::size_t extra) { u->~Unique(); char* mem = reinterpret_cast<char*>(u); const auto sz = sizeof(Unique) + extra; if (cache_size_ < sz) { cache_.reset(mem); cache_size_ = sz; } else delete[] mem; }
  /// @brief Allocate a memory block large"""))
HO = "hom/"
M("eq-cons-val", "C03", (HO + "cons.hh", "lhs.valuation == rhs.valuation and", ""))
M("eq-ite-cross", "C03", (HO + "if_then_else.hh", "lhs.h_then == rhs.h_then", "lhs.h_then == rhs.h_else"))
M("eq-sum-size", "C03", (HO + "sum.hh", "lhs.size == rhs.size and std::equal", "std::equal"))
M("eq-sat-l", "C03", (HO + "saturation_fixpoint.hh", "lhs.L == rhs.L and", ""))
M("eq-fun-typeid", "C03", (HO + "function.hh", "return typeid(*this) == typeid(other) and fun ==", "return fun =="))
M("eq-ind-true", "C03", (HO + "inductive.hh", "return typeid(*this) == typeid(other) and h == static_cast<const inductive_derived&>(other).h;", "return typeid(*this) == typeid(other);"))
M("hash-fun-ptr", "C03", (HO + "function.hh", "return seed(x.fun_ptr->hash()) (val(x.target));", "return seed(x.fun_ptr.get()) (val(x.target));"))
M("hash-unique-rc", "C03", ("mem/unique.hh", "return hash<T>()(x.data());", "return hash<T>()(x.data()) ^ (x.is_not_referenced() ? 0 : 1);"))
M("hash-entry-res", "C03", ("mem/cache_entry.hh", "return seed(x.operation);", "return seed(x.operation) (val(x.result));"))
M("hash-order-ptr", "C03", ("order/order.hh", "std::size_t(seed(o.position()) (val(o.identifier())))", "std::size_t(seed(o.head_))"))
M("eq-order-nested", "C03", ("order/order.hh", "and lhs.nested() == rhs.nested()", ""))
M("eq-node-len", "C03", ("dd/node.hh", "std::equal(lhs.begin(), lhs.end(), rhs.begin())", "std::equal(lhs.begin(), lhs.end() - 1, rhs.begin())"))
M("eq-node-var", "C03", ("dd/node.hh", "and lhs.variable_ == rhs.variable_", ""))
M("eq-arc", "C03", ("dd/alpha.hh", "lhs.successor_ == rhs.successor_ and lhs.valuation_ == rhs.valuation_", "lhs.successor_ == rhs.successor_"))
M("hash-cached-ord", "C03", (HO + "evaluation.hh", "return seed(ch.hom) (val(ch.sdd));", "return seed(ch.hom) (val(ch.sdd)) (val(&ch.ord));"))
R("eq-early", (HO + "if_then_else.hh", "return lhs.h_if == rhs.h_if and lhs.h_then == rhs.h_then and lhs.h_else == rhs.h_else;", "if (!(lhs.h_else == rhs.h_else)) return false; const bool a = rhs.h_if == lhs.h_if; return a && rhs.h_then == lhs.h_then;"))
R("eq-node-rewrite", ("dd/node.hh", "std::equal(lhs.begin(), lhs.end(), rhs.begin())", "std::equal(lhs.begin(), lhs.begin() + lhs.size(), rhs.begin())"))
R("hash-reorder", (HO + "if_then_else.hh", "return seed(ite.h_if) (val(ite.h_then)) (val(ite.h_else));", "std::size_t s = 17; hash_combine(s, ite.h_else); hash_combine(s, ite.h_if); return s;"))

VI = "mem/variant_impl.hh"; VA = "mem/variant.hh"
M("va-stride", "C18", (VI, "table.table[x.index * sizeof...(Ys) + y.index]", "table.table[y.index * sizeof...(Ys) + x.index]"))
M("va-stride2", "C18", (VI, "(std::forward<Visitor>(v), &x.storage, &y.storage,", "(std::forward<Visitor>(v), &y.storage, &x.storage,"))
M("va-eq-index", "C18", (VA, "return lhs.index == rhs.index and apply_binary_visitor(eq_visitor(), lhs, rhs);", "return lhs.index == rhs.index and apply_binary_visitor(eq_visitor(), lhs, lhs);"))
M("va-is", "C18", (VA, "return v.index == util::index_of<typename std::decay<T>::type, Types...>::value;", "return v.index >= util::index_of<typename std::decay<T>::type, Types...>::value;"))
M("va-index", "C18", (VA, ": index(util::index_of<T, Types...>::value)", ": index(util::index_of<T, Types...>::value == 3 ? 2 : util::index_of<T, Types...>::value)"))
M("va-nodtor", "C18", (VA, "apply_visitor(dtor_visitor(), *this);", "if (index > 1) apply_visitor(dtor_visitor(), *this);"))
M("va-table", "C18", (VI, "return table[x.index](", "return table[x.index == 0 ? 1 : x.index]("))
R("va-rewrite", (VI, "return table[x.index](std::forward<Visitor>(v), &x.storage,", "const auto fun = *(table + x.index); const void* where = static_cast<const void*>(&x.storage); return (*fun)(std::forward<Visitor>(v), where,"))
R("va-eq", (VA, "return lhs.index == rhs.index and apply_binary_visitor(eq_visitor(), lhs, rhs);", "if (lhs.index != rhs.index) { return false; } return apply_binary_visitor(eq_visitor(), rhs, lhs);"))
R("va-stride-rw", (VI, "return table.table[x.index * sizeof...(Ys) + y.index]", "const std::size_t row = sizeof...(Ys) * x.index; return table.table[y.index + row]"))
LA = "mem/linear_alloc.hh"
M("la-fit", "C16", (LA, "if (diff >= n)", "if (diff + sizeof(void*) >= n)"))
M("la-fit2", "C16", (LA, "const std::size_t diff = buffer_.get() + size_ - position_;", "const std::size_t diff = size_;"))
M("la-pos", "C16", (LA, "position_ += n;", "position_ += n - 1;"))
M("la-dealloc-any", "C16", (LA, "if (p + n == position_)", "if (p + n <= position_)"))
M("la-dealloc-pos", "C16", (LA, "position_ = p;", "position_ = p + 1;"))
M("la-rewind-max", "C16", (LA, "assert(pointer_in_buffer(pos)); position_ = pos;", "assert(pointer_in_buffer(pos)); if (pos < position_ - 4096) position_ = pos;"))
M("la-rw-pos", "C16", (LA, "a_.rewind(pos_);", "a_.rewind(a_.position());"))
M("la-bytes", "C16", (LA, "a_.deallocate(reinterpret_cast<char*>(p), n*sizeof(T));", "a_.deallocate(reinterpret_cast<char*>(p), n);"))
M("la-size", "C16", (LA, "std::make_unique<char[]>(size_)", "std::make_unique<char[]>(size_ / 2)"))
M("la-no-rw-diff", "C16", ("dd/difference.hh", "mem::rewinder _(cxt_.arena());", ""))
M("la-no-rw-sum", "C16", ("dd/sum.hh", "mem::rewinder _(cxt.arena());", ""), )
M("la-no-rw-int", "C16", ("dd/intersection.hh", "mem::rewinder _(cxt.arena());", ""))
M("la-late-rw", "C16", ("hom/evaluation.hh", "mem::rewinder _(cxt.sdd_context().arena()); dd::square_union<C, typename Node::valuation_type> su(cxt.sdd_context());", "dd::square_union<C, typename Node::valuation_type> su(cxt.sdd_context()); mem::rewinder _(cxt.sdd_context().arena());"))
R("la-rewrite", (LA, "const std::size_t diff = buffer_.get() + size_ - position_; if (diff >= n) {", "char* const last = buffer_.get() + size_; if (position_ + n <= last) {"))
R("la-dealloc-rw", (LA, "if (pointer_in_buffer(p)) { if (p + n == position_) // The memory pointed by p was the last allocated one.", "const bool mine = p >= buffer_.get() && !(p > buffer_.get() + size_); if (mine) { if (position_ - n == p)"))
R("la-early", (LA, "// Not enough room in the buffer, fallback to the default allocator. return static_cast<char*>(::operator new(n));", "void* const mem = ::operator new(n); return static_cast<char*>(mem);"))
AL = "dd/alpha.hh"; NA = "dd/nary.hh"; NO = "dd/node.hh"; SU = "hom/sum.hh"; SF = "hom/saturation_fixpoint.hh"; UTF = "mem/unique_table.hh"
M("vl-alpha-size", "C22", (AL, "return map_.size() * sizeof(arc<C, Valuation>);", "return map_.size() * sizeof(Valuation);"))
M("vl-alpha-one", "C22", (AL, "for (auto& a : map_) {", "for (auto& a : map_) { if (a.second == Valuation()) continue;"))
M("vl-node-dtor", "C22", (NO, "for (auto& a : *this) { a.~arc<C, Valuation>(); }", "for (auto it = begin() + 1; it < end(); ++it) { it->~arc<C, Valuation>(); }"))
M("vl-node-end", "C22", (NO, "return reinterpret_cast<const arc<C, Valuation>*>(alpha_addr()) + size_;", "return reinterpret_cast<const arc<C, Valuation>*>(alpha_addr()) + size_ + (size_ > 200 ? 1 : 0);"))
M("vl-nary-bytes", "C22", (NA, "return set_.size() * sizeof(Valuation);", "return set_.size() * sizeof(Valuation) - 1;"))
M("vl-nary-move", "C22", (NA, "other.operands = nullptr;", "if (size > 64) other.operands = nullptr;"))
M("vl-nary-leak", "C22", (NA, "for (auto& operand : *this) { operand.~SDD<C>(); } delete[] operands;", "delete[] operands;"))
M("vl-sum-bytes", "C22", (SU, "const std::size_t extra_bytes = operands.size() * sizeof(homomorphism<C>);", "const std::size_t extra_bytes = size * sizeof(homomorphism<C>);"))
M("vl-sat-bytes", "C22", (SF, "const std::size_t extra_bytes = g.size() * sizeof(homomorphism<C>);", "const std::size_t extra_bytes = (g.size() - 1) * sizeof(homomorphism<C>);"))
M("vl-sat-dtor", "C22", (SF, "for (auto& elem : *this) { elem.~homomorphism<C>(); }", "if (G_size > 1) for (auto& elem : *this) { elem.~homomorphism<C>(); }"))
M("vl-sum-size", "C22", (SU, ": size(static_cast<operands_size_type>(operands.size()))", ": size(static_cast<operands_size_type>(operands.size() + 1))"))
M("vl-ut-reuse", "C22", (UTF, "if (cache_ and cache_size_ >= (sizeof(Unique) + extra_bytes))", "if (cache_ and cache_size_ >= extra_bytes)"))
M("vl-ut-size", "C22", (UTF, "cache_size_ = sizeof(Unique) + extra_bytes;", "cache_size_ = sizeof(Unique) + 2 * extra_bytes;"))
M("vl-mv", "C22", ("hom/definition.hh", "return {ptr_type(&ut(u, extra_bytes))};", "return {ptr_type(&ut(u, extra_bytes + sizeof(void*)))};"))
M("vl-storage", "C22", ("mem/variant_impl.hh", "static constexpr std::size_t value = tail > head ? tail : head; }; template <typename T> struct largest_size<T>", "static constexpr std::size_t value = head > 16 ? head : tail; }; template <typename T> struct largest_size<T>"))
M("vl-tail", "C22", ("mem/unique.hh", "const T data_;", "const T data_; std::uint32_t mark_ = 0;"))
R("vl-index", (AL, "arc<C, Valuation>* base = reinterpret_cast<arc<C, Valuation>*>(addr); for (auto& a : map_) { new (base++) arc<C, Valuation>(std::move(a.second), std::move(a.first)); }", "arc<C, Valuation>* place = reinterpret_cast<arc<C, Valuation>*>(addr); for (auto it = map_.begin(); it != map_.end(); ++it) { new (place) arc<C, Valuation>(std::move(it->second), std::move(it->first)); ++place; }"))
R("vl-bytes", (SU, "const std::size_t extra_bytes = operands.size() * sizeof(homomorphism<C>); return hom::make_variable_size<C, hom::_sum<C>>(extra_bytes, operands);", "const auto nb = operands.size(); return hom::make_variable_size<C, hom::_sum<C>>(sizeof(homomorphism<C>) * nb, operands);"))
R("vl-dtor", (SF, "for (auto& elem : *this) { elem.~homomorphism<C>(); }", "for (auto it = begin(); it != end(); ++it) { it->~homomorphism<C>(); }"))
R("vl-dtor2", (NO, "for (auto& a : *this) { a.~arc<C, Valuation>(); }", "const auto last = end(); for (auto it = begin(); it != last; ++it) { it->~arc<C, Valuation>(); }"))
R("vl-dtor3", (SU, "for (const auto& h : *this) { h.~homomorphism<C>(); }", "std::for_each(begin(), end(), [](const homomorphism<C>& h){h.~homomorphism<C>();});"))
R("vl-unify", ("dd/definition.hh", "char* addr = ut.allocate(builder.size_to_allocate()); unique_type* u = new (addr) unique_type(mem::construct<node<C, Valuation>>(), var, builder); return ut(u, builder.size_to_allocate());", "const std::size_t bytes = builder.size_to_allocate(); auto* u = new (ut.allocate(bytes)) unique_type(mem::construct<node<C, Valuation>>(), var, builder); return ut(u, bytes);"))
# ---- C04: set operations on diagrams
SM, IN, DF, SQ, NY = "dd/sum.hh", "dd/intersection.hh", "dd/difference.hh", "dd/square_union.hh", "dd/nary.hh"
M("sum-eq-noadd", "C04", (SM, "save.back().second.add(std::move(current_succ));", "(void)0;"))
M("sum-inter-noadd", "C04", (SM, "save.emplace_back(inter, res_succs); save.back().second.add(current_succ);", "save.emplace_back(inter, res_succs);"))
M("sum-diff-swapped", "C04", (SM, "valuation_type diff = difference(cxt, res_val, inter);", "valuation_type diff = difference(cxt, current_val, inter);"))
M("sum-no-remainder", "C04", (SM, "remainder.emplace_back(std::move(diff), std::move(res_succs));", "save.size();"))
M("sum-rest-lost", "C04", (SM, "current_val = difference(cxt, current_val, inter);", "current_val = inter; break;"))
M("sum-break-early", "C23", (SM, "if (current_val == inter) {", "if (current_val == inter or save.size() > 0) {"))
M("sum-tail-lost", "C04", (SM, "if (not values::empty_values(current_val)) { sum_builder_type succs(cxt);", "if (not values::empty_values(current_val) and res.size() > 0) { sum_builder_type succs(cxt);"))
M("sum-save-clear-early", "C04", (SM, "res.insert(save.begin(), save.end());", "if (save.size() > 1) res.insert(save.begin(), save.end());"))
M("sum-flat-dup", "C04", (SM, "search->second.add(succ);", "(void)0;"))
M("sum-flat-lost-val", "C04", (SM, "search->second.insert(std::move(value_succs.first));", "(void)0;"))
M("sum-skip-first-op", "C04", (SM, "for (auto cit = begin; cit != end; ++cit)", "for (auto cit = std::next(begin); cit != end; ++cit)"))
M("sum-values-first", "C04", (SM, "Values result = *cit; for (++cit; cit != end; ++cit)", "Values result; for (++cit; cit != end; ++cit)"))
M("sum-builder-drop", "C04", (SM, "if (not values::empty_values(operand))", "if (not values::empty_values(operand) and set.size() < 2)"))
M("sum-plus-eq", "C04", (SM, "swap(tmp, lhs);", "if (tmp == rhs) swap(tmp, lhs);"))
M("int-no-zero", "C04", (IN, "has_zero = true, set.clear();", "set.clear();"))
M("int-zero-kept", "C04", (IN, "if (values::empty_values(operand))", "if (values::empty_values(operand) and set.empty())"))
M("int-exit-nonempty", "C04", (IN, "if (su.empty())", "if (not su.empty() and lhs.size() > 64)"))
M("int-succ-twice", "C04", (IN, "{ lhs_arc.successor() , rhs_arc.successor()}", "{ lhs_arc.successor(), lhs_arc.successor()}"))
M("int-val-one", "C04", (IN, "valuation_builder.add(rhs_arc.valuation());", "(void)0;"))
M("int-break-arc", "C04", (IN, "su.add(std::move(inter_succ), std::move(inter_val));", "su.add(std::move(inter_succ), std::move(inter_val)); break;"))
M("int-no-clear", "C04", (IN, "su.clear();", "(void)0;"))
M("int-values-stop", "C04", (IN, "swap(tmp, result);", "swap(tmp, result); if (result.size() == 1) break;"))
M("dif-succ-swapped", "C04", (DF, "difference(cxt_, lhs_arc.successor(), rhs_arc.successor())", "difference(cxt_, rhs_arc.successor(), lhs_arc.successor())"))
M("dif-union-lhs", "C04", (DF, "sum_builder.add(rhs_arc.valuation());", "sum_builder.add(rhs_arc.valuation()); if (lhs.size() < rhs.size()) break;"))
M("dif-no-common", "C04", (DF, "if (not values::empty_values(tmp_succ)) {", "if (not values::empty_values(tmp_succ) and rhs.size() > 1) {"))
M("dif-left-zero", "C04", (DF, "else if (rhs == zero<C>()) { return lhs; }", "else if (rhs == zero<C>()) { return rhs; }"))
M("dif-minus-swapped", "C04", (DF, "return dd::difference(global<C>().sdd_context, lhs, rhs);", "return dd::difference(global<C>().sdd_context, rhs, lhs);"))
M("dif-visit-swapped", "C04", (DF, "left, right, left, right", "right, left, left, right"))
M("squ-found-lost", "C04", (SQ, "lb->second.add(std::forward<Valuation_>(val));", "if (lb->second.empty()) lb->second.add(std::forward<Valuation_>(val));"))
M("squ-nolb", "C04", (SQ, "if (lb != map_.end() and not map_.key_comp()(succ, lb->first))", "if (lb != map_.end())"))
M("nary-short", "C04", (NY, "work<const_iterator, hierarchical_node<C>>(begin(), end(), cxt);", "work<const_iterator, hierarchical_node<C>>(begin(), end() - (size > 2), cxt);"))
R("sum-noflag-goto", (SM, "goto equality;", "current_val = difference(cxt, current_val, current_val); break;"))
R("sum-helper", (SM, "if (not values::empty_values(diff)) {", "const bool something_left = not values::empty_values(diff); if (something_left) {"))
R("sum-iter-head", (SM, "for (const auto& arc : head) { sum_builder_type succs(cxt); succs.add(arc.successor()); res.emplace(arc.valuation(), std::move(succs)); }", "for (auto it = head.begin(); it != head.end(); ++it) { sum_builder_type succs(cxt, {it->successor()}); res.emplace(it->valuation(), std::move(succs)); }"))
R("sum-flat-emplace", (SM, "if (search == value_to_succ.end()) { value_to_succ.emplace_hint(search, value, sum_builder_type(cxt, {succ})); } else { search->second.add(succ); }", "if (search != value_to_succ.end()) { search->second.add(succ); } else { value_to_succ.emplace(value, sum_builder_type(cxt, {succ})); }"))
R("sum-rem-iter", (SM, "for (auto& rem : remainder) { res.emplace(std::move(rem.first), std::move(rem.second)); }", "for (auto it = remainder.begin(); it != remainder.end(); ++it) { res.emplace(std::move(it->first), std::move(it->second)); }"))
R("sum-save-loop", (SM, "res.insert(save.begin(), save.end());", "for (auto& s : save) { res.emplace(std::move(s.first), std::move(s.second)); }"))
R("int-continue", (IN, "if (not values::empty_values(inter_val)) { SDD<C> inter_succ", "if (values::empty_values(inter_val)) { continue; } { SDD<C> inter_succ"))
R("int-builder", (IN, "intersection(cxt, intersection_builder<C, SDD<C>>(cxt, { lhs_arc.successor() , rhs_arc.successor()}));", "intersection(cxt, [&]{ intersection_builder<C, SDD<C>> b(cxt); b.add(rhs_arc.successor()); b.add(lhs_arc.successor()); return b; }());"))
R("dif-one-pass", (DF, "su.add(lhs_arc.successor(), std::move(tmp));", "const auto s = lhs_arc.successor(); su.add(s, std::move(tmp));"))
R("dif-values", (DF, "if (lhs == rhs or lhs == zero<C>()) { return zero<C>(); } else if (rhs == zero<C>()) { return lhs; }", "if (lhs.empty()) { return lhs; } if (rhs.empty()) { return lhs; } if (lhs == rhs) { return zero<C>(); }"))
R("dif-minus-eq", (DF, "SDD<C> tmp = dd::difference(global<C>().sdd_context, lhs, rhs); using std::swap; swap(tmp, lhs); return lhs;", "lhs = lhs - rhs; return lhs;"))
R("squ-find", (SQ, "const auto lb = map_.lower_bound(succ); if (lb != map_.end() and not map_.key_comp()(succ, lb->first)) { lb->second.add(std::forward<Valuation_>(val)); } else { auto ins = map_.emplace_hint(lb, std::forward<SDD_>(succ), sum_builder_type(cxt_)); ins->second.add(std::forward<Valuation_>(val)); }", "auto it = map_.find(succ); if (it == map_.end()) { it = map_.emplace(std::forward<SDD_>(succ), sum_builder_type(cxt_)).first; } it->second.add(std::forward<Valuation_>(val));"))
R("squ-one-emplace", (SQ, "const auto lb = map_.lower_bound(succ); if (lb != map_.end() and not map_.key_comp()(succ, lb->first)) { lb->second.add(std::forward<Valuation_>(val)); } else { auto ins = map_.emplace_hint(lb, std::forward<SDD_>(succ), sum_builder_type(cxt_)); ins->second.add(std::forward<Valuation_>(val)); }", "auto res = map_.emplace(std::forward<SDD_>(succ), sum_builder_type(cxt_)); res.first->second.add(std::forward<Valuation_>(val));"))
DE, EV, LO, FU = "dd/definition.hh", "hom/evaluation.hh", "hom/local.hh", "hom/function.hh"
M("cre-val", "C23", (DE, "if (succ.empty() or values::empty_values(val))", "if (succ.empty())"))
M("cre-val2", "C23", (DE, "if (succ.empty() or values::empty_values(val))", "if (succ.empty() and values::empty_values(val))"), occ=1)
M("cre-succ", "C23", (DE, "if (succ.empty() or values::empty_values(val))", "if (values::empty_values(val))"), occ=1)
M("cre-builder", "C23", (DE, "if (builder.empty())", "if (builder.empty() and var == 0)"))
M("dif-empty-succ", "C23", (DF, "if (not values::empty_values(tmp_succ)) {", "if (not values::empty_values(tmp_succ) or rhs.size() == 1) {"))
M("dif-empty-val", "C23", (DF, "if (not values::empty_values(tmp)) {", "if (not values::empty_values(tmp) or lhs.size() == 1) {"))
M("eval-empty-succ", "C23", (EV, "if (not new_successor.empty()) {", "{"))
M("local-empty-val", "C23", (LO, "if (not new_valuation.empty()) {", "if (not new_valuation.empty() or node.size() == 1) {"))
M("fun-empty-val", "C23", (FU, "if (not val.empty()) {", "if (not val.empty() or fun.shifter()) {"))
M("int-empty-succ", "C23", (IN, "if (not values::empty_values(inter_succ)) {", "{"))
M("int-empty-val", "C23", (IN, "if (not values::empty_values(inter_val)) {", "{"))
M("squ-emptyalpha", "C23", (DE, "if (builder.empty()) { return zero_ptr(); } else {", "{"))
R("cre-rw", (DE, "if (succ.empty() or values::empty_values(val)) { return zero_ptr(); } else { dd::alpha_builder<C, Valuation> builder(cxt); builder.add(val, succ); return ptr_type(&unify_node<Valuation>(var, std::move(builder))); }", "dd::alpha_builder<C, Valuation> builder(cxt); const bool something = not values::empty_values(val) and not succ.empty(); if (something) { builder.add(val, succ); } return create_node(var, std::move(builder));"))
R("eval-rw", (EV, "SDD<C> new_successor = hom(cxt, o.next(), arc.successor()); if (not new_successor.empty()) { su.add(std::move(new_successor), arc.valuation()); }", "auto image = hom(cxt, next_level, arc.successor()); if (image.empty()) { continue; } su.add(std::move(image), arc.valuation());"), (EV, "su.reserve(node.size());", "su.reserve(node.size()); const auto next_level = o.next();"))
R("eval-rw2", (EV, "if (h.skip(o)) {", "if (not h.skip(o)) { return h(cxt, o, x); } {"), (EV, "return {node.variable(), su()}; } else { return h(cxt, o, x); }", "return {node.variable(), su()}; }"))
R("local-rw", (LO, "auto new_valuation = h_(cxt_, order_.nested(), arc.valuation()); if (not new_valuation.empty()) { su.add(arc.successor(), std::move(new_valuation)); }", "const auto& succ = arc.successor(); const auto nested = order_.nested(); SDD<C> v = h_(cxt_, nested, arc.valuation()); if (v.empty()) continue; su.add(succ, v);"))
R("local-one-path", (LO, "if (h_.selector()) // partition won't change", "const auto subsets_only = h_.selector(); if (subsets_only)"))
R("fun-rw", (FU, "for (const auto& arc : node) { values_type val = fun(arc.valuation()); if (not val.empty()) { alpha_builder.add(std::move(val), arc.successor()); } }", "for (auto it = node.begin(); it != node.end(); ++it) { auto image = fun(it->valuation()); if (image.empty()) { continue; } alpha_builder.add(std::move(image), it->successor()); }"))
R("fun-rw2", (FU, "sum_operands.add(SDD<C>(o.variable(), fun(arc.valuation()), arc.successor()));", "const SDD<C> image(o.variable(), fun(arc.valuation()), arc.successor()); sum_operands.add(image);"))
H_ = lambda n: "hom/%s.hh" % n
M("sk-comp-or", "C12", (H_("composition"), "left.skip(o) and right.skip(o)", "left.skip(o) or right.skip(o)"))
M("sk-comp-sel", "C12", (H_("composition"), "left.selector() and right.selector()", "left.selector()"))
M("sk-ite", "C12", (H_("if_then_else"), "h_if.skip(o) and h_else.skip(o) and h_then.skip(o)", "h_else.skip(o) and h_then.skip(o)"))
M("sk-ite-sel", "C12", (H_("if_then_else"), "h_else.selector() and h_then.selector()", "h_then.selector()"))
M("sk-sum-any", "C12", (H_("sum"), "std::all_of(begin(), end(), [&o]", "std::any_of(begin(), end(), [&o]"))
M("sk-sum-first", "C12", (H_("sum"), "std::all_of(begin(), end(), [&o]", "std::all_of(std::next(begin()), end(), [&o]"))
M("sk-int-sel", "C12", (H_("intersection"), "return std::all_of( operands.begin(), operands.end() , [](const homomorphism<C>& h){return h.selector();});", "return std::any_of(operands.begin(), operands.end(), [](const homomorphism<C>& h){return h.selector();});"))
M("sk-local", "C12", (H_("local"), "return o.variable() != target;", "return o.variable() > target;"))
M("sk-local-sel", "C12", (H_("local"), "return h.selector();", "return true;"))
M("sk-satsum-L", "C12", (H_("saturation_sum"), "(L ? L->selector() : true)", "(F ? F->selector() : true)"))
M("sk-satfix-G", "C12", (H_("saturation_fixpoint"), "and std::all_of(begin(), end(), [](const auto& h){return h.selector();})", ""))
M("sk-satfix", "C12", (H_("saturation_fixpoint"), "return variable != o.variable();", "return variable != o.variable() and G_size != 0;"))
M("sk-eval-cur", "C12", (EV, "hom(cxt, o.next(), arc.successor())", "hom(cxt, o, arc.successor())"))
M("sk-eval-noskip", "C12", (EV, "if (h.skip(o))", "if (h.skip(o) or h.selector())"))
M("sk-eval-arc", "C12", (EV, "if (not new_successor.empty()) {", "if (not new_successor.empty() and not (new_successor == x)) {"))
M("sk-cons", "C12", (H_("cons"), "return false;", "return true;"))
M("sk-hom-order", "C12", (H_("definition"), "return h.skip(o);", "return h.skip(o) or h.selector();"))
R("sk-comp-if", (H_("composition"), "return left.skip(o) and right.skip(o);", "if (not right.skip(o)) { return false; } return left.skip(o);"))
R("sk-sum-loop", (H_("sum"), "return std::all_of(begin(), end(), [&o](const homomorphism<C>& h){return h.skip(o);});", "for (const auto& h : *this) { if (not h.skip(o)) { return false; } } return true;"))
R("sk-sum-none", (H_("sum"), "return std::all_of(begin(), end(), [&o](const homomorphism<C>& h){return h.skip(o);});", "return std::none_of(begin(), end(), [&](const auto& h){return not h.skip(o);});"))
R("sk-sat-if", (H_("saturation_sum"), "return (F ? F->selector() : true) and (L ? L->selector() : true)", "if (F and not F->selector()) { return false; } return (not L or (*L).selector())"))
R("sk-local-eq", (H_("local"), "return o.variable() != target;", "return not (target == o.variable());"))
R("sk-ite-order", (H_("if_then_else"), "h_if.skip(o) and h_else.skip(o) and h_then.skip(o)", "not (not h_then.skip(o) or not h_if.skip(o)) and h_else.skip(o)"))
# C09: definitions of the operations
DF = H_("definition")
M("ap-comp-order", "C09", (H_("composition"), "return left(cxt, o, right(cxt, o, x));", "return right(cxt, o, left(cxt, o, x));"))
M("ap-comp-level", "C09", (H_("composition"), "return left(cxt, o, right(cxt, o, x));", "return left(cxt, right.skip(o) ? o.next() : o, right(cxt, o, x));"))
M("ap-comp-short", "C09", (H_("composition"), "return left(cxt, o, right(cxt, o, x));", "auto r = right(cxt, o, x);\n    if (r == x) return r;\n    return left(cxt, o, r);"))
M("ap-ite-diff", "C09", (H_("if_then_else"), "dd::difference(cxt.sdd_context(), s, std::move(tmp))", "s"))
M("ap-ite-then", "C09", (H_("if_then_else"), "h_then(cxt, o, tmp)", "h_then(cxt, o, s)"))
M("ap-ite-short", "C09", (H_("if_then_else"), "    dd::sum_builder<C, SDD<C>> sum_operands(cxt.sdd_context());", "    if (tmp.empty()) return h_else(cxt, o, s);\n    if (h_then.selector()) return h_then(cxt, o, tmp);\n    dd::sum_builder<C, SDD<C>> sum_operands(cxt.sdd_context());"))
M("ap-sum-stop", "C09", (H_("sum"), "      sum_operands.add(op(cxt, o, x));", "      auto r = op(cxt, o, x);\n      if (r == x and op.selector()) return r;\n      sum_operands.add(r);"))
M("ap-int-empty", "C09", (H_("intersection"), "      if (res.empty())\n      {\n        return zero<C>();\n      }\n", "      if (res.empty())\n      {\n        continue;\n      }\n"))
M("ap-satsum-L", "C09", (H_("saturation_sum"), "    if (L)\n    {\n      operands.add", "    if (L and not F)\n    {\n      operands.add"))
M("ap-satsum-G", "C09", (H_("saturation_sum"), "      operands.add(g(cxt, o, s));", "      if (not g.skip(o)) operands.add(g(cxt, o, s));"))
M("ap-satfix-G", "C09", (H_("saturation_fixpoint"), "s2 = dd::sum(sdd_context, dd::sum_builder<C, SDD<C>>(sdd_context, {s2, g(cxt, o, s2)}));", "if (not g.selector()) s2 = dd::sum(sdd_context, dd::sum_builder<C, SDD<C>>(sdd_context, {s2, g(cxt, o, s2)}));"))
M("ap-satfix-once", "C09", (H_("saturation_fixpoint"), "    } while (s1 != s2);", "      if (F.selector()) break;\n    } while (s1 != s2);"))
M("ap-satfix-ret", "C09", (H_("saturation_fixpoint"), "      s2 = L(cxt, o, s2); // apply (L + Id)*\n", "      if (s1 == s2 and s1 != s) break;\n      s2 = L(cxt, o, s2); // apply (L + Id)*\n"))
M("ap-fix-two", "C09", (H_("fixpoint"), "    } while (x1 != x2);\n    return x1;", "      if (h(cxt, o, x1) == x) break;\n    } while (x1 != x2);\n    return x1;"))
M("ap-cons-order", "C09", (H_("cons"), "next(cxt, o.next(), x)", "next(cxt, o, x)"))
M("ap-ind-level", "C09", (H_("inductive"), "next_hom(cxt_, order_.next(), arc.successor())", "next_hom(cxt_, next_hom.skip(order_) ? order_.next() : order_, arc.successor())"))
M("ap-ind-skip", "C09", (H_("inductive"), "        sum_operands.add(next_hom", "        if (next_hom == id<C>() and node.size() > 1) continue;\n        sum_operands.add(next_hom"))
M("ap-local-nested", "C09", (H_("local"), "auto new_valuation = h_(cxt_, order_.nested(), arc.valuation());", "auto new_valuation = h_(cxt_, order_, arc.valuation());"), occ=1)
M("ap-local-part", "C23", (H_("local"), "if (h_.selector()) // partition won't change", "if (h_.selector() or node.size() == 2) // partition won't change"))
M("ap-fun-part", "C23", (H_("function"), "if (fun.selector() or fun.shifter())", "if (fun.selector() or fun.shifter() or node.size() == 2)"))
M("ap-hom-short", "C09", (DF, "return *this == id<C>() or x.empty()\n", "return *this == id<C>() or x.empty() or (x == one<C>() and selector())\n"))
M("ap-cached-order", "C09", (EV, "return binary_visit(evaluation<C>{}, hom, sdd, hom, sdd, cxt, ord);", "return binary_visit(evaluation<C>{}, hom, sdd, hom, sdd, cxt, hom.skip(ord) ? ord.next() : ord);"))
M("ap-eval-one", "C09", (EV, "    return h(cxt, o, x);\n  }", "    return h.selector() ? x : h(cxt, o, x);\n  }"))
R("ap-comp-two", (H_("composition"), "return left(cxt, o, right(cxt, o, x));", "const SDD<C> tmp = right(cxt, o, x);\n    if (tmp.empty()) return tmp;\n    return left(cxt, o, tmp);"))
R("ap-ite-split", (H_("if_then_else"), "    dd::sum_builder<C, SDD<C>> sum_operands(cxt.sdd_context());\n    sum_operands.reserve(2);\n", "    if (tmp.empty()) return h_else(cxt, o, s);\n    const auto rest = dd::difference(cxt.sdd_context(), s, tmp);\n    if (rest.empty()) return h_then(cxt, o, tmp);\n    dd::sum_builder<C, SDD<C>> sum_operands(cxt.sdd_context());\n"))
R("ap-sum-iter", (H_("sum"), "    for (const auto& op : *this)\n    {\n      sum_operands.add(op(cxt, o, x));\n    }", "    for (auto it = begin(); it != end(); ++it)\n    {\n      const auto res = (*it)(cxt, o, x);\n      if (not res.empty()) sum_operands.add(res);\n    }"))
R("ap-fix-while", (H_("fixpoint"), "    SDD<C> x1 = x;\n    SDD<C> x2 = x1;\n    do\n    {\n      x2 = x1;\n      swap(x1, h(cxt, o, x1));\n    } while (x1 != x2);\n    return x1;", "    SDD<C> current = x;\n    while (true)\n    {\n      SDD<C> next = h(cxt, o, current);\n      if (next == current) return current;\n      current = std::move(next);\n    }"))
R("ap-satfix-for", (H_("saturation_fixpoint"), "        s2 = dd::sum(sdd_context, dd::sum_builder<C, SDD<C>>(sdd_context, {s2, g(cxt, o, s2)}));", "        const auto image = g(cxt, o, s2);\n        dd::sum_builder<C, SDD<C>> both(sdd_context);\n        both.add(s2);\n        both.add(image);\n        s2 = dd::sum(sdd_context, std::move(both));"))
R("ap-ind-auto", (H_("inductive"), "        const homomorphism<C> next_hom = inductive(order_, arc.valuation());\n        sum_operands.add(next_hom(cxt_, order_.next(), arc.successor()));", "        const auto& succ = arc.successor();\n        const auto next = order_.next();\n        const auto image = inductive(order_, arc.valuation())(cxt_, next, succ);\n        if (image.empty()) continue;\n        sum_operands.add(image);"))
R("ap-hom-if", (DF, "    return *this == id<C>() or x.empty()\n         ? x\n         : cxt.cache()({o, *this, std::forward<SDD_>(x)});", "    if (x.empty()) return x;\n    if (id<C>() == *this) return x;\n    return cxt.cache()({o, *this, std::forward<SDD_>(x)});"))
R("ap-local-hoist", (H_("local"), "    {\n      if (h_.selector()) // partition won't change", "    {\n      const bool keeps = h_.selector();\n      if (keeps) // partition won't change"))
R("ap-satsum-order", (H_("saturation_sum"), "    if (F)\n    {\n      operands.add((*F)(cxt, o, s));\n    }\n\n    for (const auto& g : G)\n    {\n      operands.add(g(cxt, o, s));\n    }\n", "    for (const auto& g : G)\n    {\n      operands.add(g(cxt, o, s));\n    }\n    if (F)\n    {\n      const auto& f = *F;\n      operands.add(f(cxt, o, s));\n    }\n"))
# C08
CC = "dd/check_compatibility.hh"
M("cp-generic", "C08", (CC, "    throw top<C>(lhs_orig, rhs_orig);\n  }\n\n  // Same", "    if (not (lhs_orig == one<C>())) throw top<C>(lhs_orig, rhs_orig);\n  }\n\n  // Same"))
M("cp-flat-lt", "C08", (CC, "if (lhs.variable() != rhs.variable())", "if (lhs.variable() < rhs.variable())"))
M("cp-hier", "C08", (CC, "if (lhs.variable() != rhs.variable())", "if (lhs.variable() != lhs.variable())"), occ=1)
M("cp-carry", "C08", (CC, "throw top<C>(lhs_orig, rhs_orig);\n    }\n  }\n\n  void\n  operator()( const hier", "throw top<C>(lhs_orig, lhs_orig);\n    }\n  }\n\n  void\n  operator()( const hier"))
M("cp-self", "C08", (CC, "lhs, rhs, lhs, rhs);", "lhs, lhs, lhs, rhs);"))
M("cp-diff-var", "C08", ("dd/difference.hh", "if (not (lhs.variable() == rhs.variable()))", "if (lhs.variable() < rhs.variable())"))
M("cp-diff-generic", "C08", ("dd/difference.hh", "  __attribute__((noreturn))\n  SDD<C>\n  operator()(const T&, const U&, const SDD<C>& lhs_orig, const SDD<C>& rhs_orig)\n  const\n  {\n    throw", "  SDD<C>\n  operator()(const T&, const U&, const SDD<C>& lhs_orig, const SDD<C>& rhs_orig)\n  const\n  {\n    if (rhs_orig == one<C>()) return lhs_orig;\n    throw"))
M("cp-sum-late", "C08", ("dd/sum.hh", "      check_compatibility(*begin, *operands_cit);\n", "      if (res.size() < 2) check_compatibility(*begin, *operands_cit);\n"))
M("cp-sum-none", "C08", ("dd/sum.hh", "      check_compatibility(*begin, *operands_cit);\n", "      if (not save.empty()) check_compatibility(*begin, *operands_cit);\n"))
M("cp-int-late", "C08", ("dd/intersection.hh", "      check_compatibility(res, *operands_cit);\n", "      if (su.empty()) check_compatibility(res, *operands_cit);\n"))
M("cp-nary", "C08", ("dd/nary.hh", "    else\n    {\n      throw top<C>(*begin(), *(begin() + 1));\n    }", "    else\n    {\n      return *(begin() + 1);\n    }"))
M("cp-diff-entry", "C08", ("dd/difference.hh", "  else if (rhs == zero<C>())", "  else if (rhs == zero<C>() or rhs == one<C>())"))
M("cp-plus-entry", "C08", ("dd/sum.hh", "  return dd::sum( global<C>().sdd_context\n                , dd::sum_builder<C, SDD<C>>(global<C>().sdd_context, {lhs, rhs}));\n}", "  if (lhs == one<C>()) return rhs;\n  return dd::sum( global<C>().sdd_context\n                , dd::sum_builder<C, SDD<C>>(global<C>().sdd_context, {lhs, rhs}));\n}"))
R("cp-helper", (CC, "    if (lhs.variable() != rhs.variable())\n    {\n      throw top<C>(lhs_orig, rhs_orig);\n    }", "    if (lhs.variable() == rhs.variable())\n    {\n      return;\n    }\n    throw top<C>(lhs_orig, rhs_orig);"))
R("cp-sum-alias", ("dd/sum.hh", "      check_compatibility(*begin, *operands_cit);\n", "      const auto& current = *operands_cit;\n      check_compatibility(current, *begin);\n"))
R("cp-int-alias", ("dd/intersection.hh", "      check_compatibility(res, *operands_cit);\n", "      const SDD<C>& operand = *operands_cit;\n      check_compatibility(res, operand);\n"))
R("cp-diff-visitor", ("dd/difference.hh", "if (not (lhs.variable() == rhs.variable()))", "const bool same = rhs.variable() == lhs.variable();\n    if (not same)"))
R("cp-sum-pre", ("dd/sum.hh", "    // (A).\n    for (++operands_cit; operands_cit != operands_end; ++operands_cit)\n    {\n      // Throw a Top if operands are incompatible (different types or different variables).\n      check_compatibility(*begin, *operands_cit);\n", "    for (auto it = std::next(begin); it != end; ++it)\n    {\n      check_compatibility(*begin, *it);\n    }\n    // (A).\n    for (++operands_cit; operands_cit != operands_end; ++operands_cit)\n    {\n"))
# C20
FS = "values/flat_set.hh"
M("im-insert", "C20", (FS, "    data_type fs(ptr_->data());\n    const auto insertion = fs.insert(x);\n    if (insertion.second)\n    {\n      fs.shrink_to_fit();\n      ptr_ = create(std::move(fs));\n    }\n    return insertion;", "    data_type& fs = const_cast<data_type&>(ptr_->data());\n    return fs.insert(x);"))
M("im-erase", "C20", (FS, "    data_type d(ptr_->data());\n    const std::size_t nb_erased = d.erase(x);", "    data_type& d = const_cast<data_type&>(ptr_->data());\n    const std::size_t nb_erased = d.erase(x);"))
M("im-begin", "C20", (FS, "  const_iterator\n  begin()\n  const noexcept\n  {\n    return ptr_->data().cbegin();", "  typename data_type::iterator\n  begin()\n  const noexcept\n  {\n    return const_cast<data_type&>(ptr_->data()).begin();"))
M("im-find", "C20", (FS, "  const_iterator\n  find(const Value& x)\n  const\n  {\n    return ptr_->data().find(x);", "  auto\n  find(const Value& x)\n  const\n  {\n    return const_cast<data_type&>(ptr_->data()).find(x);"))
M("im-data", "C20", ("mem/unique.hh", "  const T&\n  data()\n  const noexcept\n  {\n    return data_;", "  T&\n  data()\n  const noexcept\n  {\n    return const_cast<T&>(data_);"))
M("im-arc", "C20", ("dd/node.hh", "using const_iterator = const arc<C, Valuation>*;", "using const_iterator = arc<C, Valuation>*;"), ("dd/node.hh", "return reinterpret_cast<const arc<C, Valuation>*>(alpha_addr());", "return reinterpret_cast<arc<C, Valuation>*>(alpha_addr());"), ("dd/node.hh", "return reinterpret_cast<const arc<C, Valuation>*>(alpha_addr()) + size_;", "return reinterpret_cast<arc<C, Valuation>*>(alpha_addr()) + size_;"))
R("im-insert-early", (FS, "    data_type fs(ptr_->data());\n    const auto insertion = fs.insert(x);\n    if (insertion.second)\n    {\n      fs.shrink_to_fit();\n      ptr_ = create(std::move(fs));\n    }\n    return insertion;", "    auto fs = data_type(ptr_->data());\n    const auto insertion = fs.insert(x);\n    if (not insertion.second) return insertion;\n    fs.shrink_to_fit();\n    auto p = create(std::move(fs));\n    std::swap(ptr_, p);\n    return insertion;"))
R("im-begin-auto", (FS, "  const_iterator\n  begin()\n  const noexcept\n  {\n    return ptr_->data().cbegin();", "  const_iterator\n  begin()\n  const noexcept\n  {\n    const auto& d = ptr_->data();\n    return d.begin();"))
M("mg-values-live", "C15", ("manager.hh", "*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr", "*global_ptr<C>() == nullptr"))
M("mg-or", "C15", ("manager.hh", "*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr", "*global_ptr<C>() == nullptr or *global_values_ptr<values_type>() == nullptr"))
M("mg-fini-values", "C15", ("manager.hh", "    *global_values_ptr<values_type>() = nullptr;\n  }", "  }"))
M("mg-fini-if", "C15", ("manager.hh", "    *global_values_ptr<values_type>() = nullptr;\n  }", "    if (m_->sdd_unique_table.stats().size > 2) *global_values_ptr<values_type>() = nullptr;\n  }"))
M("mg-order", "C15", ("manager.hh", "  std::unique_ptr<values_manager<values_type>> values_;", "  std::unique_ptr<internal_manager<C>> m_;"), ("manager.hh", "  std::unique_ptr<internal_manager<C>> m_;\n\npublic:", "  std::unique_ptr<values_manager<values_type>> values_;\n\npublic:"))
M("mg-swap-sizes", "C15", ("internal_manager.hh", "sdd_context( configuration.sdd_difference_cache_size\n                 , configuration.sdd_intersection_cache_size", "sdd_context( configuration.sdd_intersection_cache_size\n                 , configuration.sdd_difference_cache_size"))
M("mg-cxt-sizes", "C15", ("dd/context.hh", "sum_cache_{std::make_shared<sum_cache_type>(*this, sum_size)}", "sum_cache_{std::make_shared<sum_cache_type>(*this, intersection_size)}"))
M("mg-hom-size", "C15", ("internal_manager.hh", "hom_unique_table(configuration.hom_unique_table_size)", "hom_unique_table(configuration.sdd_unique_table_size)"))
M("mg-handler", "C15", ("internal_manager.hh", "      mem::reset_deletion_handler<hom_unique_type>();\n", ""))
M("mg-install", "C15", ("manager.hh", "    *global_ptr<C>() = im_ptr.get();\n", ""))
R("mg-nested-if", ("manager.hh", "  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)\n  {", "  const bool live = *global_ptr<C>() != nullptr or *global_values_ptr<values_type>() != nullptr;\n  if (not live)\n  {"))
R("mg-throw-first", ("manager.hh", "  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)\n  {", "  if (*global_ptr<C>() != nullptr) throw std::runtime_error(\"SDD library already initialized.\");\n  auto& vp = *global_values_ptr<values_type>();\n  if (vp == nullptr)\n  {"))
R("mg-sizes", ("internal_manager.hh", "    : handlers(sdd_unique_table, hom_unique_table)\n", "    : handlers(this->sdd_unique_table, this->hom_unique_table)\n"), ("dd/context.hh", "arena_{std::make_shared<mem::arena>(arena_size)}", "arena_(std::make_shared<mem::arena>(arena_size))"))
R("mg-impl", ("manager.hh", "    *global_ptr<C>() = nullptr;\n    *global_values_ptr<values_type>() = nullptr;", "    auto gv = global_values_ptr<values_type>();\n    *gv = nullptr;\n    auto gp = global_ptr<C>();\n    *gp = nullptr;"))
VB = "values/bitset.hh"
M("vs-diff-swap", "C05", (FS, "std::set_difference( lhs.cbegin(), lhs.cend(), rhs.cbegin(), rhs.cend()", "std::set_difference( rhs.cbegin(), rhs.cend(), lhs.cbegin(), lhs.cend()"))
M("vs-sum-short", "C05", (FS, "noexcept\n{\n  typename flat_set<Value>::data_type res;\n  std::set_union(", "noexcept\n{\n  if (lhs.empty()) return lhs;\n  typename flat_set<Value>::data_type res;\n  std::set_union("))
M("vs-int-eq", "C05", (FS, "noexcept\n{\n  typename flat_set<Value>::data_type res;\n  std::set_intersection(", "noexcept\n{\n  if (lhs == rhs) return {};\n  typename flat_set<Value>::data_type res;\n  std::set_intersection("))
M("vs-bit-xor", "C05", (VB, "lhs.content() | rhs.content()", "lhs.content() ^ rhs.content()"))
M("vs-bit-diff", "C05", (VB, "lhs.content() & ~rhs.content()", "lhs.content() ^ rhs.content()"))
M("vs-insert-lost", "C05", (FS, "    if (insertion.second)\n    {\n      fs.shrink_to_fit();", "    if (not insertion.second)\n    {\n      fs.shrink_to_fit();"))
M("vs-erase-keep", "C05", (FS, "    ptr_ = create(std::move(d));\n    return nb_erased;", "    if (d.empty()) ptr_ = create(std::move(d));\n    return nb_erased;"))
M("vs-end", "C05", (FS, "    return ptr_->data().crend();", "    return ptr_->data().crbegin();"))
M("vs-lb", "C05", (FS, "return ptr_->data().upper_bound(x);", "return ptr_->data().lower_bound(x);"))
R("vs-sum-range", (FS, "noexcept\n{\n  typename flat_set<Value>::data_type res;\n  std::set_union( lhs.cbegin(), lhs.cend(), rhs.cbegin(), rhs.cend()\n                , std::inserter(res, res.begin()));", "noexcept\n{\n  typename flat_set<Value>::data_type res(lhs.cbegin(), lhs.cend());\n  for (const auto& v : rhs) { res.insert(v); }"))
R("vs-diff-loop", (FS, "noexcept\n{\n  typename flat_set<Value>::data_type res;\n  std::set_difference( lhs.cbegin(), lhs.cend(), rhs.cbegin(), rhs.cend()\n                     , std::inserter(res, res.begin()));", "noexcept\n{\n  typename flat_set<Value>::data_type res;\n  for (auto it = lhs.cbegin(); it != lhs.cend(); ++it) { if (rhs.find(*it) == rhs.end()) res.insert(res.end(), *it); }"))
R("vs-int-short", (FS, "noexcept\n{\n  typename flat_set<Value>::data_type res;\n  std::set_intersection(", "noexcept\n{\n  if (lhs == rhs or lhs.empty()) return lhs;\n  if (rhs.size() == 0) return rhs;\n  typename flat_set<Value>::data_type res;\n  res.reserve(std::min(lhs.size(), rhs.size()));\n  std::set_intersection("))
R("vs-bit-forms", (VB, "return {lhs.content() & ~rhs.content()};", "auto r = lhs.content();\n  r &= ~rhs.content();\n  return r;"), (VB, "return {lhs.content() | rhs.content()};", "const auto l = lhs.content();\n  const auto r = ~l & rhs.content();\n  return bitset<Size>(l ^ r);"))
R("vs-insert-find", (FS, "    data_type fs(ptr_->data());\n    const auto insertion = fs.insert(x);\n    if (insertion.second)\n    {\n      fs.shrink_to_fit();\n      ptr_ = create(std::move(fs));\n    }\n    return insertion;", "    const auto search = ptr_->data().find(x);\n    if (search != ptr_->data().end()) return {search, false};\n    data_type fs(ptr_->data());\n    fs.insert(x);\n    fs.shrink_to_fit();\n    ptr_ = create(std::move(fs));\n    return {ptr_->data().find(x), true};"))
R("vs-erase-if", (FS, "    const std::size_t nb_erased = d.erase(x);\n    ptr_ = create(std::move(d));\n    return nb_erased;", "    const std::size_t nb_erased = d.erase(x);\n    if (nb_erased != 0) { ptr_ = create(std::move(d)); }\n    return nb_erased;"))
M("nx-carrier", "C17", ("hom/composition.hh", "  operator()(context<C>& cxt, const order<C>& o, const SDD<C>& x)\n  const\n", "  operator()(context<C>& cxt, const order<C>& o, const SDD<C>& x)\n  const noexcept\n"))
M("nx-compat", "C17", ("dd/check_compatibility.hh", "check_compatibility(const SDD<C>& lhs, const SDD<C>& rhs)\n", "check_compatibility(const SDD<C>& lhs, const SDD<C>& rhs)\nnoexcept\n"))
M("nx-node", "C17", ("order/order.hh", "  node(const identifier_type& id)\n  const\n", "  node(const identifier_type& id)\n  const noexcept\n"))
M("nx-swallow", "C17", ("order/order.hh", "throw identifier_not_found_error<C>(id);", "return nodes().front();"))
R("nx-rename", ("order/order.hh", "catch (std::out_of_range&)\n    {\n", "catch (const std::out_of_range&)\n    {\n      const auto& unknown = id; (void)unknown;\n"))
M("bd-comp-swap", "C10", ("hom/composition.hh", "local(l.target, composition(l.h, r.h))", "local(l.target, composition(r.h, l.h))"))
M("bd-comp-assoc", "C10", ("hom/composition.hh", "make<C, _composition<C>>(l.left, composition(l.right, rorig))", "make<C, _composition<C>>(l.left, composition(rorig, l.right))"))
M("bd-comp-id", "C10", ("hom/composition.hh", "else if (right == id<C>()) return left;", "else if (right == id<C>() or left == right) return left;"))
M("bd-ite-sel", "C10", ("hom/if_then_else.hh", "  if (h_then == h_else)\n", "  if (h_then == h_else or h_if == h_then)\n"))
M("bd-ite-else", "C10", ("hom/if_then_else.hh", "  if (h_if == id<C>())\n  {\n    return h_then;", "  if (h_if == id<C>())\n  {\n    return h_else;"))
M("bd-local-sel", "C10", ("hom/local.hh", "return h == id<C>() ? h : hom::make", "return h == id<C>() or h.selector() ? h : hom::make"))
M("bd-sum-nested", "C10", ("hom/sum.hh", "    for (const auto& op : s)\n    {\n      visit(*this, op, op);", "    for (const auto& op : s)\n    {\n      if (op == id<C>()) continue;\n      visit(*this, op, op);"))
M("bd-sum-id", "C10", ("hom/sum.hh", "    operands_.insert(orig);", "    if (not (orig == id<C>())) operands_.insert(orig);"))
R("bd-comp-if", ("hom/composition.hh", "    return l.target == r.target\n         ? local(l.target, composition(l.h, r.h))\n         : hom::make<C, _composition<C>>(lorig, rorig);", "    if (l.target != r.target)\n    {\n      return hom::make<C, _composition<C>>(lorig, rorig);\n    }\n    const auto nested = composition(l.h, r.h);\n    return local(r.target, nested);"))
R("bd-ite-one", ("hom/if_then_else.hh", "  if (h_if == id<C>())\n  {\n    return h_then;\n  }\n", ""), ("hom/if_then_else.hh", "  if (h_then == h_else)\n  {", "  const auto always = h_if == id<C>();\n  if (always or h_else == h_then)\n  {"))
R("bd-sum-locals", ("hom/sum.hh", "    auto insertion = locals_.emplace(l.target, hom_list_type());\n    insertion.first->second.emplace_back(l.h);", "    locals_[l.target].push_back(l.h);"))
