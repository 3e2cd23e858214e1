    // ------------------------------------------------------------------------- operations (included inside World<C>)
    struct Res { int kind = -1; std::optional<TI> ti; std::optional<TC> tc; std::optional<TR> tr; std::optional<TD> td; };
    template <typename It> static void keep(Res* r, It const& it) {
        if (!r) return;
        *r = Res{};
        if constexpr (std::is_same_v<It, TI>) { r->ti.emplace(it); r->kind = 0; }
        else if constexpr (std::is_same_v<It, TC>) { r->tc.emplace(it); r->kind = 1; }
        else if constexpr (std::is_same_v<It, TR>) { r->tr.emplace(it); r->kind = 2; }
        else { r->td.emplace(it); r->kind = 3; }
    }
    // calls f with an iterator of the requested kind at forward position pos (fwd) / rpos (reverse)
    template <typename Tr, typename Fn> static decltype(auto) at_it(Tr& t, size_t n, int64_t pos, int64_t rpos, uint32_t kind, uint32_t how, Fn&& f) {
        if constexpr (transient<Tr>) {
            switch (kind & 3) {
                case 0: { TI it = make_it<TI>(t, n, pos, how); f(it); return; }
                case 1: { TC it = make_it<TC>(t, n, pos, how); f(it); return; }
                case 2: { TR it = make_it<TR>(t, n, rpos, how); f(it); return; }
                default: { TD it = make_it<TD>(t, n, rpos, how); f(it); return; }
            }
        } else {
            if (kind & 2) { PD it = make_it<PD>(t, n, rpos, how); return f(it); }
            PC it = make_it<PC>(t, n, pos, how);
            return f(it);
        }
    }
    // an iterator returned by an in-place insertion or erasure is checked and sometimes kept
    void result_it(Client& c, Op const& op, int slot, Res& r, int64_t pos) {
        if (r.kind < 0) return;
        HeldIt h;
        h.on = true; h.slot = slot; h.kind = r.kind; h.pos = pos;
        h.ti = r.ti; h.tc = r.tc; h.tr = r.tr; h.td = r.td;
        with_it(c, h, [&](auto& tree, Model const& m, auto& it) { check_it(tree, m, it, h.pos, op_seed(op, 8), "iterator after the operation"); });
        if (op.flags & 8) c.it[op.d % kIt] = std::move(h);
    }

    bool insert_it(Client& c, Op const& op, Target g, size_t pos, Elem e, uint32_t kind, uint32_t how) {
        size_t n = g.m->size();
        Res res;
        auto ipos = static_cast<int64_t>(pos);
        bool ok = modify(c, op, g, e, gInsert, ipos,
            [&](auto& t, Value& a) {
                return at_it(t, n, ipos, ipos - 1, kind, how, [&](auto& it) {
                    return on(t, op.c >> 4, a, e, [&](auto& tree, auto&&... args) {
                        if constexpr (transient<decltype(t)>) { tree.insert(it, std::forward<decltype(args)>(args)...); keep(&res, it); }
                        else return tree.insert(it, std::forward<decltype(args)>(args)...);
                    });
                });
            },
            [&](Model& m) { m.insert(m.begin() + ipos, e); });
        if (ok && !g.per) result_it(c, op, g.slot, res, ipos);
        return ok;
    }
    bool erase_it(Client& c, Op const& op, Target g, size_t pos, uint32_t kind, uint32_t how) {
        size_t n = g.m->size();
        Res res;
        auto ipos = static_cast<int64_t>(pos);
        bool ok = modify(c, op, g, Elem{0, 0}, gErase, ipos,
            [&](auto& t, Value&) {
                return at_it(t, n, ipos, ipos, kind, how, [&](auto& it) {
                    if constexpr (transient<decltype(t)>) { if (op.c & 64) t.erase(std::move(it)); else { t.erase(it); keep(&res, it); } }
                    else return t.erase(it);
                });
            },
            [&](Model& m) { m.erase(m.begin() + ipos); });
        if (ok && !g.per) result_it(c, op, g.slot, res, (kind & 2) ? ipos - 1 : ipos);
        return ok;
    }
    bool assign_it(Client& c, Op const& op, Target g, size_t pos, Elem e, uint32_t kind, uint32_t how) {
        size_t n = g.m->size();
        auto ipos = static_cast<int64_t>(pos);
        return modify(c, op, g, e, gOverwrite, ipos,
            [&](auto& t, Value& a) {
                return at_it(t, n, ipos, ipos, kind, how, [&](auto& it) {
                    return on(t, op.c >> 4, a, e, [&](auto& tree, auto&&... args) { return tree.assign(it, std::forward<decltype(args)>(args)...); });
                });
            },
            [&](Model& m) { m[pos] = e; });
    }
    // updaters see the current element and return the new one
    bool update_it(Client& c, Op const& op, Target g, size_t pos, Elem e, uint32_t kind, uint32_t how) {
        size_t n = g.m->size();
        auto ipos = static_cast<int64_t>(pos);
        Elem seen{-1, -1}, old = (*g.m)[pos];
        bool ok = modify(c, op, g, e, gOverwrite, ipos,
            [&](auto& t, Value&) {
                return at_it(t, n, ipos, ipos, kind, how, [&](auto& it) {
                    return t.update(it, [&](Value const& v) { seen = get(v); return C::make(e.k, e.v); });
                });
            },
            [&](Model& m) { m[pos] = e; });
        if (ok) same(seen, old, "updater", "element passed to the updater", "update", ipos);
        return ok;
    }

    void bulk(Client& c, Op const& op, Target g) {
        uint32_t total = 1 + op.b % 24, faulty = op.d % total;
        Rng r(op_seed(op, 11));
        for (uint32_t j = 0; j < total && g.m->size() < kCap; ++j) {
            Op o = op;
            if (j != faulty) { o.fail_alloc = 0; o.fail_elem = 0; o.flags &= static_cast<uint8_t>(~4); }
            uint32_t raw = static_cast<uint32_t>(r.next());
            size_t n = g.m->size();
            size_t pos = op.c % 4 == 0 ? n : op.c % 4 == 1 ? 0 : op.c % 4 == 2 ? raw % (n + 1) : (op.d >> 3) % (n + 1);
            Elem e;
            if (!elem_for(*g.m, pos, false, raw, e)) continue;
            if (pos == n && (raw & 64)) modify(c, o, g, e, gInsert, -1, [&](auto& t, Value& a) { return t.push_back(std::move(a)); }, [&](Model& m) { m.push_back(e); });
            else if (pos == 0 && (raw & 64)) modify(c, o, g, e, gInsert, -1, [&](auto& t, Value& a) { return t.push_front(std::move(a)); }, [&](Model& m) { m.insert(m.begin(), e); });
            else {
                if constexpr (ordered) { if (raw & 128) { modify(c, o, g, e, gInsert, -1, [&](auto& t, Value& a) { return t.insert_v(std::move(a)); }, [&](Model& m) { m.insert(m.begin() + static_cast<int64_t>(pos), e); }); continue; } }
                if constexpr (indexed) { if (raw & 256) { modify(c, o, g, e, gInsert, -1, [&](auto& t, Value& a) { return t.insert_index(static_cast<typename C::Index>(pos), std::move(a)); }, [&](Model& m) { m.insert(m.begin() + static_cast<int64_t>(pos), e); }); continue; } }
                insert_it(c, o, g, pos, e, 0, raw >> 9);
            }
        }
    }
    void drain(Client& c, Op const& op, Target g) {
        size_t n0 = g.m->size();
        uint32_t total = (op.b & 15) == 0 ? static_cast<uint32_t>(n0) : 1 + (op.b >> 4) % 40;
        uint32_t faulty = total ? op.d % total : 0;
        Rng r(op_seed(op, 12));
        for (uint32_t j = 0; j < total && !g.m->empty(); ++j) {
            Op o = op;
            if (j != faulty) { o.fail_alloc = 0; o.fail_elem = 0; o.flags &= static_cast<uint8_t>(~4); }
            size_t n = g.m->size();
            uint32_t style = op.c % 5;
            size_t pos = style == 0 ? n - 1 : style == 1 ? 0 : style == 2 ? (op.d >> 4) % n : style == 3 ? (2 * j + 1 < n ? static_cast<size_t>(j) + 1 : n - 1) : r.below(static_cast<uint32_t>(n));
            uint32_t how = r.below(8);
            if (pos >= n) pos = n - 1;
            if (pos == n - 1 && (how & 4)) modify(c, o, g, Elem{0, 0}, gErase, -1, [&](auto& t, Value&) { return pop(t, true, nullptr); }, [&](Model& m) { m.pop_back(); });
            else if (pos == 0 && (how & 4)) modify(c, o, g, Elem{0, 0}, gErase, -1, [&](auto& t, Value&) { return pop(t, false, nullptr); }, [&](Model& m) { m.erase(m.begin()); });
            else erase_it(c, o, g, pos, how, how >> 1);
        }
    }
    template <typename Tr> static auto pop(Tr& t, bool back, Elem* out) {
        if constexpr (transient<Tr>) {
            Value v = back ? t.pop_back() : t.pop_front();
            if (out) *out = get(v);
        } else { if (back) return t.pop_back(); return t.pop_front(); }
    }
    // overwrites every element once; returns the allocations that took
    int64_t sweep(T& t, Model& m, uint32_t style, Rng& r) {
        std::vector<size_t> order(m.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = style % 3 == 1 ? order.size() - 1 - i : i;
        if (style % 3 == 2) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(static_cast<uint32_t>(i))]);
        int64_t total = 0;
        for (size_t i : order) {
            Elem e = m[i];
            if (C::has_val) e.v = a_val(r.below(1000));
            Value v = C::make(e.k, e.v);
            reset_op_allocs();
            must(call([&] { TI it = make_it<TI>(t, m.size(), static_cast<int64_t>(i), style); t.assign(it, std::move(v)); }));
            total += op_allocs();
            m[i] = e;
        }
        return total;
    }
    void op_sweep(Client& c, Op const& op) {
        int s = pick_t(c, op.a);
        if (s < 0 || c.t[s].m.size() > 160) return;
        TSlot& ts = c.t[s];
        Rng r(op_seed(op, 13));
        auto snapshot = [&] { must(call([&] { P p = std::as_const(*ts.o).persistent(); })); unown(ts); };
        snapshot();
        int64_t a1 = sweep(*ts.o, ts.m, op.b, r);
        int64_t a2 = sweep(*ts.o, ts.m, op.c, r);
        snapshot();
        int64_t a3 = sweep(*ts.o, ts.m, op.d, r);
        if (oracle_mask & kAllocBound) {
            if (a2) violation("allocations", "overwriting every element of a tree that owns all of its nodes allocated %lld nodes", static_cast<long long>(a2));
            if (a1 != a3) violation("allocations", "overwriting every element after a snapshot allocated %lld nodes, the second time %lld", static_cast<long long>(a1), static_cast<long long>(a3));
            if (a1 > static_cast<int64_t>(ts.m.size() * 16)) violation("allocations", "overwriting every element allocated %lld nodes", static_cast<long long>(a1));
        }
        ts.owned = !ts.m.empty();
        audit_slot(ts, op, "tree after overwriting every element");
    }

    // The number of nodes a modification makes. The nodes of a tree are counted by overwriting every element of a copy.
    int64_t nodes_of(P const& p, Model const& m, Rng& r) {
        if (m.empty()) return 1;
        T* t = static_cast<T*>(tracked_alloc(sizeof(T)));
        Model mm = m;
        must(call([&] { new (t) T(p.transient()); }));
        int64_t made = sweep(*t, mm, static_cast<uint32_t>(r.next() >> 8), r);
        int64_t nodes = 0;
        must(call([&] { reset_op_allocs(); t->~T(); nodes = op_frees(); }));
        tracked_free(t);
        // overwriting all elements copies every node once, in whatever order
        if ((F & fAllocFaults) && (oracle_mask & kAllocBound) && made != nodes) violation("allocations", "overwriting every element of a shared tree of %lld nodes allocated %lld nodes", static_cast<long long>(nodes), static_cast<long long>(made));
        return made;
    }
    // The number of steps a single operation takes. Two trees made in the same way, one with many times the elements of the
    // other; what is logarithmic grows by the ratio of their depths, what is linear by the ratio of their sizes.
    P* lad[2] = {nullptr, nullptr};
    Model ladm[2];
    static constexpr size_t kLad0 = C::ladder0, kLad1 = C::ladder;
    static constexpr bool laddered = (F & fShallow) == 0 && static_cast<uint64_t>(std::numeric_limits<typename C::Index>::max()) > 2 * kLad1;
    void build_ladder() {
        if constexpr (laddered) {
            Rng r(par.seed ^ 0x1ADDE6);
            uint32_t style = r.below(5);
            bool sparse = r.chance(1, 3);
            for (int s = 0; s < 2; ++s) {
                size_t want = s ? kLad1 : kLad0, n = sparse ? want * 2 : want;
                Model& m = ladm[s];
                T* t = static_cast<T*>(tracked_alloc(sizeof(T)));
                must(call([&] { new (t) T(); }));
                Mode md(1);
                // without an index, positions inside are reached by moving one iterator
                std::unique_ptr<TI> at;
                size_t at_pos = 0;
                auto move_to = [&](size_t pos) -> TI& {
                    if (!at) { sim_mode_guard g(0); at.reset(new TI(t->begin())); }
                    for (; at_pos < pos; ++at_pos) ++*at;
                    for (; at_pos > pos; --at_pos) --*at;
                    return *at;
                };
                for (size_t i = 0; i < n; ++i) {
                    size_t k = m.size();
                    if constexpr ((F & fSafety) == 0) if (t->depth() == t->max_depth()) break;     // nothing guards the depth limit
                    // 0 at the end, 1 at the front, 2 anywhere, 3 in the middle, 4 both ends
                    size_t pos = style == 0 ? k : style == 1 ? 0 : style == 2 && !indexed && !ordered ? std::min<size_t>(k, at_pos + r.below(9) - std::min<size_t>(at_pos, 3)) : style == 2 ? r.below(static_cast<uint32_t>(k) + 1) : style == 3 ? k / 2 : (i & 1) ? k : 0;
                    Elem e = fresh(static_cast<uint32_t>(r.next()) * 2654435761u);
                    if constexpr (ordered) {
                        // equidistant keys, whatever the order they come in
                        int64_t key;
                        if (style == 2) { bool ok = false; for (int j = 0; j < 20 && !ok; ++j) { key = 40 + 16 * static_cast<int64_t>(r.below(static_cast<uint32_t>(n) * 2)); ok = !present(m, lower(m, key), key); } if (!ok) continue; }
                        else {
                            auto d = static_cast<int64_t>(i), h = static_cast<int64_t>(n);
                            int64_t rank = style == 0 ? d : style == 1 ? 2 * h - d : style == 3 ? ((i & 1) ? 2 * h - d / 2 : d / 2) : ((i & 1) ? h + 1 + d / 2 : h - d / 2);
                            if (C::desc) rank = 2 * h - rank;
                            key = 40 + 16 * rank;
                        }
                        if (key > C::kmax || key < C::kmin) continue;
                        e.k = key;
                        pos = lower(m, key);
                    }
                    auto ipos = static_cast<int64_t>(pos);
                    sim_mode_guard g(0);
                    Value v = C::make(e.k, e.v);
                    g.restore();
                    try {
                    if (pos == k && !at) t->push_back(std::move(v));
                    else if constexpr (ordered) t->insert_v(std::move(v));
                    else if constexpr (indexed) t->insert_index(static_cast<typename C::Index>(pos), std::move(v));
                    else if (pos == 0 && !at) t->push_front(std::move(v));
                    else t->insert(move_to(pos), std::move(v));
                    } catch (std::logic_error const&) { break; }       // the depth limit
                    m.insert(m.begin() + ipos, e);
                }
                if (ordered && !indexed) at.reset(), at_pos = 0;
                size_t i_erase = 0;
                while (sparse && m.size() > want) {
                    size_t k = m.size(), pos = style == 2 && !indexed ? (i_erase += 2) % k : style == 2 ? r.below(static_cast<uint32_t>(k)) : style == 3 ? k / 2 : style == 1 ? 0 : k - 1;
                    if constexpr (indexed) t->erase_index(static_cast<typename C::Index>(pos));
                    else t->erase(move_to(pos));
                    m.erase(m.begin() + static_cast<int64_t>(pos));
                }
                lad[s] = static_cast<P*>(tracked_alloc(sizeof(P)));
                new (lad[s]) P(std::as_const(*t).persistent());
                t->~T();
                tracked_free(t);
            }
            audit(std::as_const(*lad[1]), ladm[1], 0, par.seed, 8, "large tree");
        }
    }
    void drop_ladder() {
        for (auto& p : lad) if (p) { must(call([&] { p->~P(); })); tracked_free(p); p = nullptr; }
    }
    void op_steps_(Client&, Op const& op) {
        if constexpr (laddered) {
            if (!lad[0] || ladm[0].size() < 8 || ladm[1].size() < ladm[0].size() * 8) return;
            static constexpr int kKinds = 26;
            static const char* const names[kKinds] = {"reading the size, the depth and the ends", "access by index", "the index of an iterator", "lookup by key", "a bound by key",
                "a prefix sum", "a bound by prefix sum", "the minimum or maximum", "the minimum or maximum of a range", "a step of an iterator", "a jump of an iterator",
                "insertion", "erasure", "assignment", "update", "an operation by key", "an operation by index", "an operation at an end", "a snapshot after a modification",
                "a functional insertion", "a functional erasure", "copying and converting", "a failing insertion", "an iterator after a modification", "a complete traversal, per element", "clearing a shared tree"};
            int64_t worst[2][kKinds] = {}, depth[2] = {};
            for (int s = 0; s < 2; ++s) {
                Rng r(op_seed(op, 0x57E9));
                Model m = ladm[s];
                P const& p = *lad[s];
                auto* t = static_cast<T*>(tracked_alloc(sizeof(T)));
                auto* q = static_cast<P*>(tracked_alloc(sizeof(P)));
                auto took = [&](int kind, auto&& fn, int expect = oOk) {
                    int64_t s0 = op_steps();
                    int o = call(fn);
                    int64_t d = op_steps() - s0;
                    if (expect == oOk) must(o);
                    if (d > worst[s][kind]) worst[s][kind] = d;
                    return o;
                };
                took(21, [&] { new (t) T(p.transient()); });
                { Mode md(1); depth[s] = static_cast<int64_t>(p.depth()); }
                // either every modification meets nodes that are all shared, or nodes that are all its own
                bool own = (op.d & 0x40) != 0;
                P* before = nullptr;
                auto unshare = [&] { if (before) { Mode md(1); before->~P(); tracked_free(before); before = nullptr; } };
                auto share = [&] { if (own) return; P* b = static_cast<P*>(tracked_alloc(sizeof(P))); { Mode md(1); new (b) P(std::as_const(*t).persistent()); } unshare(); before = b; };
                auto some = [&](uint32_t j, size_t n) -> size_t { return j == 0 ? 0 : j == 1 ? n - 1 : r.below(static_cast<uint32_t>(n)); };
                auto iter = [&](auto& tree, size_t pos) { Mode md(1); using Tr = std::remove_reference_t<decltype(tree)>; using It = fwd_it<Tr>; if constexpr (indexed) return make_it<It>(tree, m.size(), static_cast<int64_t>(pos), 2); else return make_it<It>(tree, m.size(), static_cast<int64_t>(pos), pos > m.size() / 2 ? 1 : 0); };
                auto what = [&](Elem const& got, Elem const& want, const char* w, size_t at) { same(got, want, "contents", w, "large tree", static_cast<int64_t>(at)); };
                // reads, of the persistent tree and of a transient one
                auto reads_of = [&](auto& tree) {
                    for (uint32_t j = 0; j < (s ? 6u : 30u); ++j) {
                        size_t n = m.size(), i = some(j % 6, n), k = some((j + 1) % 6, n);
                        if (k < i) std::swap(i, k);
                        bool ok = true;
                        took(0, [&] { ok = tree.size() == n && !tree.empty() && get(tree.front()) == m.front() && get(tree.back()) == m.back() && tree.depth() > 0 && get(*tree.cbegin()) == m[0] && get(*tree.crbegin()) == m[n - 1]; auto e = tree.cend(); auto re = tree.crend(); (void)e; (void)re; });
                        if (!ok) wrong("contents", "size or ends", "large tree", 0, 0, 1);
                        auto it = iter(tree, i);
                        auto kt = iter(tree, k);
                        if constexpr (indexed) {
                            Elem x{}, y{};
                            took(1, [&] { x = get(tree.at_index(static_cast<typename C::Index>(i))); auto f = tree.find_index(static_cast<typename C::Index>(i)); y = get(*f); });
                            what(x, m[i], "at_index", i); what(y, m[i], "find_index", i);
                            int64_t o = 0, d = 0;
                            took(2, [&] { o = static_cast<int64_t>(tree.order(it)); d = kt - it; });
                            same(o, static_cast<int64_t>(i), "contents", "order", "large tree", static_cast<int64_t>(i));
                            same(d, static_cast<int64_t>(k - i), "contents", "difference", "large tree", static_cast<int64_t>(i));
                            took(10, [&] { auto f = it; f += static_cast<int64_t>(k - i); x = get(*f); f -= static_cast<int64_t>(k - i); y = get(*f); });
                            what(x, m[k], "jump", k); what(y, m[i], "jump back", i);
                        }
                        if constexpr (ordered) {
                            auto key = C::key(m[i].k), none = C::key(C::clamp_key(m[k].k + 1));
                            Elem x{}; bool other = false;
                            took(3, [&] { auto f = tree.find(key); x = get(*f); ok = tree.contains(key); other = tree.contains(none); });
                            what(x, m[i], "find", i);
                            int64_t nk = C::clamp_key(m[k].k + 1);
                            if (!ok || other != present(m, lower(m, nk), nk)) wrong("contents", "contains", "large tree", static_cast<int64_t>(i), ok * 2 + other, 2 + present(m, lower(m, nk), nk));
                            took(4, [&] { auto f = tree.lower_bound(key); x = get(*f); auto u = tree.upper_bound(none); (void)u; });
                            what(x, m[i], "lower_bound", i);
                        }
                        if constexpr (summed) {
                            took(5, [&] { auto x = tree.sum(); auto y = tree.sum_inclusive(it); auto z = tree.sum_exclusive(kt); (void)x; (void)y; (void)z; });
                            if constexpr (C::nonneg) { Elem x{}; auto total = static_cast<typename C::Sum>(1 + (fold(m, n) - 1) / static_cast<int64_t>(j + 1)); took(6, [&] { auto f = tree.sum_lower_bound(total); if (!(f == tree.cend())) x = get(*f); }); }
                        }
                        if constexpr (has_min) {
                            took(7, [&] { auto const& x = tree.min(); (void)x; auto f = tree.min_element(); (void)f; });
                            if (k > i) took(8, [&] { auto f = tree.min_element(it, kt); (void)f; auto const& x = tree.min(it, kt); (void)x; });
                        }
                        if constexpr (has_max) {
                            took(7, [&] { auto const& x = tree.max(); (void)x; auto f = tree.max_element(); (void)f; });
                            if (k > i) took(8, [&] { auto f = tree.max_element(it, kt); (void)f; auto const& x = tree.max(it, kt); (void)x; });
                        }
                        took(9, [&] { ++it; --it; --kt; ++kt; ok = it.valid() && get(it.get()) == m[i]; });
                        if (!ok) wrong("contents", "stepping", "large tree", static_cast<int64_t>(i), 0, 1);
                    }
                };
                reads_of(p);
                {
                    int64_t s0 = op_steps(); size_t seen = 0;
                    must(call([&] { auto e = p.cend(); for (auto it = p.cbegin(); it != e; ++it) seen += get(*it) == m[seen]; }));
                    if (seen != m.size()) wrong("contents", "traversal", "large tree", 0, static_cast<int64_t>(seen), static_cast<int64_t>(m.size()));
                    worst[s][24] = (op_steps() - s0) / static_cast<int64_t>(m.size());
                }
                // modifications
                bool limit = false;
                if (own) {
                    Mode md(1);
                    TI w = t->begin();
                    for (size_t k = 0; k < m.size(); ++k, ++w) { Elem x = m[k]; sim_mode_guard g(0); Value v = C::make(x.k, x.v); g.restore(); t->assign(w, std::move(v)); }
                }
                for (uint32_t j = 0; j < (s ? 14u : 70u) && !limit; ++j) {       // more often in the small tree: the worst case counts
                    size_t n = m.size(), i = some(j % 7, n);
                    Elem e;
                    TI held = iter(*t, some((j + 3) % 7, n));
                    bool check_held = false;
                    size_t held_at = 0;
                    auto ip = static_cast<int64_t>(i);
                    uint32_t pick = r.below(4);
                    auto value = [&](Elem const& x) { return C::make(x.k, x.v); };
                    auto grow = [&](int kind, size_t at, auto&& fn) {
                        share();
                        int o = took(kind, fn, oLogic);
                        if (o == oLogic && full(std::as_const(*t))) { limit = true; return; }
                        must(o);
                        m.insert(m.begin() + static_cast<int64_t>(at), e);
                    };
                    if (elem_for(m, i, false, static_cast<uint32_t>(r.next()), e)) {
                        Value v = value(e);
                        if (pick == 0) { if constexpr (indexed) grow(16, i, [&] { t->insert_index(static_cast<typename C::Index>(i), std::move(v)); }); }
                        else if (pick == 1) { if constexpr (ordered) grow(15, i, [&] { t->insert_v(std::move(v)); }); }
                        else { TI it = iter(*t, i); grow(11, i, [&] { t->insert(it, std::move(v)); }); if (!limit) { sim_mode_guard g(1); what(get(*it), e, "iterator after an insertion", i); } }
                    }
                    if (limit) break;
                    n = m.size(); i = some((j + 2) % 7, n); ip = static_cast<int64_t>(i);
                    if (elem_for(m, i, true, static_cast<uint32_t>(r.next()), e)) {
                        TI it = iter(*t, i);
                        held = iter(*t, held_at = some((j + 4) % 7, n));
                        check_held = true;
                        Value v = value(e);
                        share();
                        if (pick == 0) { if constexpr (indexed) took(16, [&] { t->assign_index(static_cast<typename C::Index>(i), std::move(v)); m[i] = e; }); }
                        else if (pick == 1) { if constexpr (ordered) if (m[i].k == e.k) took(15, [&] { t->insert_or_assign(std::move(v)); m[i] = e; }); }
                        else if (pick == 2) { took(13, [&] { t->assign(it, std::move(v)); }); m[i] = e; }
                        else { took(14, [&] { t->update(it, [&](Value const&) { return std::move(v); }); }); m[i] = e; }
                    }
                    if (check_held) { Elem x{}; took(23, [&] { x = get(held.get()); }); what(x, m[held_at], "iterator after an overwrite", held_at); }
                    i = some((j + 5) % 7, n); ip = static_cast<int64_t>(i);
                    share();
                    if (pick == 0) { if constexpr (indexed) { took(16, [&] { t->erase_index(static_cast<typename C::Index>(i)); }); m.erase(m.begin() + ip); } }
                    else if (pick == 1) { if constexpr (ordered) { auto key = C::key(m[i].k); took(15, [&] { t->erase_key(key); }); m.erase(m.begin() + ip); } }
                    else { TI it = iter(*t, i); took(12, [&] { t->erase(it); }); m.erase(m.begin() + ip); }
                    if (j % 3 == 0) { Elem a{}, b{}; Elem wa = m.back(), wb = m.front();
                        share(); took(17, [&] { a = get(t->pop_back()); }); share(); took(17, [&] { b = get(t->pop_front()); });
                        what(a, wa, "pop_back", m.size() - 1); what(b, wb, "pop_front", 0);
                        m.erase(m.begin()); m.pop_back();
                        Value va = value(a), vb = value(b);
                        e = a; grow(17, m.size(), [&] { t->push_back(std::move(va)); }); e = b; if (!limit) grow(17, 0, [&] { t->push_front(std::move(vb)); }); }
                    if (j % 4 == 1 && !limit && !own) {
                        took(18, [&] { new (q) P(std::as_const(*t).persistent()); });
                        took(21, [&] { P c2(std::as_const(*q)); T c3(std::as_const(c2).transient()); P c4(std::move(c3).persistent()); c2 = std::as_const(c4); });
                        if (elem_for(m, i % m.size(), false, static_cast<uint32_t>(r.next()), e)) { Value v = value(e); auto it = iter(std::as_const(*q), i % m.size()); int o = took(19, [&] { P f(std::as_const(*q).insert(it, std::move(v))); }, oLogic); if (o != oLogic) must(o); }
                        { auto it = iter(std::as_const(*q), i % m.size()); took(20, [&] { P f(std::as_const(*q).erase(it)); }); }
                        if constexpr ((F & fAllocFaults) != 0) {
                            for (uint32_t k = 1; k < 12; ++k) {
                                if (!elem_for(m, i % m.size(), false, static_cast<uint32_t>(r.next()), e)) break;
                                Value v = value(e); auto it = iter(*t, i % m.size());
                                arm_alloc(k);
                                int o = took(22, [&] { t->insert(it, std::move(v)); }, oAlloc);
                                bool fired = fault_alloc_fired();
                                arm_alloc(0);
                                if (o == oAlloc && fired) { count(kOpsFailed); continue; }
                                if (o == oLogic && full(std::as_const(*t))) { limit = true; break; }
                                must(o);
                                m.insert(m.begin() + static_cast<int64_t>(i % m.size()), e);
                                break;
                            }
                        }
                        took(18, [&] { q->~P(); });
                    }
                }
                reads_of(std::as_const(*t));
                audit(std::as_const(*t), m, 0, op_seed(op, 5), 8, "large tree after modifications");
                took(21, [&] { new (q) P(std::as_const(p)); T u(std::as_const(p).transient()); u.clear(); q->~P(); });
                unshare();
                must(call([&] { t->~T(); }));
                { Mode md(1); new (t) T(p.transient()); for (size_t k = 0; k < 2; ++k) t->erase(k ? t->begin() : --t->end()); }
                took(25, [&] { t->clear(); });
                must(call([&] { t->~T(); }));
                tracked_free(t); tracked_free(q);
            }
            if (getenv("SIM_STEPS")) for (int k = 0; k < kKinds; ++k) fprintf(stderr, "STEPS %d %lld %lld %lld %lld %zu %zu\n", k, (long long)worst[0][k], (long long)worst[1][k], (long long)depth[0], (long long)depth[1], ladm[0].size(), ladm[1].size());
            if (int64_t most = depth[0] + static_cast<int64_t>(std::log2(static_cast<double>(ladm[1].size()) / static_cast<double>(ladm[0].size()))) + 2; depth[1] > most)
                violation("steps", "operation %u %s: a tree of %zu elements has depth %lld and one of %zu, made in the same way, %lld", op.uid, kOpName[op.kind], ladm[0].size(),
                          static_cast<long long>(depth[0]), ladm[1].size(), static_cast<long long>(depth[1]));
            for (int k = 0; k < kKinds; ++k) {
                // two and a half times what the depth explains, and something for what the small tree did not meet
                int64_t limit = worst[0][k] * 5 / 2 * std::max(depth[1], depth[0]) / depth[0] + 800;
                if (worst[1][k] > limit)
                    violation("steps", "operation %u %s: %s took %lld steps in a tree of %zu elements and %lld in one of %zu, at most %lld expected", op.uid, kOpName[op.kind], names[k],
                              static_cast<long long>(worst[0][k]), ladm[0].size(), static_cast<long long>(worst[1][k]), ladm[1].size(), static_cast<long long>(limit));
            }
            tr(static_cast<uint64_t>(depth[1]));
        } else (void)op;
    }
    // more copies of one tree than narrow counters can count
    void hoard(Client& c, Op const& op) {
        int s = pick_p(c, op.a);
        if (s < 0) return;
        size_t n = (op.b & 7) == 0 ? 65536 + op.c % 400 : 256 + op.c % 400;
        P* held = static_cast<P*>(::operator new(n * sizeof(P), std::align_val_t(alignof(P))));
        P const& src = *c.p[s].o;
        Model const& m = c.p[s].m;
        T* t = nullptr;
        try {
            Mode md(1);
            for (size_t i = 0; i < n; ++i) { if (i && (op.d & 1)) new (held + i) P(std::as_const(held[i / 2])); else new (held + i) P(src); }
            t = static_cast<T*>(tracked_alloc(sizeof(T)));
            new (t) T(std::as_const(held[n / 3]).transient());
            if (!m.empty()) { sim_mode_guard g(0); Value v = C::make(m[0].k, m[0].v); g.restore(); TI it = t->begin(); t->assign(it, std::move(v)); }
        } catch (std::exception const& e) { sim_mode = 0; violation("unexpected-exception", "copying a persistent tree threw %s (operation %u)", e.what(), op.uid); }
        if (t) { audit(std::as_const(*t), m, 0, op_seed(op, 62), 8, "tree derived from one of many copies"); { Mode md(1); t->~T(); } tracked_free(t); }
        audit(std::as_const(held[op.d % n]), m, oracle_mask & kAllReads, op_seed(op, 63), 8, "one of many copies");
        size_t keep = op.d % n;
        { Mode md(1); for (size_t i = 0; i < n; ++i) { size_t j = (op.d & 2) ? n - 1 - i : i; if (j != keep) held[j].~P(); } }
        audit(std::as_const(held[keep]), m, oracle_mask & kAllReads, op_seed(op, 64), 8, "the last of many copies");
        audit(src, m, oracle_mask & kAllReads, op_seed(op, 65), 8, "tree that was copied many times");
        { Mode md(1); held[keep].~P(); }
        audit(src, m, 0, op_seed(op, 66), 8, "tree that was copied many times");
        ::operator delete(held, std::align_val_t(alignof(P)));
    }
    // iterators held across so many modifications that a narrow counter of them returns to where it was
    void churn(Client& c, Op const& op) {
        int s = pick_t(c, op.a);
        if (s < 0 || c.t[s].m.empty()) return;
        T& t = *c.t[s].o;
        Model& m = c.t[s].m;
        size_t n = m.size();
        Rng r(op_seed(op, 67));
        uint32_t total = (op.b & 15) == 0 ? 65536 : 256 * (1 + (op.b >> 4) % 3);
        size_t pos[4];
        for (auto& x : pos) x = r.below(static_cast<uint32_t>(n));
        P* shared = nullptr;
        Model snap = m;
        std::optional<TI> a; std::optional<TC> b; std::optional<TR> d; std::optional<TD> e;
        try {
            Mode md(1);
            if (op.d & 1) { shared = static_cast<P*>(tracked_alloc(sizeof(P))); new (shared) P(std::as_const(t).persistent()); }
            a.emplace(make_it<TI>(t, n, static_cast<int64_t>(pos[0]), op.c)); b.emplace(make_it<TC>(t, n, static_cast<int64_t>(pos[1]), op.c >> 2));
            d.emplace(make_it<TR>(t, n, static_cast<int64_t>(pos[2]), op.c >> 4)); e.emplace(make_it<TD>(t, n, static_cast<int64_t>(pos[3]), op.c >> 6));
            for (uint32_t i = 0; i < total; ++i) {
                size_t p = r.chance(1, 2) ? pos[r.below(4)] : r.below(static_cast<uint32_t>(n));
                sim_mode_guard g(0);
                Elem x = m[p];
                if (C::has_val) x.v = a_val(static_cast<uint32_t>(r.next()));
                Value v = C::make(x.k, x.v);
                m[p] = x;
                g.restore();
                if constexpr (indexed) { if (i & 1) { t.assign_index(static_cast<typename C::Index>(p), std::move(v)); continue; } }
                TI it = make_it<TI>(t, n, static_cast<int64_t>(p), i >> 1);
                t.assign(it, std::move(v));
            }
            same(get(a->get()), m[pos[0]], "iterator", "element", "iterator held across many modifications", static_cast<int64_t>(pos[0]));
            same(get(b->get()), m[pos[1]], "iterator", "element", "iterator held across many modifications", static_cast<int64_t>(pos[1]));
            same(get(d->get()), m[pos[2]], "iterator", "element", "iterator held across many modifications", static_cast<int64_t>(pos[2]));
            same(get(e->get()), m[pos[3]], "iterator", "element", "iterator held across many modifications", static_cast<int64_t>(pos[3]));
        } catch (std::exception const& x) { sim_mode = 0; violation("unexpected-exception", "assigning elements threw %s (operation %u)", x.what(), op.uid); }
        unown(c.t[s]);
        check_it(t, m, *a, static_cast<int64_t>(pos[0]), op_seed(op, 68), "iterator held across many modifications");
        check_it(t, m, *d, static_cast<int64_t>(pos[2]), op_seed(op, 69), "iterator held across many modifications");
        audit(std::as_const(t), m, oracle_mask & kAllReads, op_seed(op, 70), 8, "tree modified many times");
        if (shared) { audit(std::as_const(*shared), snap, oracle_mask & kAllReads, op_seed(op, 71), 8, "snapshot of a tree modified many times"); { Mode md(1); shared->~P(); } tracked_free(shared); }
    }
    // a private tree of more elements than 16 bits count
    void large(Client&, Op const& op) {
        if constexpr ((F & fHuge) != 0) {
            Rng r(op_seed(op, 72));
            size_t want = 65536 + 100 + r.below(4000);
            uint32_t style = op.b % 3;
            T* t = static_cast<T*>(tracked_alloc(sizeof(T)));
            P* p = nullptr;
            Model m, pm;
            m.reserve(want + 10);
            std::deque<Elem> ends;
            bool stop = false;
            uint32_t samples = 40;
            auto elem = [&](int64_t rank) { Elem e = fresh(static_cast<uint32_t>(r.next())); if (C::has_key) e.k = 16 * rank; return e; };
            try {
                { Mode md(1); new (t) T(); }
                int64_t lo = 0, hi = 0;
                auto add = [&](bool back) {
                    Elem e = elem(back ? hi : lo - 1);
                    sim_mode_guard g(0);
                    Value v = C::make(e.k, e.v);
                    g.restore();
                    Mode md(1);
                    try {
                        if constexpr (ordered) { if (op.b & 16) { t->insert_v(std::move(v)); goto done; } }
                        if (back) t->push_back(std::move(v)); else t->push_front(std::move(v));
                    } catch (std::logic_error const&) { stop = true; return; }
                done:
                    if (back) { ends.push_back(e); ++hi; } else { ends.push_front(e); --lo; }
                };
                for (size_t i = 0; i < want && !stop; ++i) add(style == 0 || (style == 2 && (i & 1)));
                m.assign(ends.begin(), ends.end());
                audit(std::as_const(*t), m, oracle_mask & kAllReads, op_seed(op, 73), samples, "very large tree");
                if (op.b & 32) { p = static_cast<P*>(tracked_alloc(sizeof(P))); Mode md(1); new (p) P(std::as_const(*t).persistent()); pm = m; }
                // changes around the 65536th element and anywhere
                for (uint32_t i = 0; i < 150 && !stop; ++i) {
                    size_t n = m.size(), pos = i % 3 == 0 ? std::min<size_t>(n - 1, 65530 + r.below(12)) : r.below(static_cast<uint32_t>(n));
                    uint32_t what = r.below(3);
                    Elem e{};
                    if (what < 2 && !elem_for(m, pos, what == 1, static_cast<uint32_t>(r.next()), e)) continue;
                    sim_mode_guard g(0);
                    Value v = C::make(e.k, e.v);
                    g.restore();
                    Mode md(1);
                    try {
                        TI it = make_it<TI>(*t, n, static_cast<int64_t>(pos), r.below(4));
                        if (what == 0) {
                            if constexpr (indexed) { if (i & 1) { t->insert_index(static_cast<typename C::Index>(pos), std::move(v)); goto inserted; } }
                            t->insert(it, std::move(v));
                        inserted:;
                        } else if (what == 1) t->assign(it, std::move(v));
                        else if constexpr (indexed) t->erase_index(static_cast<typename C::Index>(pos));
                        else t->erase(it);
                    } catch (std::logic_error const&) { stop = true; break; }
                    sim_mode_guard g2(0);
                    if (what == 0) m.insert(m.begin() + static_cast<int64_t>(pos), e); else if (what == 1) m[pos] = e; else m.erase(m.begin() + static_cast<int64_t>(pos));
                }
                audit(*t, m, oracle_mask & kAllReads, op_seed(op, 74), samples, "very large tree after modifications");
                if (p) { audit(std::as_const(*p), pm, oracle_mask & kAllReads, op_seed(op, 75), samples, "snapshot of a very large tree"); { Mode md(1); p->~P(); } tracked_free(p); }
                size_t down = m.size() > 65536 ? m.size() - 65536 + r.below(200) : 10;
                size_t first = 0;
                for (; down && first < m.size(); --down) {
                    bool back = op.b & 64;
                    Elem w = back ? m.back() : m[first];
                    std::optional<Value> v;
                    { Mode md(1); if (back) v.emplace(t->pop_back()); else v.emplace(t->pop_front()); }
                    same(get(*v), w, "contents", "popped element", "very large tree", static_cast<int64_t>(first));
                    { Mode md(1); v.reset(); }
                    if (back) m.pop_back(); else ++first;
                }
                m.erase(m.begin(), m.begin() + static_cast<int64_t>(first));
                audit(*t, m, oracle_mask & kAllReads, op_seed(op, 76), samples, "very large tree after removals");
            } catch (std::exception const& x) { sim_mode = 0; violation("unexpected-exception", "working on a very large tree threw %s (operation %u)", x.what(), op.uid); }
            { Mode md(1); t->~T(); }
            tracked_free(t);
        }
    }
    void op_cost(Client& c, Op const& op) {
        if ((F & fAllocFaults) == 0 || !(oracle_mask & kAllocBound)) return;
        Target g = target(c, op);
        if (g.slot < 0 || g.m->size() > 160) return;
        Rng r(op_seed(op, 14));
        Model m = *g.m;
        auto cost_violation = [&](const char* what, int64_t got, int64_t want) { violation("allocations", "operation %u %s: %s allocated %lld nodes, at most %lld expected", op.uid, kOpName[op.kind], what, static_cast<long long>(got), static_cast<long long>(want)); };
        T* t = static_cast<T*>(tracked_alloc(sizeof(T)));
        auto* hold = static_cast<P*>(tracked_alloc(sizeof(P)));
        if (g.per) must(call([&] { new (hold) P(std::as_const(*c.p[g.slot].o)); }));
        else { must(call([&] { new (hold) P(std::as_const(*c.t[g.slot].o).persistent()); })); unown(c.t[g.slot]); }
        must(call([&] { new (t) T(std::as_const(*hold).transient()); }));
        auto resnap = [&] { must(call([&] { *hold = std::as_const(*t).persistent(); })); };
        auto depth = [&] { Mode md(1); return static_cast<int64_t>(std::as_const(*t).depth()); };
        bool limit = false;
        // count modifications of one kind; what they allocate
        auto series = [&](uint32_t style, uint32_t count_, bool& one_path) -> int64_t {
            int64_t total = 0;
            one_path = style % 3 == 0;                                // always at the end
            for (uint32_t j = 0; j < count_ && m.size() < kCap && !limit; ++j) {
                size_t n = m.size(), pos = style % 3 == 0 ? n : style % 3 == 1 ? std::min<size_t>(op.c % (n + 1), n) : r.below(static_cast<uint32_t>(n) + 1);
                Elem e;
                if (!elem_for(m, pos, false, static_cast<uint32_t>(r.next()), e)) continue;
                Value v = C::make(e.k, e.v);
                reset_op_allocs();
                int o = call([&] { if (pos == n && (style & 4)) t->push_back(std::move(v)); else { TI it = make_it<TI>(*t, n, static_cast<int64_t>(pos), style >> 3); t->insert(it, std::move(v)); } });
                if (o == oLogic && full(std::as_const(*t))) { limit = true; break; }
                must(o);
                total += op_allocs();
                m.insert(m.begin() + static_cast<int64_t>(pos), e);
            }
            return total;
        };
        bool path = false;
        int64_t n0 = nodes_of(*hold, m, r), d0 = depth();
        uint32_t k = op.b % 3 ? 1 : 2 + (op.b >> 2) % 40;
        int64_t a = series(op.d, k, path);
        resnap();
        int64_t n1 = nodes_of(*hold, m, r);
        if (!limit) {
            if ((k == 1 || path) && a > d0 + n1 - n0) cost_violation(k == 1 ? "an insertion into a shared tree" : "insertions at the end of a shared tree", a, d0 + n1 - n0);
            if (a > n1) cost_violation("insertions into a shared tree", a, n1);
        }
        // own every node, then insert more: only what is new is made
        if (!limit && !m.empty()) {
            sweep(*t, m, op.d >> 5, r);
            a = series(op.d >> 7, 1 + (op.b >> 8) % 30, path);
            resnap();
            int64_t n2 = nodes_of(*hold, m, r);
            if (!limit && a > n2 - n1) cost_violation("insertions into a tree that owns its nodes", a, n2 - n1);
            n1 = n2;
        }
        // functional forms, and erasure
        if (!m.empty()) {
            auto* q = static_cast<P*>(tracked_alloc(sizeof(P)));
            size_t n = m.size(), pos = r.below(static_cast<uint32_t>(n));
            int64_t d = depth();
            reset_op_allocs();
            must(call([&] { auto it = hold->cbegin(); it += static_cast<int64_t>(pos); new (q) P(std::as_const(*hold).erase(it)); }));
            a = op_allocs();
            if (a > d) cost_violation("an erasure from a persistent tree", a, d);
            Model qm = m; qm.erase(qm.begin() + static_cast<int64_t>(pos));
            int64_t nq = nodes_of(*q, qm, r);
            if (nq > n1) cost_violation("the tree left by an erasure", nq, n1);
            must(call([&] { q->~P(); }));
            Elem e; bool done = false;
            pos = r.below(static_cast<uint32_t>(n) + 1);
            if (elem_for(m, pos, false, static_cast<uint32_t>(r.next()), e)) {
                Value v = C::make(e.k, e.v);
                reset_op_allocs();
                int o = call([&] { auto it = hold->cbegin(); it += static_cast<int64_t>(pos); new (q) P(std::as_const(*hold).insert(it, std::move(v))); });
                if (!(o == oLogic && full(std::as_const(*t)))) {
                    must(o);
                    done = true;
                    a = op_allocs();
                    qm = m; qm.insert(qm.begin() + static_cast<int64_t>(pos), e);
                    nq = nodes_of(*q, qm, r);
                    if (a > d + nq - n1) cost_violation("an insertion into a persistent tree", a, d + nq - n1);
                    if (std::as_const(*q).size() != qm.size()) wrong("size", "size", "result of an insertion", -1, static_cast<int64_t>(q->size()), static_cast<int64_t>(qm.size()));
                }
            }
            if (done) must(call([&] { q->~P(); }));
            tracked_free(q);
        }
        must(call([&] { hold->~P(); }));
        tracked_free(hold);
        audit(std::as_const(*t), m, oracle_mask & kAllReads, op_seed(op, 15), 16, "tree whose cost was measured");
        must(call([&] { t->~T(); }));
        tracked_free(t);
    }

    void alias(Client& c, Op const& op, Target g) {
        Model const& m0 = *g.m;
        size_t n = m0.size();
        if (!n || n >= kCap) return;
        size_t j = op.b % n, i = op.c % n;
        auto sj = static_cast<int64_t>(j), si = static_cast<int64_t>(i);
        Elem ej = m0[j];
        count(kAliasArgs);
        auto ref = [&](auto& t) -> Value const& {
            auto const& ct = std::as_const(t);
            if (j == 0) return ct.front();
            if (j == n - 1) return ct.back();
            auto it = ct.cbegin(); it += sj;
            return it.get();
        };
        if constexpr (!ordered) {
            switch (op.d % 7) {
                case 0: modify(c, op, g, ej, gInsert, -1, [&](auto& t, Value&) { return t.push_back(ref(t)); }, [&](Model& m) { m.push_back(ej); }); return;
                case 1: modify(c, op, g, ej, gInsert, -1, [&](auto& t, Value&) { return t.push_front(ref(t)); }, [&](Model& m) { m.insert(m.begin(), ej); }); return;
                case 2: modify(c, op, g, ej, gInsert, -1, [&](auto& t, Value&) { auto it = t.cbegin(); it += si; return t.insert(it, ref(t)); }, [&](Model& m) { m.insert(m.begin() + si, ej); }); return;
                case 3: modify(c, op, g, ej, gOverwrite, si, [&](auto& t, Value&) { auto it = t.cbegin(); it += si; return t.assign(it, ref(t)); }, [&](Model& m) { m[i] = ej; }); return;
                case 4: modify(c, op, g, ej, gOverwrite, si, [&](auto& t, Value&) { auto it = t.cbegin(); it += si; return t.update(it, [&](Value const&) -> Value const& { return ref(t); }); }, [&](Model& m) { m[i] = ej; }); return;
                case 5: if constexpr (indexed) { modify(c, op, g, ej, gInsert, -1, [&](auto& t, Value&) { return t.insert_index(static_cast<typename C::Index>(i), ref(t)); }, [&](Model& m) { m.insert(m.begin() + si, ej); }); } return;
                default: if constexpr (indexed) { modify(c, op, g, ej, gOverwrite, si, [&](auto& t, Value&) { return t.assign_index(static_cast<typename C::Index>(i), ref(t)); }, [&](Model& m) { m[i] = ej; }); } return;
            }
        } else {
            switch (op.d % 6) {
                case 0: modify(c, op, g, ej, gOverwrite, sj, [&](auto& t, Value&) { return t.insert_or_assign(ref(t)); }, [&](Model&) {}); return;
                case 1: modify(c, op, g, ej, gOverwrite, sj, [&](auto& t, Value&) { return t.assign_v(ref(t)); }, [&](Model&) {}); return;
                case 2: modify(c, op, g, ej, gOverwrite, -1, [&](auto& t, Value&) { return t.insert_v(ref(t)); }, [&](Model&) {}); return;
                case 3: modify(c, op, g, ej, gErase, -1, [&](auto& t, Value&) { return t.erase_key(C::key_ref(ref(t))); }, [&](Model& m) { m.erase(m.begin() + sj); }); return;
                case 4: modify(c, op, g, ej, gOverwrite, sj, [&](auto& t, Value&) { return t.update_key(C::key_ref(ref(t)), [](auto const& v) { return v; }); }, [&](Model&) {}); return;
                default:
                    if constexpr (pair_args) {
                        Elem e = ej;
                        if (!absent_key(m0, op.c, e.k)) return;
                        typename C::Key key = C::key(e.k);
                        modify(c, op, g, e, gInsert, -1, [&](auto& t, Value&) { return C::both(key, C::mapped_ref(ref(t)), [&](auto const&... x) { return t.insert_or_assign(x...); }); }, [&](Model& m) { m.insert(m.begin() + static_cast<int64_t>(lower(m, e.k)), e); });
                    }
                    return;
            }
        }
    }

    // the effect on the model of overwriting (mapped) value of element i by the result of an operator
    static Elem with_mapped(Elem e, int64_t x) { if constexpr (C::has_val) e.v = x; else e.k = x; return e; }

    void key_ops(Client& c, Op const& op) {
        if constexpr (ordered) {
            Target g = target(c, op);
            if (g.slot < 0) return;
            Model const& m0 = *g.m;
            size_t n = m0.size();
            uint32_t form = op.c >> 4;
            switch (op.kind) {
                case kInsertV: {
                    Elem e = fresh(op.b);
                    e.k = some_key(m0, op.b, (op.c & 3) == 0);
                    size_t i = lower(m0, e.k);
                    bool in = present(m0, i, e.k);
                    if (!in && n >= kCap) return;
                    modify(c, op, g, e, in ? gOverwrite : gInsert, -1, [&](auto& t, Value& a) { return on(t, form, a, e, [](auto& tree, auto&&... x) { return tree.insert_v(std::forward<decltype(x)>(x)...); }); },
                           [&](Model& m) { if (!in) m.insert(m.begin() + static_cast<int64_t>(i), e); });
                    return;
                }
                case kInsertOrAssign: {
                    Elem e = fresh(op.b);
                    e.k = some_key(m0, op.b, op.c & 1);
                    size_t i = lower(m0, e.k);
                    bool in = present(m0, i, e.k);
                    if (!in && n >= kCap) return;
                    modify(c, op, g, e, in ? gOverwrite : gInsert, in ? static_cast<int64_t>(i) : -1, [&](auto& t, Value& a) { return on(t, form, a, e, [](auto& tree, auto&&... x) { return tree.insert_or_assign(std::forward<decltype(x)>(x)...); }); },
                           [&](Model& m) { if (in) m[i] = e; else m.insert(m.begin() + static_cast<int64_t>(i), e); });
                    return;
                }
                case kAssignV: {
                    if (!n) return;
                    Elem e = fresh(op.b);
                    size_t i = op.b % n; e.k = m0[i].k;
                    modify(c, op, g, e, gOverwrite, static_cast<int64_t>(i), [&](auto& t, Value& a) { return on(t, form, a, e, [](auto& tree, auto&&... x) { return tree.assign_v(std::forward<decltype(x)>(x)...); }); }, [&](Model& m) { m[i] = e; });
                    return;
                }
                case kEraseKey: {
                    if (!n) return;
                    size_t i = op.b % n;
                    typename C::Key key = C::key(m0[i].k);
                    modify(c, op, g, Elem{0, 0}, gErase, -1, [&](auto& t, Value&) { return t.erase_key(key); }, [&](Model& m) { m.erase(m.begin() + static_cast<int64_t>(i)); });
                    return;
                }
                case kUpdateKey: {
                    if (!n) return;
                    size_t i = op.b % n;
                    typename C::Key key = C::key(m0[i].k);
                    Elem e = m0[i];
                    if (C::has_val) e.v = a_val(op.c >> 3);
                    int64_t seen = 0, old = C::mapped(m0[i]);
                    if (modify(c, op, g, e, gOverwrite, static_cast<int64_t>(i), [&](auto& t, Value&) { return t.update_key(key, [&](auto const& v) { seen = C::mapped_of(v); return C::make_mapped(e); }); }, [&](Model& m) { m[i] = e; }))
                        same(seen, old, "updater", "value passed to the updater", "update_key", static_cast<int64_t>(i));
                    return;
                }
                case kXMissAssign: case kXMissErase: case kXMissUpdate: case kXMissAt: {
                    if constexpr (safety) {
                        int64_t k;
                        if (!absent_key(m0, op.b, k)) return;
                        typename C::Key key = C::key(k);
                        Elem e = fresh(op.c); e.k = k;
                        if (op.kind == kXMissAssign) reject(c, op, g, e, false, [&](auto& t, Value& a) { (void)t.assign_v(std::move(a)); });
                        else if (op.kind == kXMissErase) reject(c, op, g, e, false, [&](auto& t, Value&) { (void)t.erase_key(key); });
                        else if (op.kind == kXMissUpdate) reject(c, op, g, e, false, [&](auto& t, Value&) { (void)t.update_key(key, [](auto const& v) { return v; }); });
                        else reject(c, op, g, e, false, [&](auto& t, Value&) { (void)C::mapped_of(t.at_key(key)); });
                    }
                    return;
                }
                case kXUpdMismatch: {
                    if constexpr (safety && !C::has_val) {      // the updater's result contains the key
                        if (!n) return;
                        size_t i = op.b % n;
                        typename C::Key key = C::key(m0[i].k);
                        int64_t other = C::clamp_key(m0[i].k + 1 + static_cast<int64_t>(op.c % 3));
                        if (other == m0[i].k) return;
                        reject(c, op, g, m0[i], false, [&](auto& t, Value&) { (void)t.update_key(key, [&](auto const&) { return C::make_mapped(Elem{other, 0}); }); });
                    }
                    return;
                }
                default: return;
            }
        }
        (void)c; (void)op;
    }

    void index_ops(Client& c, Op const& op) {
        if constexpr (indexed) {
            Target g = target(c, op);
            if (g.slot < 0) return;
            Model const& m0 = *g.m;
            size_t n = m0.size();
            uint32_t form = op.c >> 4;
            if (op.kind == kInsIdx) {
                size_t i = (op.c & 3) ? op.b % (n + 1) : n;
                Elem e;
                if (n >= kCap || !elem_for(m0, i, false, op.d, e)) return;
                modify(c, op, g, e, gInsert, -1, [&](auto& t, Value& a) { return on(t, form, a, e, [&](auto& tree, auto&&... x) { return tree.insert_index(static_cast<typename C::Index>(i), std::forward<decltype(x)>(x)...); }); }, [&](Model& m) { m.insert(m.begin() + static_cast<int64_t>(i), e); });
                return;
            }
            if (!n) return;
            size_t i = op.b % n;
            auto x = static_cast<typename C::Index>(i);
            if (op.kind == kEraIdx) {
                modify(c, op, g, Elem{0, 0}, gErase, -1, [&](auto& t, Value&) { return t.erase_index(x); }, [&](Model& m) { m.erase(m.begin() + static_cast<int64_t>(i)); });
                return;
            }
            Elem e;
            if (!elem_for(m0, i, true, op.d, e)) return;
            if (op.kind == kAsgIdx) {
                modify(c, op, g, e, gOverwrite, static_cast<int64_t>(i), [&](auto& t, Value& a) { return on(t, form, a, e, [&](auto& tree, auto&&... y) { return tree.assign_index(x, std::forward<decltype(y)>(y)...); }); }, [&](Model& m) { m[i] = e; });
            } else {
                Elem seen{-1, -1}, old = m0[i];
                if (modify(c, op, g, e, gOverwrite, static_cast<int64_t>(i), [&](auto& t, Value&) { return t.update_index(x, [&](Value const& v) { seen = get(v); return C::make(e.k, e.v); }); }, [&](Model& m) { m[i] = e; }))
                    same(seen, old, "updater", "element passed to the updater", "update_index", static_cast<int64_t>(i));
            }
        }
        (void)c; (void)op;
    }

    // ------------------------------------------------------------------------------------------------------- proxies
    // what: 0 assign mapped value, 1 assign element, 2.. operator
    template <typename Fn> void proxy_on_element(Client& c, Op const& op, int slot, size_t i, Fn&& use) {
        Model const& m0 = c.t[slot].m;
        Target g; g.slot = slot; g.m = &m0;
        uint32_t opn = 0;
        if constexpr (numeric) {
            typename C::Num d{}; int64_t out = 0;
            if ((op.c & 3) >= 2 && choose_compound<typename C::Num>(C::mapped(m0[i]), op.c, opn, d, out)) {
                Elem e = with_mapped(m0[i], out);
                int64_t want = opn % 14 >= 12 ? C::mapped(m0[i]) : out;
                if (modify(c, op, g, e, gOverwrite, static_cast<int64_t>(i), [&](auto& t, Value& a) { px_yield() = want; return use(t, 2u, opn, d, a); }, [&](Model& m) { m[i] = e; }))
                    same(px_yield(), want, "proxy", "value of the expression", "operator through a proxy", static_cast<int64_t>(i));
                return;
            }
        }
        Elem e;
        if (!elem_for(m0, i, true, op.d, e)) return;
        if (op.kind == kPxKey || (op.kind == kPrWrite && C::subscript == 1)) e.k = m0[i].k;
        modify(c, op, g, e, gOverwrite, static_cast<int64_t>(i), [&](auto& t, Value& a) { return use(t, op.c & 1, opn, typename C::Num{}, a); }, [&](Model& m) { m[i] = e; });
    }
    template <typename Ref> static void use_key_ref(Ref&& r, uint32_t what, uint32_t opn, typename C::Num d, Value& a) {
        if constexpr (numeric && C::has_val) { if (what == 2) { compound_proxy<typename C::Num>(opn, r, d); return; } }
        if constexpr (C::has_val) { if (what == 0) { r = C::make_mapped(get(a)); return; } }
        if (opn & 1) r = std::as_const(a); else if (opn & 2) r = a; else r = std::move(a);
        (void)d;
    }
    template <typename Ref> static void use_elem_ref(Ref&& r, uint32_t what, uint32_t opn, typename C::Num d, Value& a) {
        if constexpr (numeric && !pair_args) { if (what == 2) { compound_proxy<typename C::Num>(opn, r, d); return; } }
        r = std::as_const(a);
        (void)what; (void)opn; (void)d;
    }
    void proxy_ops(Client& c, Op const& op) {
        int s = pick_t(c, op.a);
        if (s < 0) return;
        Model const& m0 = c.t[s].m;
        size_t n = m0.size();
        Target g; g.slot = s; g.m = &m0;
        if (op.kind == kPxKey) {
            if constexpr (C::subscript == 1) {
                if ((op.b & 3) == 0) {                        // assignment through a key that may be new
                    Elem e = fresh(op.b >> 2);
                    e.k = some_key(m0, op.d, 0);
                    size_t i = lower(m0, e.k);
                    bool in = present(m0, i, e.k);
                    if (!in && n >= kCap) return;
                    typename C::Key key = C::key(e.k);
                    modify(c, op, g, e, in ? gOverwrite : gInsert, in ? static_cast<int64_t>(i) : -1, [&](auto& t, Value& a) { if constexpr (transient<decltype(t)>) use_key_ref(t[key], op.c & 1, op.c >> 2, typename C::Num{}, a); else return t; },
                           [&](Model& m) { if (in) m[i] = e; else m.insert(m.begin() + static_cast<int64_t>(i), e); });
                    return;
                }
                if (!n) return;
                size_t i = op.b % n;
                typename C::Key key = C::key(m0[i].k);
                proxy_on_element(c, op, s, i, [&](auto& t, uint32_t what, uint32_t opn, typename C::Num d, Value& a) { if constexpr (transient<decltype(t)>) use_key_ref(t[key], what, opn, d, a); else return t; });
            }
        } else if (op.kind == kPxIdx) {
            if constexpr (C::subscript == 2) {
                if (!n) return;
                size_t i = op.b % n;
                auto x = static_cast<typename C::Index>(i);
                proxy_on_element(c, op, s, i, [&](auto& t, uint32_t what, uint32_t opn, typename C::Num d, Value& a) { if constexpr (transient<decltype(t)>) use_elem_ref(t[x], what, opn, d, a); else return t; });
            }
        } else if (op.kind == kPxIt) {
            if (!n) return;
            size_t i = op.b % n;
            proxy_on_element(c, op, s, i, [&](auto& t, uint32_t what, uint32_t opn, typename C::Num d, Value& a) {
                if constexpr (transient<decltype(t)>) {
                    if (op.d & 1) { TI it = make_it<TI>(t, n, static_cast<int64_t>(i), op.d >> 1); use_elem_ref(*it, what, opn, d, a); }
                    else { TR it = make_it<TR>(t, n, static_cast<int64_t>(i), op.d >> 1); use_elem_ref(*it, what, opn, d, a); }
                } else return t; });
        } else if (op.kind == kPxRead) {
            if (n) proxy_reads(op, *c.t[s].o, m0, op.b % n, op.c % n);
        } else if (op.kind == kPxCopy) {
            if (!n) return;
            size_t i = op.b % n, j = op.c % n;
            if constexpr (!ordered) {
                Elem e = m0[j];
                modify(c, op, g, e, gOverwrite, static_cast<int64_t>(i), [&](auto& t, Value&) {
                    if constexpr (transient<decltype(t)>) {
                        if constexpr (C::subscript == 2) {
                            if (op.d & 1) { auto x = static_cast<typename C::Index>(i), y = static_cast<typename C::Index>(j); t[x] = t[y].get(); return; }
                        }
                        if (op.d & 2) { TR x = make_it<TR>(t, n, static_cast<int64_t>(i), op.d >> 2); TI y = make_it<TI>(t, n, static_cast<int64_t>(j), op.d >> 4); *x = *y; }
                        else { TI x = make_it<TI>(t, n, static_cast<int64_t>(i), op.d >> 2), y = make_it<TI>(t, n, static_cast<int64_t>(j), op.d >> 4); *x = *y; }
                    } else return t;
                }, [&](Model& m) { m[i] = e; });
            } else if constexpr (C::subscript == 1 && C::has_val) {
                Elem e{(op.d & 1) ? m0[i].k : some_key(m0, op.d, 0), m0[j].v};
                size_t p = lower(m0, e.k);
                bool in = present(m0, p, e.k);
                if (!in && n >= kCap) return;
                typename C::Key k1 = C::key(e.k), k2 = C::key(m0[j].k);
                modify(c, op, g, e, in ? gOverwrite : gInsert, in ? static_cast<int64_t>(p) : -1, [&](auto& t, Value&) { if constexpr (transient<decltype(t)>) t[k1] = t[k2]; else return t; },
                       [&](Model& m) { if (in) m[p] = e; else m.insert(m.begin() + static_cast<int64_t>(p), e); });
            }
        } else {                                              // swap
            if constexpr (!ordered) {
                if (!n) return;
                size_t i = op.b % n, j = op.c % n;
                TSlot& ts = c.t[s];
                auto both = [&](auto const& x, auto const& y) {
                    std::swap(ts.m[i], ts.m[j]);
                    audit_slot(ts, op, "tree after a swap");
                    check_it(*ts.o, ts.m, x, static_cast<int64_t>(i), op_seed(op, 24), "iterator swapped through");
                    check_it(*ts.o, ts.m, y, static_cast<int64_t>(j), op_seed(op, 25), "iterator swapped through");
                };
                if (op.d & 16) {
                    std::optional<TR> x, y;
                    must(call([&] { x.emplace(make_it<TR>(*ts.o, n, static_cast<int64_t>(i), op.d)); y.emplace(make_it<TR>(*ts.o, n, static_cast<int64_t>(j), op.d >> 2)); if (op.d & 32) std::iter_swap(*x, *y); else swap(**x, **y); }));
                    both(*x, *y);
                } else {
                    std::optional<TI> x, y;
                    must(call([&] { x.emplace(make_it<TI>(*ts.o, n, static_cast<int64_t>(i), op.d)); y.emplace(make_it<TI>(*ts.o, n, static_cast<int64_t>(j), op.d >> 2)); if (op.d & 32) std::iter_swap(*x, *y); else swap(**x, **y); }));
                    both(*x, *y);
                }
            }
        }
    }
    template <typename X, typename = void> struct HasGreater : std::false_type {};
    template <typename X> struct HasGreater<X, std::void_t<decltype(std::declval<X const&>() > std::declval<X const&>()), decltype(std::declval<X const&>() <= std::declval<X const&>())>> : std::true_type {};
    // px() and py() yield proxies of elements (or values) a and b: everything an expression can read through them
    template <bool arithmetic, typename X, typename PX, typename PY> static void read_through(X const& a, X const& b, PX&& px, PY&& py, const char* what, int64_t at) {
        bool ok[9] = {true, true, true, true, true, true, true, true, true};
        must(call([&] {
            ok[0] = (px() == a) && (b == py()) && ((px() == py()) == (a == b));
            ok[1] = ((px() < b) == (a < b)) && ((a < py()) == (a < b)) && ((px() < py()) == (a < b));
            if constexpr (HasGreater<X>::value) {
                ok[2] = ((px() > b) == (a > b)) && ((a > py()) == (a > b)) && ((px() > py()) == (a > b));
                ok[3] = ((px() <= b) == (a <= b)) && ((a <= py()) == (a <= b)) && ((px() <= py()) == (a <= b));
                ok[4] = ((px() >= b) == (a >= b)) && ((a >= py()) == (a >= b)) && ((px() >= py()) == (a >= b));
            }
            X const& v = px();
            ok[5] = v == a && px().get() == a;
            if constexpr (arithmetic) {
                X d = static_cast<X>(3), two = static_cast<X>(2), none = static_cast<X>(0);
                ok[6] = (px() + py()) == (a + b) && (px() - py()) == (a - b) && (px() * d) == (a * d) && (d * py()) == (d * b) && (a + py()) == (a + b) && (a - py()) == (a - b) && (px() - b) == (a - b);
                ok[7] = (px() / d) == (a / d) && (px() % d) == (a % d) && (px() ^ py()) == (a ^ b) && (a ^ py()) == (a ^ b) && (px() & b) == (a & b) && (px() & py()) == (a & b) && (a | py()) == (a | b) && (px() | py()) == (a | b);
                if (!(b == none)) ok[7] = ok[7] && (a / py()) == (a / b) && (a % py()) == (a % b) && (px() / py()) == (a / b) && (px() % py()) == (a % b);
                if (a >= none) ok[8] = (px() << two) == (a << two) && (px() >> two) == (a >> two);
            }
        }));
        static const char* const names[] = {"==", "<", ">", "<=", ">=", "the element read", "+ - *", "/ % ^ & |", "<< >>"};
        for (int i = 0; i < 9; ++i) if (!ok[i]) violation("proxy", "%s through %s at %lld is wrong (operation %u %s of client %d)", names[i], what, static_cast<long long>(at), cur_op_uid, kOpName[cur_op_kind], current_client());
    }
    void proxy_reads(Op const& op, T& t, Model const& m, size_t i, size_t j) {
        size_t n = m.size();
        Value a = C::make(m[i].k, m[i].v), b = C::make(m[j].k, m[j].v);
        auto at = static_cast<int64_t>(i);
        if constexpr (C::subscript == 1) {
            if (op.d & 1) {
                typename C::Key k1 = C::key(m[i].k), k2 = C::key(m[j].k);
                auto va = C::make_mapped(m[i]), vb = C::make_mapped(m[j]);
                read_through<numeric && C::has_val>(va, vb, [&] { return t[k1]; }, [&] { return t[k2]; }, "t[key]", at);
                return;
            }
        }
        if constexpr (C::subscript == 2) {
            if (op.d & 1) {
                auto x = static_cast<typename C::Index>(i), y = static_cast<typename C::Index>(j);
                read_through<numeric && !pair_args>(a, b, [&] { return t[x]; }, [&] { return t[y]; }, "t[index]", at);
                return;
            }
        }
        if (op.d & 2) {
            std::optional<TR> x, y;
            must(call([&] { x.emplace(make_it<TR>(t, n, at, op.d >> 2)); y.emplace(make_it<TR>(t, n, static_cast<int64_t>(j), op.d >> 4)); }));
            read_through<numeric && !pair_args>(a, b, [&] { return **x; }, [&] { return **y; }, "*reverse iterator", at);
        } else {
            std::optional<TI> x, y;
            must(call([&] { x.emplace(make_it<TI>(t, n, at, op.d >> 2)); y.emplace(make_it<TI>(t, n, static_cast<int64_t>(j), op.d >> 4)); }));
            read_through<numeric && !pair_args>(a, b, [&] { return **x; }, [&] { return **y; }, "*iterator", at);
        }
    }
    // standard algorithms that write through iterators
    void algorithm(Client& c, Op const& op) {
        if constexpr (!ordered) {
            int s = pick_t(c, op.a);
            if (s < 0 || c.t[s].m.empty() || c.t[s].m.size() > 70) return;
            TSlot& ts = c.t[s];
            Model& m = ts.m;
            size_t n = m.size(), lo = op.c % n, hi = lo + 1 + (op.c >> 8) % (n - lo), mid = lo + (op.c >> 16) % (hi - lo);
            auto sl = static_cast<int64_t>(lo), sh = static_cast<int64_t>(hi), sm = static_cast<int64_t>(mid);
            auto even = [](Value const& v) { return (get(v).v & 1) == 0; };
            Elem e = fresh(op.d);
            std::optional<Value> arg; arg.emplace(C::make(e.k, e.v));
            auto mb = m.begin();
            std::optional<TI> ret; int64_t rpos = -1;
            uint32_t how = op.d;
            must(call([&] {
                T& t = *ts.o;
                TI b = make_it<TI>(t, n, sl, how), x = make_it<TI>(t, n, sm, how >> 2), f = make_it<TI>(t, n, sh, how >> 4);
                switch (op.b % 8) {
                    case 0: std::reverse(b, f); break;
                    case 1: std::reverse(make_it<TR>(t, n, sh - 1, how), make_it<TR>(t, n, sl - 1, how >> 2)); break;
                    case 2: ret.emplace(std::rotate(b, x, f)); break;
                    case 3: std::fill(b, f, *arg); break;
                    case 4: ret.emplace(std::partition(b, f, even)); break;
                    case 5: ret.emplace(std::copy(x, f, b)); break;
                    case 6: ret.emplace(std::copy_backward(b, x, f)); break;
                    default: ret.emplace(std::swap_ranges(b, make_it<TI>(t, n, sl + (sh - sl) / 2, how), make_it<TI>(t, n, sl + (sh - sl) / 2, how >> 3))); break;
                }
            }));
            switch (op.b % 8) {
                case 0: case 1: std::reverse(mb + sl, mb + sh); break;
                case 2: rpos = std::rotate(mb + sl, mb + sm, mb + sh) - mb; break;
                case 3: std::fill(mb + sl, mb + sh, e); break;
                case 4: rpos = std::partition(mb + sl, mb + sh, [](Elem const& x) { return (x.v & 1) == 0; }) - mb; break;
                case 5: rpos = std::copy(mb + sm, mb + sh, mb + sl) - mb; break;
                case 6: rpos = std::copy_backward(mb + sl, mb + sm, mb + sh) - mb; break;
                default: rpos = std::swap_ranges(mb + sl, mb + (sl + (sh - sl) / 2), mb + (sl + (sh - sl) / 2)) - mb; break;
            }
            if (ret) check_it(*ts.o, m, *ret, rpos, op_seed(op, 26), "iterator returned by an algorithm");
            audit_slot(ts, op, "tree after a standard algorithm");
        }
        (void)c; (void)op;
    }
    void sort(Client& c, Op const& op) {
        if constexpr (!ordered && indexed && numeric && !pair_args) {
            int s = pick_t(c, op.a);
            if (s < 0 || c.t[s].m.size() > 80) return;
            TSlot& ts = c.t[s];
            must(call([&] { std::sort(ts.o->begin(), ts.o->end()); }));
            std::sort(ts.m.begin(), ts.m.end(), [](Elem const& x, Elem const& y) { return x.v < y.v; });
            audit_slot(ts, op, "tree after sorting");
        }
        (void)c; (void)op;
    }

    // ------------------------------------------------------------------------------------- held iterators and proxies
    void iterator_ops(Client& c, Op const& op) {
        HeldIt& h = c.it[op.a % kIt];
        if (op.kind == kItTake || !h.on) {
            Target g = target(c, op);
            if (g.slot < 0) return;
            h = HeldIt{};
            size_t n = g.m->size();
            h.on = true; h.per = g.per; h.slot = g.slot; h.kind = static_cast<int>(op.b & 3);
            h.pos = static_cast<int64_t>((op.b >> 2) % (n + 1));
            if (n && (op.b >> 20) % 4 && h.pos == static_cast<int64_t>(n)) h.pos = 0;
            int64_t rpos = h.pos - 1;
            if (h.kind & 2) h.pos = rpos;
            must(call([&] {
                if (g.per) {
                    P const& p = *c.p[g.slot].o;
                    if (h.kind & 2) h.pd.emplace(make_it<PD>(p, n, h.pos, op.c)); else h.pc.emplace(make_it<PC>(p, n, h.pos, op.c));
                } else {
                    T& t = *c.t[g.slot].o;
                    switch (h.kind) {
                        case 0: h.ti.emplace(make_it<TI>(t, n, h.pos, op.c)); break;
                        case 1: h.tc.emplace(make_it<TC>(t, n, h.pos, op.c)); break;
                        case 2: h.tr.emplace(make_it<TR>(t, n, h.pos, op.c)); break;
                        default: h.td.emplace(make_it<TD>(t, n, h.pos, op.c)); break;
                    }
                }
            }));
            return;
        }
        Model const& m0 = h.per ? c.p[h.slot].m : c.t[h.slot].m;
        auto n = static_cast<int64_t>(m0.size());
        bool rev = (h.kind & 2) != 0;
        bool none = rev ? h.pos < 0 : h.pos >= n;
        Target g; g.per = h.per; g.slot = h.slot; g.m = &m0;
        switch (op.kind) {
            case kItCheck: {
                if (!none) {
                    Elem e{0, 0};
                    with_it(c, h, [&](auto&, Model const&, auto& it) { must(call([&] { e = get(it.get()); })); });
                    same(e, m0[static_cast<size_t>(h.pos)], "iterator", "element", "held iterator", h.pos);
                }
                with_it(c, h, [&](auto& t, Model const& m, auto& it) { check_it(t, m, it, h.pos, op_seed(op, 21), "held iterator"); });
                return;
            }
            case kItStep: {
                int64_t lo = rev ? -1 : 0, hi = rev ? n - 1 : n;
                int64_t to = (op.b & 1) ? lo + static_cast<int64_t>(op.c % static_cast<uint64_t>(hi - lo + 1)) : std::clamp(h.pos + ((op.b & 2) ? 1 : -1), lo, hi);
                int64_t d = rev ? h.pos - to : to - h.pos;
                with_it(c, h, [&](auto& t, Model const& m, auto& it) {
                    must(call([&] { if (d == 1) { if (op.b & 4) ++it; else it++; } else if (d == -1) { if (op.b & 4) --it; else it--; } else if (op.b & 4) it += d; else it -= -d; }));
                    h.pos = to;
                    check_it(t, m, it, h.pos, op_seed(op, 22), "held iterator after stepping");
                });
                return;
            }
            case kItAssign: case kItUpdate: {
                if (none) return;
                auto i = static_cast<size_t>(h.pos);
                Elem e;
                if (!elem_for(m0, i, true, op.b, e)) return;
                bool upd = op.kind == kItUpdate;
                held_modify(c, op, h, g, e, gOverwrite, [&](auto& t, Value& a, auto& it) { if (upd) return t.update(it, [&](Value const&) { return C::make(e.k, e.v); }); else return t.assign(it, std::move(a)); }, [&](Model& m) { m[i] = e; }, h.pos);
                return;
            }
            case kItInsert: {
                size_t at = static_cast<size_t>(rev ? h.pos + 1 : h.pos);
                Elem e;
                if (m0.size() >= kCap || !elem_for(m0, at, false, op.b, e)) return;
                held_modify(c, op, h, g, e, gInsert, [&](auto& t, Value& a, auto& it) { return t.insert(it, std::move(a)); }, [&](Model& m) { m.insert(m.begin() + static_cast<int64_t>(at), e); }, static_cast<int64_t>(at));
                return;
            }
            case kItErase: {
                if (none) return;
                int64_t at = h.pos;
                held_modify(c, op, h, g, Elem{0, 0}, gErase, [&](auto& t, Value&, auto& it) { return t.erase(it); }, [&](Model& m) { m.erase(m.begin() + at); }, rev ? at - 1 : at);
                return;
            }
            default: return;
        }
    }
    // modification through a held iterator; on success of an in-place one the iterator moves to newpos
    template <typename Fn, typename MF> void held_modify(Client& c, Op const& op, HeldIt& h, Target g, Elem e, Growth gr, Fn&& f, MF&& mf, int64_t newpos) {
        Op o = op;
        if (h.per) { if (static_cast<int>((o.d >> 8) % kP) == h.slot) o.d += 256; }   // keep the tree the iterator belongs to
        HeldIt work = h;
        bool ok = modify(c, o, g, e, gr, gr == gInsert ? -1 : h.pos, [&](auto& t, Value& a) {
            if constexpr (transient<decltype(t)>) {
                work = h;                                     // a failed attempt must not leave its traces in the next one
                if (work.ti) f(t, a, *work.ti); else if (work.tc) f(t, a, *work.tc); else if (work.tr) f(t, a, *work.tr); else f(t, a, *work.td);
            } else {
                if (h.pc) return f(t, a, *h.pc);
                return f(t, a, *h.pd);
            }
        }, mf, &h);
        if (!h.on) return;                                    // (cannot happen: `through` is exempt)
        if (ok && !h.per) { h = std::move(work); h.pos = newpos; }
        with_it(c, h, [&](auto& t, Model const& m, auto& it) { check_it(t, m, it, h.pos, op_seed(op, 23), "held iterator after a modification"); });
    }

    void held_proxy_ops(Client& c, Op const& op) {
        HeldPr& h = c.pr[op.a % kPr];
        if (op.kind == kPrTake || !h.kind) {
            int s = pick_t(c, op.a >> 4);
            if (s < 0 || c.t[s].m.empty()) return;
            Model const& m = c.t[s].m;
            h = HeldPr{};
            size_t i = op.b % m.size();
            h.slot = s;
            if (C::subscript && (op.c & 1)) {
                h.kind = C::subscript;
                if constexpr (C::subscript != 0) {
                    h.at = C::subscript == 1 ? m[i].k : static_cast<int64_t>(i);
                    h.sub.reset(new ProxyHolder<void, C::subscript>(*c.t[s].o, h.at));
                }
            } else {
                h.kind = 3; h.at = static_cast<int64_t>(i);
                TSlot& ts = c.t[s];
                std::optional<TI> it;
                must(call([&] { it.emplace(make_it<TI>(*ts.o, ts.m.size(), h.at, op.d)); }));
                h.itp.reset(new ItProxy(*it));
            }
            return;
        }
        TSlot& ts = c.t[h.slot];
        size_t i; bool in;
        if (h.kind == 1) { i = lower(ts.m, h.at); in = present(ts.m, i, h.at); }
        else { i = static_cast<size_t>(h.at); in = i < ts.m.size(); }
        count(kProxyHeld);
        if (op.kind == kPrRead || !in) {
            if (!in) return;
            Elem want = ts.m[i];
            if (h.kind == 3) {
                Elem e{0, 0}, e2{0, 0};
                must(call([&] { e = get(h.itp->ref.get()); Value const& v = h.itp->ref; e2 = get(v); }));
                same(e, want, "proxy", "element read through a held iterator reference", "proxy", h.at); same(e2, want, "proxy", "element read through a held iterator reference", "proxy", h.at);
            } else if constexpr (C::subscript == 1) {
                int64_t x = 0;
                must(call([&] { x = C::mapped_of(h.sub->ref.get()); }));
                same(x, C::mapped(want), "proxy", "value read through a held key reference", "proxy", h.at);
            } else if constexpr (C::subscript == 2) {
                Elem e{0, 0};
                must(call([&] { e = get(h.sub->ref.get()); }));
                same(e, want, "proxy", "element read through a held index reference", "proxy", h.at);
            }
            return;
        }
        if (h.kind == 3) proxy_on_element(c, op, h.slot, i, [&](auto& t, uint32_t what, uint32_t opn, typename C::Num d, Value& a) { if constexpr (transient<decltype(t)>) use_elem_ref(h.itp->ref, what, opn, d, a); else return t; });
        else if constexpr (C::subscript == 1) proxy_on_element(c, op, h.slot, i, [&](auto& t, uint32_t what, uint32_t opn, typename C::Num d, Value& a) { if constexpr (transient<decltype(t)>) use_key_ref(h.sub->ref, what, opn, d, a); else return t; });
        else if constexpr (C::subscript == 2) proxy_on_element(c, op, h.slot, i, [&](auto& t, uint32_t what, uint32_t opn, typename C::Num d, Value& a) { if constexpr (transient<decltype(t)>) use_elem_ref(h.sub->ref, what, opn, d, a); else return t; });
    }

    // --------------------------------------------------------------------------------------------------- conversions
    void conversions(Client& c, Op const& op) {
        int dt = static_cast<int>(op.b % kT), dp = static_cast<int>(op.b % kP);
        switch (op.kind) {
            case kSnap: {
                int s = pick_t(c, op.a); if (s < 0) return;
                Fp f = look(c.t[s]);
                P* o = build<P>(op, [&](void* m) { return new (m) P(std::as_const(*c.t[s].o).persistent()); }, 0);
                if (!o) return;
                unown(c.t[s]);
                put_p(c, dp, o, c.t[s].m); c.p[dp].fp = f; expect(c.t[s], f, "the source of a snapshot");
                audit_slot(c.p[dp], op, "snapshot"); audit_slot(c.t[s], op, "source of a snapshot");
                return;
            }
            case kSnapMove: {
                int s = pick_t(c, op.a); if (s < 0) return;
                Fp f = look(c.t[s]);
                P* o = build<P>(op, [&](void* m) { return new (m) P(std::move(*c.t[s].o).persistent()); }, 0);
                if (!o) return;
                Model m = std::move(c.t[s].m);
                moved_from_t(c, op, s);
                put_p(c, dp, o, std::move(m)); c.p[dp].fp = f;
                audit_slot(c.p[dp], op, "snapshot by move");
                return;
            }
            case kTrans: {
                int s = pick_p(c, op.a); if (s < 0) return;
                Fp f = look(c.p[s]);
                T* o = build<T>(op, [&](void* m) { return new (m) T(std::as_const(*c.p[s].o).transient()); }, 0);
                if (!o) return;
                put_t(c, dt, o, c.p[s].m, false); expect(c.t[dt], f, "a transient tree");
                audit_slot(c.t[dt], op, "transient tree"); audit_slot(c.p[s], op, "source of a transient tree");
                return;
            }
            case kTransMove: {
                int s = pick_p(c, op.a); if (s < 0) return;
                Fp f = look(c.p[s]);
                T* o = build<T>(op, [&](void* m) { return new (m) T(std::move(*c.p[s].o).transient()); }, 0);
                if (!o) return;
                Model m = std::move(c.p[s].m);
                moved_from_p(c, op, s);
                put_t(c, dt, o, std::move(m), false); expect(c.t[dt], f, "a transient tree made by moving");
                audit_slot(c.t[dt], op, "transient tree by move");
                return;
            }
            case kCopyT: {
                int s = pick_t(c, op.a); if (s < 0) return;
                Fp f = look(c.t[s]);
                T* o = build<T>(op, [&](void* m) { if (op.c & 1) return new (m) T(std::as_const(*c.t[s].o)); return new (m) T(*c.t[s].o); }, 0);
                if (!o) return;
                unown(c.t[s]);
                Model m = c.t[s].m;
                if (dt != s) expect(c.t[s], f, "the source of a copy");
                put_t(c, dt, o, std::move(m), false); expect(c.t[dt], f, "a copy");
                audit_slot(c.t[dt], op, "copy of a transient tree"); audit_slot(c.t[s], op, "source of a copy");
                return;
            }
            case kCopyP: {
                int s = pick_p(c, op.a); if (s < 0) return;
                P* o = build<P>(op, [&](void* m) { if (op.c & 1) return new (m) P(std::as_const(*c.p[s].o)); return new (m) P(*c.p[s].o); }, 0);
                if (!o) return;
                Model m = c.p[s].m; Fp f = c.p[s].fp;
                put_p(c, dp, o, std::move(m)); c.p[dp].fp = f;
                audit_slot(c.p[dp], op, "copy of a persistent tree"); audit_slot(c.p[s], op, "source of a copy");
                return;
            }
            case kAsgT: case kSelfT: {
                int s = pick_t(c, op.a); if (s < 0) return;
                int d = op.kind == kSelfT ? s : pick_t(c, op.b);
                Fp f = look(c.t[s]);
                must_alloc0(op, call([&] { reset_op_allocs(); *c.t[d].o = std::as_const(*c.t[s].o); }));
                if (d != s) { c.t[d].m = c.t[s].m; structural(c, d); unown(c.t[d]); }
                unown(c.t[s]);
                expect(c.t[d], f, "an assigned tree"); expect(c.t[s], f, "the source of an assignment");
                audit_slot(c.t[d], op, "assigned tree"); audit_slot(c.t[s], op, "source of an assignment");
                return;
            }
            case kAsgP: case kSelfP: {
                int s = pick_p(c, op.a); if (s < 0) return;
                int d = op.kind == kSelfP ? s : pick_p(c, op.b);
                must_alloc0(op, call([&] { reset_op_allocs(); *c.p[d].o = std::as_const(*c.p[s].o); }));
                if (d != s) { c.p[d].m = c.p[s].m; c.p[d].fp = c.p[s].fp; drop_its(c, true, d); }
                audit_slot(c.p[d], op, "assigned tree"); audit_slot(c.p[s], op, "source of an assignment");
                return;
            }
            case kMoveT: {
                int s = pick_t(c, op.a); if (s < 0) return;
                Fp f = look(c.t[s]);
                T* o = build<T>(op, [&](void* m) { return new (m) T(std::move(*c.t[s].o)); }, 0);
                if (!o) return;
                Model m = std::move(c.t[s].m); bool own = c.t[s].owned;
                moved_from_t(c, op, s);
                put_t(c, dt, o, std::move(m), own); expect(c.t[dt], f, "a moved tree");
                audit_slot(c.t[dt], op, "moved tree");
                return;
            }
            case kMoveP: {
                int s = pick_p(c, op.a); if (s < 0) return;
                P* o = build<P>(op, [&](void* m) { return new (m) P(std::move(*c.p[s].o)); }, 0);
                if (!o) return;
                Model m = std::move(c.p[s].m); Fp f = c.p[s].fp;
                moved_from_p(c, op, s);
                put_p(c, dp, o, std::move(m)); c.p[dp].fp = f;
                audit_slot(c.p[dp], op, "moved tree");
                return;
            }
            case kMoveAsgT: {
                int s = pick_t(c, op.a); if (s < 0) return;
                int d = pick_t(c, op.b); if (d == s) return;
                Fp f = look(c.t[s]);
                must_alloc0(op, call([&] { reset_op_allocs(); *c.t[d].o = std::move(*c.t[s].o); }));
                structural(c, d);
                c.t[d].m = std::move(c.t[s].m); c.t[d].owned = c.t[s].owned;
                moved_from_t(c, op, s);
                expect(c.t[d], f, "a move-assigned tree");
                audit_slot(c.t[d], op, "move-assigned tree");
                return;
            }
            case kMoveAsgP: {
                int s = pick_p(c, op.a); if (s < 0) return;
                int d = pick_p(c, op.b); if (d == s) return;
                must_alloc0(op, call([&] { reset_op_allocs(); *c.p[d].o = std::move(*c.p[s].o); }));
                drop_its(c, true, d);
                c.p[d].m = std::move(c.p[s].m); c.p[d].fp = c.p[s].fp;
                moved_from_p(c, op, s);
                audit_slot(c.p[d], op, "move-assigned tree");
                return;
            }
            case kSwapT: {
                int s = pick_t(c, op.a); if (s < 0) return;
                int d = pick_t(c, op.b); if (d == s) return;
                Fp f = look(c.t[s]), f2 = look(c.t[d]);
                must_alloc0(op, call([&] { reset_op_allocs(); std::swap(*c.t[d].o, *c.t[s].o); }));
                structural(c, d); structural(c, s);
                std::swap(c.t[d].m, c.t[s].m); std::swap(c.t[d].owned, c.t[s].owned);
                expect(c.t[d], f, "a swapped tree"); expect(c.t[s], f2, "a swapped tree");
                audit_slot(c.t[d], op, "swapped tree"); audit_slot(c.t[s], op, "swapped tree");
                return;
            }
            case kSwapP: {
                int s = pick_p(c, op.a); if (s < 0) return;
                int d = pick_p(c, op.b); if (d == s) return;
                must_alloc0(op, call([&] { reset_op_allocs(); std::swap(*c.p[d].o, *c.p[s].o); }));
                drop_its(c, true, d); drop_its(c, true, s);
                std::swap(c.p[d].m, c.p[s].m); std::swap(c.p[d].fp, c.p[s].fp);
                audit_slot(c.p[d], op, "swapped tree"); audit_slot(c.p[s], op, "swapped tree");
                return;
            }
            case kDropT: { int s = pick_t(c, op.a); if (s >= 0) clear_t(c, s); return; }
            case kDropP: { int s = pick_p(c, op.a); if (s >= 0) clear_p(c, s); return; }
            case kNewT: { T* o = build<T>(op, [&](void* m) { return new (m) T(); }, 1); if (o) put_t(c, dt, o, Model{}, true); return; }
            case kNewP: { P* o = build<P>(op, [&](void* m) { return new (m) P(); }, 1); if (o) put_p(c, dp, o, Model{}); return; }
            default: return;
        }
    }
    void must_alloc0(Op const& op, int o) {
        must(o);
        if ((oracle_mask & kAllocBound) && op_allocs()) violation("allocations", "operation %u %s allocated %lld nodes, none expected", op.uid, kOpName[op.kind], static_cast<long long>(op_allocs()));
    }
    // a moved-from tree may be destroyed or assigned to
    void moved_from_t(Client& c, Op const& op, int s) {
        drop_its(c, false, s); drop_prs(c, s, true);
        c.t[s].own.clear();
        if ((op.c & 12) == 4) { must(call([&] { *c.t[s].o = T(); })); c.t[s].m.clear(); c.t[s].owned = true; audit_slot(c.t[s], op, "reassigned tree"); }
        else if ((op.c & 12) == 8 && pick_p(c, op.d) >= 0) { int p = pick_p(c, op.d); must(call([&] { *c.t[s].o = c.p[p].o->transient(); })); c.t[s].m = c.p[p].m; c.t[s].owned = false; audit_slot(c.t[s], op, "reassigned tree"); }
        else clear_t(c, s);
    }
    void moved_from_p(Client& c, Op const& op, int s) {
        drop_its(c, true, s);
        int p = -1;
        for (int i = 0; i < kP; ++i) if (i != s && c.p[i].o) p = i;
        if ((op.c & 12) == 4) { must(call([&] { *c.p[s].o = P(); })); c.p[s].m.clear(); c.p[s].fp = Fp{}; audit_slot(c.p[s], op, "reassigned tree"); }
        else if ((op.c & 12) == 8 && p >= 0) { must(call([&] { *c.p[s].o = std::as_const(*c.p[p].o); })); c.p[s].m = c.p[p].m; c.p[s].fp = c.p[p].fp; audit_slot(c.p[s], op, "reassigned tree"); }
        else clear_p(c, s);
    }

    // ------------------------------------------------------------------------------------------------- communication
    void release_pub(Pub* p) {
        hb_release(p->clk);
        if (--p->refs) return;
        hb_acquire(p->clk);
        must(call([&] { p->o->~P(); }));
        tracked_free(p->o);
        delete p;
    }
    void drop_msg(Msg& m) {
        hb_acquire(m.clk);
        if (m.p) { must(call([&] { m.p->~P(); })); tracked_free(m.p); }
        if (m.t) { must(call([&] { m.t->~T(); })); tracked_free(m.t); }
        m.p = nullptr; m.t = nullptr;
    }
    void crash(Client& c) {
        for (auto& h : c.it) h = HeldIt{};
        for (auto& h : c.pr) h = HeldPr{};
        for (int i = 0; i < kT; ++i) clear_t(c, i);
        for (int i = 0; i < kP; ++i) clear_p(c, i);
        for (auto& a : c.att) if (a) { Pub* p = a; a = nullptr; release_pub(p); }
        auto q = std::move(inbox[c.id]); inbox[c.id].clear();
        for (auto& m : q) drop_msg(m);
    }
    void communicate(Client& c, Op const& op) {
        int peer = 1 + static_cast<int>(op.b % par.clients);
        switch (op.kind) {
            case kSend: {
                Msg m;
                if ((op.c & 7) == 0) {                        // hand over a transient tree
                    int s = pick_t(c, op.a); if (s < 0) return;
                    drop_its(c, false, s); drop_prs(c, s, true);
                    m.t = c.t[s].o; m.m = std::move(c.t[s].m); m.ts.owned = c.t[s].owned;
                    c.t[s].o = nullptr; c.t[s].own.clear();
                } else {
                    int s = pick_p(c, op.a); if (s < 0) return;
                    m.p = build<P>(op, [&](void* x) { return new (x) P(std::as_const(*c.p[s].o)); }, 0);
                    if (!m.p) return;
                    m.m = c.p[s].m; m.fp = c.p[s].fp;
                }
                m.delay = static_cast<int>(op.d % 4 == 0 ? op.d / 4 % 6 : 0);
                if (m.delay) count(kFaultDelay);
                count(kMsgs);
                if (op.d % 16 == 7) { count(kFaultDrop); hb_release(m.clk); drop_msg(m); return; }
                if (m.p && op.d % 16 == 9) {
                    count(kFaultDup);
                    Msg d; d.p = build<P>(op, [&](void* x) { return new (x) P(std::as_const(*m.p)); }, 0);
                    if (d.p) { d.m = m.m; d.fp = m.fp; hb_release(d.clk); inbox[peer].push_back(std::move(d)); }
                }
                hb_release(m.clk);
                if ((op.d & 32) && !inbox[peer].empty()) inbox[peer].push_front(std::move(m)); else inbox[peer].push_back(std::move(m));
                return;
            }
            case kRecv: {
                auto& q = inbox[c.id];
                for (size_t i = 0; i < q.size(); ++i) {
                    if (q[i].delay-- > 0) continue;
                    Msg m = std::move(q[i]);
                    q.erase(q.begin() + static_cast<int64_t>(i));
                    hb_acquire(m.clk);
                    if (m.p) { int s = static_cast<int>(op.a % kP); put_p(c, s, m.p, std::move(m.m)); c.p[s].fp = m.fp; audit_slot(c.p[s], op, "received tree"); }
                    else { int s = static_cast<int>(op.a % kT); put_t(c, s, m.t, std::move(m.m), m.ts.owned); audit_slot(c.t[s], op, "received tree"); }
                    return;
                }
                return;
            }
            case kPublish: {
                int s = pick_p(c, op.a); if (s < 0) return;
                Model mm = c.p[s].m;
                P* o = build<P>(op, [&](void* x) { return new (x) P(std::as_const(*c.p[s].o)); }, 0);
                if (!o) return;
                Pub* np = new Pub{o, std::move(mm), 1, {}, c.p[s].fp};
                hb_release(np->clk);
                Pub* old = pub[op.b & 1];
                pub[op.b & 1] = np;
                if (old) release_pub(old);
                return;
            }
            case kAttach: {
                Pub* p = pub[op.b & 1];
                if (!p) return;
                Pub*& mine = c.att[op.a & 1];
                if (mine) { Pub* o = mine; mine = nullptr; release_pub(o); p = pub[op.b & 1]; if (!p) return; }
                hb_acquire(p->clk);
                ++p->refs;
                mine = p;
                return;
            }
            case kDetach: { Pub*& mine = c.att[op.a & 1]; if (mine) { Pub* o = mine; mine = nullptr; release_pub(o); } return; }
            case kCrash: {
                count(kFaultCrash);
                crash(c);
                if (op.a & 1) { int s = 0; T* o = build<T>(op, [&](void* m) { return new (m) T(); }, 1); if (o) put_t(c, s, o, Model{}, true); }
                return;
            }
            default: break;
        }
        Pub* p = c.att[op.a & 1] ? c.att[op.a & 1] : c.att[1 - (op.a & 1)];
        if (!p) {
            p = pub[op.b & 1];
            if (!p) return;
            hb_acquire(p->clk); ++p->refs; c.att[op.a & 1] = p;
        }
        count(kShared);
        int dt = static_cast<int>(op.c % kT), dp = static_cast<int>(op.c % kP);
        switch (op.kind) {
            case kPubRead: audit(std::as_const(*p->o), p->m, oracle_mask & kAllReads, op_seed(op, 31), 6, "shared tree", 2); stable(std::as_const(*p->o), p->m, p->fp, "shared tree", 2); return;
            case kPubCopy: {
                P* o = build<P>(op, [&](void* x) { if (op.d & 1) return new (x) P(std::as_const(*p->o)); return new (x) P(*p->o); }, 0);
                if (o) { put_p(c, dp, o, p->m); c.p[dp].fp = p->fp; audit_slot(c.p[dp], op, "copy of a shared tree"); }
                return;
            }
            case kPubTrans: {
                T* o = build<T>(op, [&](void* x) { return new (x) T(std::as_const(*p->o).transient()); }, 0);
                if (o) { put_t(c, dt, o, p->m, false); expect(c.t[dt], p->fp, "a transient tree of a shared tree"); audit_slot(c.t[dt], op, "transient tree of a shared tree"); }
                return;
            }
            case kPubMod: {
                Elem e;
                size_t n = p->m.size(), pos = op.d % (n + 1);
                bool ins = n == 0 || ((op.d >> 8) & 1);
                if (!ins && pos == n) pos = 0;
                if ((ins && n >= kCap) || !elem_for(p->m, pos, !ins, op.d >> 3, e)) return;
                Value arg = C::make(e.k, e.v);
                P* o = build<P>(op, [&](void* x) {
                    P const& src = *p->o;
                    PC it = make_it<PC>(src, n, static_cast<int64_t>(pos), op.c);
                    return ins ? new (x) P(src.insert(it, std::as_const(arg))) : new (x) P(src.assign(it, std::as_const(arg)));
                }, -1, ins && full(*p->o));
                if (!o) return;
                Model m = p->m;
                if (ins) m.insert(m.begin() + static_cast<int64_t>(pos), e); else m[pos] = e;
                put_p(c, dp, o, std::move(m));
                audit_slot(c.p[dp], op, "tree derived from a shared tree");
                return;
            }
            default: return;
        }
    }

    // --------------------------------------------------------------------------------------------------------- reads
    static void record(std::vector<Elem>& out, Value const& v) { sim_mode_guard g(0); out.push_back(get(v)); }   // capacity is reserved
    void reads(Client& c, Op const& op) {
        Target g = target(c, op);
        if (g.slot < 0) return;
        Model const& m = *g.m;
        size_t n = m.size();
        uint64_t seed = op_seed(op, 41);
        if (op.kind == kRead || op.kind == kRange || (g.per && op.kind != kCompare)) {
            uint32_t mask = op.kind == kRange ? kMinMax | kSums : op.kind == kNav ? kReverse | kNavigate : op.kind == kLookup ? kKeys | kIndex | kEnds : kAllReads;
            mask &= oracle_mask;
            uint32_t samples = n <= 40 && (op.b & 3) == 0 ? 1000 : 8;
            if (g.per) { audit(std::as_const(*c.p[g.slot].o), m, mask, seed, samples, "persistent tree", 2); if (op.c & 1) stable(std::as_const(*c.p[g.slot].o), m, c.p[g.slot].fp, "persistent tree", 2); }
            else if (op.c & 1) audit(*c.t[g.slot].o, m, mask, seed, samples, "transient tree", 2);
            else audit(std::as_const(*c.t[g.slot].o), m, mask, seed, samples, "transient tree", 2);
            return;
        }
        if (op.kind == kCompare) {
            // iterators of different trees are never equal
            int s2 = -1;
            if (g.per) { for (int i = 0; i < kP; ++i) if (c.p[i].o && i != g.slot) s2 = i; }
            else { for (int i = 0; i < kT; ++i) if (c.t[i].o && i != g.slot) s2 = i; }
            if (s2 < 0) return;
            bool eq = true, ne = false;
            auto cmp = [&](auto const& x, auto const& y) { if (op.b & 1) { eq = x.crbegin() == y.crbegin(); ne = x.crend() != y.crend(); } else { eq = x.cbegin() == y.cbegin(); ne = x.cend() != y.cend(); } };
            must(call([&] { if (g.per) cmp(*c.p[g.slot].o, *c.p[s2].o); else cmp(*c.t[g.slot].o, *c.t[s2].o); }));
            if (eq || !ne) violation("traversal", "iterators of different trees compare equal (operation %u)", op.uid);
            return;
        }
        T& t = *c.t[g.slot].o;
        if (op.kind == kNav) {
            std::vector<Elem> out; out.reserve(n + 2);
            bool rev = op.b & 1;
            auto dist = static_cast<int64_t>(n);
            must(call([&] {
                if (rev) { for (auto it = t.rbegin(), e = t.rend(); it != e && out.size() <= n; it++) record(out, it.get()); }
                else { for (auto it = t.begin(), e = t.end(); it != e && out.size() <= n; it++) record(out, it.get()); }
                if (op.b & 2) dist = rev ? std::distance(t.rbegin(), t.rend()) : std::distance(t.begin(), t.end());
            }));
            same(dist, static_cast<int64_t>(n), "traversal", "distance from begin to end", "traversal", -1);
            same(static_cast<int64_t>(out.size()), static_cast<int64_t>(n), "traversal", "number of elements visited", "traversal", -1);
            for (size_t i = 0; i < n; ++i) same(out[i], m[rev ? n - 1 - i : i], "traversal", "element", "traversal", static_cast<int64_t>(i));
            return;
        }
        if (op.kind == kLookup) lookup(c, op, t, m, n);
    }
    void lookup(Client&, Op const& op, T& t, Model const& m, size_t n) {
        auto sn = static_cast<int64_t>(n);
        std::optional<TI> it;
        int64_t pos = 0;
        uint32_t which = op.b % 6;
        if constexpr (ordered) {
            if (which < 3) {
                int64_t k = some_key(m, op.c, op.b & 64);
                typename C::Key key = C::key(k);
                auto i = static_cast<int64_t>(lower(m, k));
                bool in = present(m, static_cast<size_t>(i), k);
                must(call([&] { it.emplace(which == 0 ? t.find(key) : which == 1 ? t.lower_bound(key) : t.upper_bound(key)); }));
                pos = which == 0 ? (in ? i : sn) : which == 1 ? i : in ? i + 1 : i;
            }
        }
        if constexpr (indexed) { if (!it && n && which % 2) { pos = static_cast<int64_t>(op.c % n); must(call([&] { it.emplace(t.find_index(static_cast<typename C::Index>(pos))); })); } }
        if constexpr (summed && C::nonneg) {
            if (!it && which == 4) {
                int64_t target = n ? fold(m, op.c % (n + 1)) + (op.d & 1) : static_cast<int64_t>(op.d & 3), acc = 0;
                while (pos < sn && (acc += static_cast<int64_t>(C::summand(m[static_cast<size_t>(pos)]))) < target) ++pos;
                must(call([&] { it.emplace(t.sum_lower_bound(static_cast<typename C::Sum>(target))); }));
            }
        }
        if constexpr (has_min) {
            if (!it && n) {
                must(call([&] { it.emplace(t.min_element()); }));
                Elem e{0, 0};
                must(call([&] { e = get(it->get()); }));
                int64_t x = C::mm(m[0]); for (auto& y : m) if (C::mmless(C::mm(y), x)) x = C::mm(y);
                same(C::mm(e), x, "minmax", "min_element", "lookup", -1);
                return;
            }
        }
        if (!it) return;
        const char* cls = which < 3 && ordered ? "keys" : indexed && which % 2 ? "index" : "sums";
        Elem e{-1, -1}; bool end = false;
        must(call([&] { end = *it == t.end(); if (!end) e = get(it->get()); }));
        if (end != (pos == sn)) wrong(cls, "end of the tree", "lookup", pos, end, pos == sn);
        if (!end) same(e, m[static_cast<size_t>(pos)], cls, "element", "lookup", pos);
        check_it(t, m, *it, pos, op_seed(op, 42), "result of a lookup");
    }

    void misuse(Client& c, Op const& op) {
        Target g = target(c, op);
        if (g.slot < 0) return;
        Model const& m = *g.m;
        size_t n = m.size();
        switch (op.kind) {
            case kXUpdThrow: {
                if (!n) return;
                size_t i = op.b % n;
                auto thrower = [](auto const& v) { if (sim_mode) throw UpdError{1}; return v; };
                reject(c, op, g, m[i], true, [&](auto& t, Value&) {
                    if constexpr (ordered) { if (op.c & 1) { sim_mode_guard gd(0); typename C::Key key = C::key(m[i].k); gd.restore(); (void)t.update_key(key, thrower); return; } }
                    if constexpr (indexed) { if (op.c & 2) { (void)t.update_index(static_cast<typename C::Index>(i), thrower); return; } }
                    auto it = t.cbegin(); it += static_cast<int64_t>(i);
                    (void)t.update(it, thrower);
                });
                return;
            }
            case kXProxyMismatch: {
                if constexpr (safety && C::subscript == 1) {
                    if (g.per) { g.per = false; g.slot = pick_t(c, op.a); if (g.slot < 0) return; g.m = &c.t[g.slot].m; }
                    int64_t k = some_key(*g.m, op.b, op.b & 1), k2 = C::clamp_key(k + 1 + static_cast<int64_t>(op.c % 5));
                    if (k == k2) return;
                    typename C::Key key = C::key(k);
                    Elem e = fresh(op.d); e.k = k2;
                    reject(c, op, g, e, false, [&](auto& t, Value& a) { if constexpr (transient<decltype(t)>) { if (op.d & 1) t[key] = std::as_const(a); else if (op.d & 2) t[key] = a; else t[key] = std::move(a); } });
                }
                return;
            }
            case kXEmptyMinMax: {
                if constexpr (safety && (has_min || has_max)) {
                    if (n && (op.c & 3)) {                    // an empty or reversed range of a tree with elements
                        size_t x = op.b % (n + 1), y = x + (op.d >> 4) % (n + 1 - x);
                        if (op.d & 8) y = x;
                        auto sx = static_cast<int64_t>(x), sy = static_cast<int64_t>(y);
                        auto query = [&](auto& tree, auto const& from, auto const& to) {
                            if constexpr (has_min) {
                                if (!has_max || (op.d & 1)) { if (op.d & 2) (void)C::mm_of(tree.min(from, to)); else (void)tree.min_element(from, to); return; }
                            }
                            if constexpr (has_max) { if (op.d & 2) (void)C::mm_of(tree.max(from, to)); else (void)tree.max_element(from, to); }
                        };
                        reject(c, op, g, Elem{0, 0}, false, [&](auto& t, Value&) {
                            using Tr = std::remove_reference_t<decltype(t)>;
                            if (op.d & 4) { auto u = make_it<rev_it<Tr>>(t, n, sx - 1, op.c >> 2), w = make_it<rev_it<Tr>>(t, n, sy - 1, op.c >> 4); query(t, u, w); }
                            else { auto u = make_it<fwd_it<Tr>>(t, n, sy, op.c >> 2), w = make_it<fwd_it<Tr>>(t, n, sx, op.c >> 4); query(t, u, w); }
                        });
                        return;
                    }
                    if (n) {                                  // make one
                        bool per = g.per; g = Target{};
                        for (int i = 0; i < kT && !per; ++i) if (c.t[i].o && c.t[i].m.empty()) { g.slot = i; g.m = &c.t[i].m; }
                        for (int i = 0; i < kP && per; ++i) if (c.p[i].o && c.p[i].m.empty()) { g.slot = i; g.m = &c.p[i].m; g.per = true; }
                        if (g.slot < 0) return;
                    }
                    reject(c, op, g, Elem{0, 0}, false, [&](auto& t, Value&) {
                        auto const& ct = std::as_const(t);
                        bool range = (op.d & 1) != 0, nonconst = (op.d & 2) != 0;
                        if constexpr (has_min) {
                            if (!has_max || (op.b & 1)) {
                                if (op.b & 2) { if (range) (void)C::mm_of(ct.min(ct.cbegin(), ct.cend())); else (void)C::mm_of(ct.min()); }
                                else if (range) (void)ct.min_element(ct.crbegin(), ct.crend());
                                else if (nonconst) (void)t.min_element();
                                else (void)ct.min_element();
                                return;
                            }
                        }
                        if constexpr (has_max) {
                            if (op.b & 2) { if (range) (void)C::mm_of(ct.max(ct.cbegin(), ct.cend())); else (void)C::mm_of(ct.max()); }
                            else if (range) (void)ct.max_element(ct.crbegin(), ct.crend());
                            else if (nonconst) (void)t.max_element();
                            else (void)ct.max_element();
                        }
                    });
                }
                return;
            }
            case kXCompare: {
                if constexpr (safety) {
                    int s2 = -1;
                    if (g.per) { for (int i = 0; i < kP; ++i) if (c.p[i].o && i != g.slot) s2 = i; }
                    else { for (int i = 0; i < kT; ++i) if (c.t[i].o && i != g.slot) s2 = i; }
                    if (s2 < 0) return;
                    auto cmp = [&](auto const& x, auto const& y) { bool r; switch (op.c % 4) { case 0: r = x < y; break; case 1: r = x > y; break; case 2: r = x <= y; break; default: r = x >= y; break; } (void)r; };
                    reject(c, op, g, Elem{0, 0}, false, [&](auto& t, Value&) {
                        auto& other = [&]() -> auto& { if constexpr (transient<decltype(t)>) return *c.t[s2].o; else return std::as_const(*c.p[s2].o); }();
                        switch (op.b % 5) {
                            case 0: cmp(t.cbegin(), other.cend()); break;
                            case 1: cmp(t.crbegin(), other.crend()); break;
                            case 2: cmp(t.begin(), other.begin()); break;
                            case 3: cmp(t.rend(), other.rbegin()); break;
                            default:
                                if constexpr (has_min) (void)C::mm_of(t.min(t.cbegin(), other.cend()));
                                else if constexpr (has_max) (void)t.max_element(t.cbegin(), other.cend());
                                else cmp(t.end(), other.end());
                                break;
                        }
                    });
                }
                return;
            }
            case kXFill: {
                if ((F & fShallow) == 0) return;
                uint32_t total = 8 + op.b % 60;
                for (uint32_t j = 0; j < total; ++j) {
                    Op o = op;
                    o.fail_alloc = 0; o.fail_elem = 0; o.flags &= static_cast<uint8_t>(~4);
                    size_t sz = g.m->size();
                    size_t pos = (op.c & 3) == 0 ? sz : (op.c & 3) == 1 ? 0 : (op.c & 3) == 2 ? (op.d + j * 7919u) % (sz + 1) : op.d % (sz + 1);
                    Elem e;
                    if (!elem_for(*g.m, pos, false, op.d + j, e)) continue;
                    int64_t before = rep->ctr[kDepthLimit];
                    bool ok;
                    if (pos == sz) ok = modify(c, o, g, e, gInsert, -1, [&](auto& t, Value& a) { return t.push_back(std::move(a)); }, [&](Model& mm) { mm.push_back(e); });
                    else ok = insert_it(c, o, g, pos, e, j, op.b >> 8);
                    if (!ok && rep->ctr[kDepthLimit] - before > 0 && j + 3 < total) j = total - 3;
                }
                return;
            }
            default: return;
        }
    }

    // ----------------------------------------------------------------------------------------------------- dispatcher
    void modification(Client& c, Op const& op) {
        Target g = target(c, op);
        if (g.slot < 0) return;
        Model const& m0 = *g.m;
        size_t n = m0.size();
        Elem e;
        switch (op.kind) {
            case kPushBack:
                if (n >= kCap || !elem_for(m0, n, false, op.b, e)) return;
                modify(c, op, g, e, gInsert, -1, [&](auto& t, Value& a) { return on(t, op.c >> 4, a, e, [&](auto& tree, auto&&... x) { if (op.c & 1) return tree.push_back(std::forward<decltype(x)>(x)...); return tree.emplace_back(std::forward<decltype(x)>(x)...); }); }, [&](Model& m) { m.push_back(e); });
                return;
            case kPushFront:
                if (n >= kCap || !elem_for(m0, 0, false, op.b, e)) return;
                modify(c, op, g, e, gInsert, -1, [&](auto& t, Value& a) { return on(t, op.c >> 4, a, e, [&](auto& tree, auto&&... x) { if (op.c & 1) return tree.push_front(std::forward<decltype(x)>(x)...); return tree.emplace_front(std::forward<decltype(x)>(x)...); }); }, [&](Model& m) { m.insert(m.begin(), e); });
                return;
            case kPopBack: case kPopFront: {
                if (!n) return;
                bool back = op.kind == kPopBack;
                Elem out{-1, -1}, want = back ? m0.back() : m0.front();
                bool ok = modify(c, op, g, Elem{0, 0}, gErase, -1, [&](auto& t, Value&) { return pop(t, back, &out); }, [&](Model& m) { if (back) m.pop_back(); else m.erase(m.begin()); });
                if (ok && !g.per) same(out, want, "contents", "popped element", "pop", -1);
                return;
            }
            case kInsIt: { size_t pos = op.b % (n + 1); if (n >= kCap || !elem_for(m0, pos, false, op.d, e)) return; insert_it(c, op, g, pos, e, op.c & 3, op.c >> 2); return; }
            case kAsgIt: { if (!n) return; size_t pos = op.b % n; if (!elem_for(m0, pos, true, op.d, e)) return; assign_it(c, op, g, pos, e, op.c & 3, op.c >> 2); return; }
            case kUpdIt: { if (!n) return; size_t pos = op.b % n; if (!elem_for(m0, pos, true, op.d, e)) return; update_it(c, op, g, pos, e, op.c & 3, op.c >> 2); return; }
            case kEraIt: { if (!n) return; erase_it(c, op, g, op.b % n, op.c & 3, op.c >> 2); return; }
            case kClear: {
                int s = pick_t(c, op.a); if (s < 0) return;
                Target gt; gt.slot = s; gt.m = &c.t[s].m;
                if (modify(c, op, gt, Elem{0, 0}, gFree, -1, [&](auto& t, Value&) { if constexpr (transient<decltype(t)>) t.clear(); else return t; }, [&](Model& m) { m.clear(); })) c.t[s].owned = true;
                return;
            }
            case kAlias: alias(c, op, g); return;
            case kBulk: bulk(c, op, g.per && (op.b & 7) ? only_t(c, op, g) : g); return;
            case kDrain: drain(c, op, g.per && (op.b & 7) ? only_t(c, op, g) : g); return;
            default: return;
        }
    }
    Target only_t(Client& c, Op const& op, Target g) {
        int s = pick_t(c, op.a);
        if (s < 0) return g;
        Target r; r.slot = s; r.m = &c.t[s].m;
        return r;
    }

    void exec(Client& c, Op const& op) {
        op_begin(op);
        arm_alloc(0); arm_elem(0);
        cur_op_uid = op.uid; cur_op_kind = op.kind;           // for messages; another client may overwrite them
        tr(op.uid);
        if (op.kind <= kEraIt || op.kind == kClear || op.kind == kAlias || op.kind == kBulk || op.kind == kDrain) modification(c, op);
        else if (op.kind <= kUpdateKey) key_ops(c, op);
        else if (op.kind <= kUpdIdx) index_ops(c, op);
        else if (op.kind <= kPxSwap) proxy_ops(c, op);
        else if (op.kind == kSort) sort(c, op);
        else if (op.kind == kAlgo) algorithm(c, op);
        else if (op.kind == kSweep) op_sweep(c, op);
        else if (op.kind == kCost) op_cost(c, op);
        else if (op.kind == kEffort) op_steps_(c, op);
        else if (op.kind == kHoard) hoard(c, op);
        else if (op.kind == kChurn) churn(c, op);
        else if (op.kind == kLarge) large(c, op);
        else if (op.kind <= kXMissAt || op.kind == kXUpdMismatch) key_ops(c, op);
        else if (op.kind <= kXFill) misuse(c, op);
        else if (op.kind <= kNewP) conversions(c, op);
        else if (op.kind <= kCrash) communicate(c, op);
        else if (op.kind <= kItStep) iterator_ops(c, op);
        else if (op.kind <= kPrWrite) held_proxy_ops(c, op);
        else reads(c, op);
        Rng r(op_seed(op, 51));
        if (par.audit && r.chance(1, par.audit)) audit_client(c, op_seed(op, 52), r.chance(1, 4) ? 64 : 8, "audit of all trees of the client");
        op_end();
    }

    // --------------------------------------------------------------------------------------------------- whole run
    static void body(int id, void* w) {
        auto* world = static_cast<World*>(w);
        Client& c = world->cl[id];
        for (auto const& op : c.ops) world->exec(c, op);
    }
    static void run(const Op* ops, size_t n) {
        auto* w = new World;
        w->go(ops, n);
    }
    void go(const Op* ops, size_t n) {
        elem_reset();
        for (int i = 0; i < kMaxFibers; ++i) cl[i].id = i;
        for (size_t i = 0; i < n; ++i) { int c = ops[i].client; if (c >= 1 && c <= static_cast<int>(par.clients)) cl[c].ops.push_back(ops[i]); }
        setup();
        run_clients(static_cast<int>(par.clients), body, this);
        finish();
        finish_run();
    }
    void setup() {
        Rng r(par.seed ^ 0x5E70);
        Op op; op.kind = kBulk; op.uid = 0xfffff0u;
        cur_op_uid = op.uid; cur_op_kind = op.kind;
        Client& c = cl[0];
        T* o = build<T>(op, [&](void* m) { return new (m) T(); });
        put_t(c, 0, o, Model{}, true);
        Target g; g.slot = 0; g.m = &c.t[0].m;
        uint32_t style = r.below(4), size = std::min<uint32_t>(par.bulk * C::bulk_mul, static_cast<uint32_t>(kCap * 3 / 4));
        uint32_t sparse = r.below(3);
        uint32_t build_to = sparse == 0 ? size : size + size / 2;
        uint32_t save = oracle_mask; oracle_mask = 0;
        quiet_transcript++;
        for (uint32_t i = 0; i < build_to && c.t[0].m.size() < kCap; ++i) {
            size_t k = c.t[0].m.size(), pos = style == 0 ? k : style == 1 ? 0 : style == 2 ? r.below(static_cast<uint32_t>(k) + 1) : k / 2;
            Elem e;
            if (!elem_for(c.t[0].m, pos, false, static_cast<uint32_t>(r.next()), e)) continue;
            Value v = C::make(e.k, e.v);
            must_build(call([&] { TI it = make_it<TI>(*c.t[0].o, k, static_cast<int64_t>(pos), 1); c.t[0].o->insert(it, std::move(v)); }), [&] { c.t[0].m.insert(c.t[0].m.begin() + static_cast<int64_t>(pos), e); });
        }
        uint32_t cut = c.t[0].m.empty() ? 0 : r.below(static_cast<uint32_t>(c.t[0].m.size()));
        while (sparse && c.t[0].m.size() > size) {
            size_t k = c.t[0].m.size(), pos = sparse == 1 ? std::min<size_t>(cut, k - 1) : r.below(static_cast<uint32_t>(k));
            must(call([&] { TI it = make_it<TI>(*c.t[0].o, k, static_cast<int64_t>(pos), 0); c.t[0].o->erase(it); }));
            c.t[0].m.erase(c.t[0].m.begin() + static_cast<int64_t>(pos));
        }
        quiet_transcript--;
        oracle_mask = save;
        audit(std::as_const(*c.t[0].o), c.t[0].m, oracle_mask & kAllReads, par.seed, 40, "initial tree");
        P* base = build<P>(op, [&](void* m) { return new (m) P(std::as_const(*c.t[0].o).persistent()); }, 0);
        for (int i = 1; i <= static_cast<int>(par.clients); ++i) {
            Client& x = cl[i];
            put_p(x, 0, build<P>(op, [&](void* m) { return new (m) P(std::as_const(*base)); }, 0), c.t[0].m);
            if (par.tight ? r.chance(1, 4) : r.chance(2, 3)) put_t(x, 0, build<T>(op, [&](void* m) { return new (m) T(std::as_const(*base).transient()); }, 0), c.t[0].m, false);
            if (!par.tight && r.chance(1, 2)) put_t(x, 1, build<T>(op, [&](void* m) { return new (m) T(); }, 1), Model{}, true);
        }
        if (par.tight > 1) { must(call([&] { base->~P(); })); tracked_free(base); clear_t(c, 0); return; }
        pub[0] = new Pub{base, c.t[0].m, 1, {}, {}};
        stable(std::as_const(*base), pub[0]->m, pub[0]->fp, "shared tree");
        hb_release(pub[0]->clk);
        if (r.chance(1, 2)) clear_t(c, 0);
        if (oracle_mask & kStepBound) build_ladder();
    }
    template <typename Fn> void must_build(int o, Fn&& f) {
        if (o == oLogic && full(std::as_const(*cl[0].t[0].o))) return;
        must(o);
        f();
    }
    void finish() {
        Op op; op.kind = kRead; op.uid = 0xfffff1u;
        cur_op_uid = op.uid; cur_op_kind = op.kind;
        arm_alloc(0); arm_elem(0);
        Rng r(par.seed ^ 0xF1417);
        drop_ladder();
        for (int i = 0; i < kMaxFibers; ++i) audit_client(cl[i], par.seed + static_cast<uint64_t>(i), 24, "final audit");
        for (auto& p : pub) if (p) { audit(std::as_const(*p->o), p->m, oracle_mask & kAllReads, par.seed, 24, "final audit of a shared tree"); stable(std::as_const(*p->o), p->m, p->fp, "final audit of a shared tree"); }
        // drop everything in a random order, except for one tree
        struct D { int kind, cli, slot; };
        std::vector<D> all;
        for (int i = 0; i < kMaxFibers; ++i) {
            for (auto& h : cl[i].it) h = HeldIt{};
            for (auto& h : cl[i].pr) h = HeldPr{};
            for (int s = 0; s < kT; ++s) if (cl[i].t[s].o) all.push_back({0, i, s});
            for (int s = 0; s < kP; ++s) if (cl[i].p[s].o) all.push_back({1, i, s});
            for (int s = 0; s < 2; ++s) if (cl[i].att[s]) all.push_back({2, i, s});
            if (!inbox[i].empty()) all.push_back({3, i, 0});
        }
        for (int s = 0; s < 2; ++s) if (pub[s]) all.push_back({4, 0, s});
        for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(static_cast<uint32_t>(i))]);
        size_t keep_one = all.size();
        for (size_t i = 0; i < all.size(); ++i) if (all[i].kind <= 1) keep_one = i;
        for (size_t i = 0; i < all.size(); ++i) {
            if (i == keep_one) continue;
            D d = all[i];
            switch (d.kind) {
                case 0: clear_t(cl[d.cli], d.slot); break;
                case 1: clear_p(cl[d.cli], d.slot); break;
                case 2: release_pub(cl[d.cli].att[d.slot]); cl[d.cli].att[d.slot] = nullptr; break;
                case 3: { auto q = std::move(inbox[d.cli]); inbox[d.cli].clear(); for (auto& m : q) drop_msg(m); break; }
                default: release_pub(pub[d.slot]); pub[d.slot] = nullptr;
            }
        }
        if (keep_one < all.size()) {
            D d = all[keep_one];
            Client& c = cl[d.cli];
            if (d.kind == 0) audit(std::as_const(*c.t[d.slot].o), c.t[d.slot].m, oracle_mask & kAllReads, par.seed, 24, "last tree");
            else audit(std::as_const(*c.p[d.slot].o), c.p[d.slot].m, oracle_mask & kAllReads, par.seed, 24, "last tree");
            if ((F & fLeakProbe) && (oracle_mask & kLeaks)) {
                // nothing beyond what the last tree reaches is retained: copying every node of it takes exactly as
                // many allocations as blocks are alive
                T* t = d.kind == 0 ? c.t[d.slot].o : build<T>(op, [&](void* m) { return new (m) T(std::as_const(*c.p[d.slot].o).transient()); }, 0);
                Model m = d.kind == 0 ? c.t[d.slot].m : c.p[d.slot].m;
                if (d.kind == 1) clear_p(c, d.slot);
                int64_t live = live_blocks();
                must(call([&] { P p = std::as_const(*t).persistent(); }));
                int64_t nodes = m.empty() ? 1 : sweep(*t, m, 0, r);
                if (live != nodes) violation("retained-memory", "%lld blocks are alive while the only tree left has %lld nodes", static_cast<long long>(live), static_cast<long long>(nodes));
                if (live_blocks() != nodes) violation("retained-memory", "%lld blocks are alive while the only tree left has %lld nodes", static_cast<long long>(live_blocks()), static_cast<long long>(nodes));
                if (d.kind == 1) put_t(c, 0, t, std::move(m), false); 
                else c.t[d.slot].m = std::move(m);
                clear_t(c, d.kind == 1 ? 0 : d.slot);
            } else if (d.kind == 0) clear_t(c, d.slot); else clear_p(c, d.slot);
        }
        tr(static_cast<uint64_t>(live_blocks()));
        if (oracle_mask & kLeaks) {
            if (live_blocks()) violation("leak", "%lld blocks (%lld bytes) are still allocated after all trees are gone", static_cast<long long>(live_blocks()), static_cast<long long>(live_bytes()));
            if (elems_alive()) violation("leak", "%lld elements were never destroyed", static_cast<long long>(elems_alive()));
        }
    }
