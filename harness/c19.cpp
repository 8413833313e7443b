// C19: copies and assignments of models
#include "model_history.hpp"
using namespace ref;

namespace {
const std::vector<Classes> SETS = {{{"a", 0}, {"b", 1}}, {{"c", 2}, {"b", 0}, {"a", 1}}, {{"b", 2}}};
enum Op { TRAIN0, TRAIN1, TRAINB, WINDOW, SHARED, SETTINGS, OVERRIDE, FILTER, RESET, REMOVE, CLEAR, NEW, NLOCAL };
const char* NAME[] = {"train 2 classes", "train 3 classes", "train b", "window and class transitions", "shared parameters", "settings", "override of a", "filter", "reset", "remove the first class", "clear", "new model"};
enum { COPY = NLOCAL, ASSIGN, SELF, CHAIN, SWAP, NOPS };

// everything that was done to a model, whatever object it was done on
struct Lineage {
    int kind;
    std::vector<int> ops;
    bool copied = false;  // copied since the last reset
    std::string key() const {
        std::string s = std::to_string(kind) + ":";
        for (int o : ops) s += (char)('A' + o);
        return s;
    }
};
void more(xmm::GMM& m, int v) {
    m.configuration.gaussians.set(1 + v % 3);
    m.configuration.relative_regularization.set(0.02 + 0.01 * v);
    m.configuration.multiClass_regression_estimator =
        v % 2 ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
}
void more(xmm::HierarchicalHMM& m, int v) {
    m.configuration.states.set(2 + v % 3);
    m.configuration.relative_regularization.set(0.02 + 0.01 * v);
    m.configuration.hierarchical.set(v % 2);
    m.configuration.multiClass_regression_estimator =
        v % 2 ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
}
template <class P>
void over(P& p, int v) {
    p.absolute_regularization.set(0.05 + 0.01 * v);
    p.covariance_mode.set(v % 2 ? GD::CovarianceMode::Diagonal : GD::CovarianceMode::Full);
}
xmm::TrainingSet* training_set(int set, Shape const& sh) {
    static std::map<std::array<int, 3>, std::unique_ptr<Set>> cache;
    auto& s = cache[{set, sh.dim, sh.bi}];
    if (!s) s = build_set(SETS[set], sh);
    return s->ts.get();
}
// a local operation; n: number of operations before it in the lineage (varies the values)
template <class M>
void apply(std::unique_ptr<M>& m, int kind, int op, int n) {
    Kind const& k = kinds()[kind];
    Shape sh = shape(k);
    switch (op) {
        case TRAIN0:
        case TRAIN1: m->train(training_set(op, sh)); break;
        case TRAINB: m->train(training_set(2, sh), "b"); break;
        case WINDOW:
            m->shared_parameters->likelihood_window.set(2 + n);
            class_structure(*m, n);
            break;
        case SHARED:
            m->shared_parameters->em_algorithm_max_iterations.set(2 + n % 2);
            m->shared_parameters->em_algorithm_min_iterations.set(1 + n % 2);
            m->shared_parameters->em_algorithm_percent_chg.set(0.1 * n);
            m->shared_parameters->column_names.set(std::vector<std::string>(m->shared_parameters->dimension.get(), std::string(n + 1, 'x')));
            break;
        case SETTINGS: more(*m, n); break;
        case OVERRIDE: over(m->configuration["a"], n); break;
        case FILTER:
            if (m->size())
                m->filter(frame(sh, n % 3));
            else
                VX_CHECK(vx::throws([&] { m->filter(frame(sh, 0)); }), "a model without classes filters");
            break;
        case RESET: m->reset(); break;
        case REMOVE:
            if (m->size()) m->removeClass(m->models.begin()->first);
            break;
        case CLEAR: m->clear(); break;
        case NEW:
            m.reset(new M(sh.bi));
            configure_all(*m, k, 1);
            break;
    }
    vx::step();
}
struct View {
    Snap params, conf, results, after[2];
};
template <class M>
void look(M& m, View& v) {
    v.params = ref::params(m);
    v.conf = configuration(m, {"a", "b"});
    v.results = ref::results(m);
}
// filters frames from a reset
template <class M>
void probe(M& m, Shape const& sh, View& v) {
    m.reset();
    if (!m.size()) {
        VX_CHECK(vx::throws([&] { m.filter(frame(sh, 0)); }), "a model without classes filters");
        return;
    }
    for (int i = 0; i < 2; i++) {
        m.filter(frame(sh, 2 - i));
        v.after[i] = ref::results(m);
    }
}
// what a model does that was never copied
template <class M>
View const& oracle(Lineage const& l) {
    static std::map<std::string, View> cache;
    std::string key = l.key();
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    std::unique_ptr<M> m;
    for (size_t i = 0; i < l.ops.size(); i++) apply(m, l.kind, l.ops[i], i);
    View v;
    look(*m, v);
    probe(*m, shape(kinds()[l.kind]), v);
    return cache[key] = v;
}
template <class M>
void check_view(M& m, Lineage const& l, const char* who) {
    View const& e = oracle<M>(l);
    View v;
    look(m, v);
    equal(v.params, e.params, who, 1e-6);
    equal(v.conf, e.conf, who, 1e-6);
    if (!l.copied) equal(v.results, e.results, who, 1e-6);
}
template <class M>
void check_probe(M& m, Lineage const& l, const char* who) {
    View const& e = oracle<M>(l);
    View v;
    probe(m, shape(kinds()[l.kind]), v);
    for (int i = 0; i < 2; i++) equal(v.after[i], e.after[i], who, 1e-6);
}
template <class M>
struct Pair {
    std::unique_ptr<M> m[2];
    Lineage l[2];
    void local(int s, int op) {
        if (op == RESET || op == CLEAR || op == NEW || op <= TRAINB || op == REMOVE) l[s].copied = false;
        apply(m[s], l[s].kind, op, l[s].ops.size());
        l[s].ops.push_back(op);
        if (op == NEW) l[s].ops = {NEW};
    }
    void take(int s) {  // slot s gets the content of the other
        l[s] = l[1 - s];
        l[s].copied = true;
    }
    void copy(int s, int op) {
        M &a = *m[s], &b = *m[1 - s];
        switch (op) {
            case COPY: m[s].reset(new M(b)); break;
            case ASSIGN: a = b; break;
            case SELF: {
                M& same = a;
                VX_CHECK(&(a = same) == &a, "the assignment does not return the model");
                return;
            }
            case CHAIN: {
                M t(b);
                M u(!t.shared_parameters->bimodal.get());
                u = t;
                a = u;
                break;
            }
            case SWAP: {
                M t(a);
                a = b;
                b = t;
                std::swap(l[0], l[1]);
                l[0].copied = l[1].copied = true;
                vx::step();
                return;
            }
        }
        take(s);
        vx::step();
    }
    void check(const char* who, int only = -1) {
        for (int s = 0; s < 2; s++)
            if (only < 0 || s == only) check_view(*m[s], l[s], (std::string(who) + (s ? ": second model" : ": first model")).c_str());
    }
};
template <class M>
void history(int k, int k2, int depth, bool wide) {
    Pair<M> p;
    p.l[0].kind = k, p.l[1].kind = k2;
    int start = wide ? vx::pick(3) : 1;
    p.local(0, NEW), p.local(1, NEW);
    p.local(0, TRAIN0);
    if (start >= 1) p.local(0, OVERRIDE), p.local(1, TRAIN1);
    if (start == 2) p.local(1, FILTER), p.local(0, FILTER);
    vx::note("first model: %s; second model: %s; start %d", name(kinds()[k]).c_str(), name(kinds()[k2]).c_str(), start);
    int copies = 0, last = 0;
    for (int d = 0; d < depth; d++) {
        int c = vx::pick(2 * NOPS - 1);  // swapping is symmetric
        int s = c / NOPS, op = c % NOPS;
        // without a copy nothing is examined: the last operations must leave room for one
        if (op >= COPY && op != SELF) copies++, last = s;
        if (op == SELF) copies++;
        if (d == depth - 1 && !copies) throw vx::Prune();
        if (op < NLOCAL) {
            vx::note("%s model: %s", s ? "second" : "first", NAME[op]);
            p.local(s, op);
            p.check("after the operation", d == depth - 1 ? -1 : 1 - s);
        } else {
            static const char* W[] = {"copy-constructed from", "assigned from", "assigned from itself, not", "assigned through a chain of copies from", "swapped with"};
            vx::note("%s model: %s %s", s ? "second" : "first", W[op - COPY], s ? "the first" : "the second");
            p.copy(s, op);
            p.check("after the operation");
        }
        vx::state(vx::Hash().adds(p.l[0].key()).add(p.l[0].copied).adds(p.l[1].key()).add(p.l[1].copied).h);
    }
    // the source disappears first
    p.m[1 - last].reset();
    check_view(*p.m[last], p.l[last], "once the other model is destroyed");
    if (p.m[last]->size() && vx::thorough()) p.m[last]->filter(frame(shape(kinds()[p.l[last].kind]), 0));
    check_probe(*p.m[last], p.l[last], "outputs once the other model is destroyed");
    vx::outcome(std::to_string(p.m[last]->size()) + " classes");
}
template <class M>
void both_probed(int k, int k2, int depth) {
    // copy, then local operations on both models, then both are filtered in turn
    Pair<M> p;
    p.l[0].kind = k, p.l[1].kind = k2;
    p.local(0, NEW), p.local(1, NEW);
    p.local(0, TRAIN1), p.local(1, TRAIN0);
    int how = vx::pick(4);
    int op = how == 3 ? SWAP : COPY + (how == 2 ? 3 : how);
    vx::note("%s, %s: second model obtained in way %d", name(kinds()[k]).c_str(), name(kinds()[k2]).c_str(), how);
    p.copy(1, op);
    p.check("after the copy");
    for (int d = 0; d < depth; d++) {
        int c = vx::pick(2 * NLOCAL);
        vx::note("%s model: %s", c / NLOCAL ? "second" : "first", NAME[c % NLOCAL]);
        p.local(c / NLOCAL, c % NLOCAL);
        p.check("after the operation");
    }
    // interleaved filtering
    Shape s0 = shape(kinds()[p.l[0].kind]), s1 = shape(kinds()[p.l[1].kind]);
    View const &e0 = oracle<M>(p.l[0]), &e1 = oracle<M>(p.l[1]);
    p.m[0]->reset(), p.m[1]->reset();
    for (int i = 0; i < 2; i++) {
        if (p.m[0]->size()) p.m[0]->filter(frame(s0, 2 - i));
        if (p.m[1]->size()) p.m[1]->filter(frame(s1, 2 - i));
        vx::step(2);
        if (p.m[0]->size()) equal(results(*p.m[0]), e0.after[i], "outputs of the first model", 1e-6);
        if (p.m[1]->size()) equal(results(*p.m[1]), e1.after[i], "outputs of the second model", 1e-6);
    }
}
// pairs of kinds of the same class, of different modality or settings
const int PAIRS[][2] = {{1, 0}, {3, 5}, {6, 4}, {2, 1}, {0, 2}, {7, 3}, {8, 9}, {11, 10}, {5, 8}, {4, 6}};
}  // namespace

VX_SCENARIO_SPLIT(histories, 3) {
    static const int FIRST[] = {1, 2, 0, 3, 4, 5, 6, 7, 8, 9};
    auto& p = PAIRS[FIRST[vx::pick(vx::tier(1, 10))]];
    with_kind(kinds()[p[0]], [&](auto* t) { history<typename std::remove_pointer<decltype(t)>::type>(p[0], p[1], 3, vx::thorough()); });
}
VX_SCENARIO_SPLIT(all_kinds, 3) {
    auto& p = PAIRS[vx::pick(10)];
    with_kind(kinds()[p[0]], [&](auto* t) { history<typename std::remove_pointer<decltype(t)>::type>(p[0], p[1], 2, true); });
}
VX_SCENARIO_SPLIT(independence, 3) {
    auto& p = PAIRS[vx::pick(vx::tier(4, 10))];
    with_kind(kinds()[p[0]], [&](auto* t) { both_probed<typename std::remove_pointer<decltype(t)>::type>(p[0], p[1], vx::tier(2, 3)); });
}
// five classes in up to six dimensions: copied in every way into targets of other sizes, then either one changes
VX_SCENARIO_SPLIT(wide, 4) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int i = vx::pick(2), v = vx::pick(vx::tier(3, 6)), how = vx::pick(5), before = vx::pick(2), change = vx::pick(6);
    with_kind(k, [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        Shape sh = big_shape(k, i);
        auto a = big_copy<M>(k, i, 5, v), e = big_model<M>(k, sh, 5, v);  // e: never copied
        std::unique_ptr<M> b;
        vx::note("%s, dimension %d/%d, variant %d, copied in way %d, change %d", name(k).c_str(), sh.dim, sh.din, v, how, change);
        if (before) a->reset(), a->filter(frame(sh, 0)), a->filter(frame(sh, 1));
        Kind o = k;
        switch (how) {
            case 0: b.reset(new M(*a)); break;
            case 1: b.reset(new M(!sh.bi)); *b = *a; break;
            case 2: b = big_copy<M>(o, 1 - i, 3, v + 1); *b = *a; break;
            case 3: b = big_copy<M>(o, i, 2, v); b->filter(frame(sh, 1)); *b = *a; break;
            case 4: { M c(*a); M d(c); b = big_copy<M>(o, i, 4, v + 1); *b = d; break; }
        }
        equal(params(*b), params(*e), "the copy", 1e-6);
        equal(configuration(*b, labels(5)), configuration(*e, labels(5)), "the copy", 1e-6);
        M *x = change % 2 ? b.get() : a.get(), *y = change % 2 ? a.get() : b.get();
        if (change < 2) {
            Set s(sh.bi, sh.dim, sh.din);
            fill(s, {"a", "e", "q"}, 7);
            x->configuration.reset();
            x->train(&s);
        } else if (change < 4) {
            x->reset();
            for (auto& c : x->models) c.second.parameters.relative_regularization.set(0.5), c.second.label = "other";
            class_structure(*x, v + 1);
            x->shared_parameters->likelihood_window.set(7);
            x->removeClass("b");
            x->filter(frame(sh, 2));
        } else if (x == a.get())
            a.reset();
        else
            b.reset();
        vx::step(3);
        equal(params(*y), params(*e), "the other model after the change", 1e-6);
        equal(configuration(*y, labels(5)), configuration(*e, labels(5)), "the other model after the change", 1e-6);
        y->reset(), e->reset();
        for (int f = 0; f < 6; f++) {
            y->filter(frame(sh, pattern(v % 4, f))), e->filter(frame(sh, pattern(v % 4, f)));
            vx::step(2);
            equal(results(*y), results(*e), "outputs of the other model after the change", 1e-6);
        }
        vx::state(hash(results(*y)));
    });
}
// copies of single classes outlive and ignore their model
VX_SCENARIO(class_copies) {
    auto& p = PAIRS[vx::pick(10)];
    with_kind(kinds()[p[0]], [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        typedef typename std::remove_reference<decltype(std::declval<M>().models.begin()->second)>::type C;
        Pair<M> q;
        q.l[0].kind = p[0], q.l[1].kind = p[1];
        q.local(0, NEW), q.local(1, NEW);
        q.local(0, TRAIN0), q.local(1, TRAIN1);
        if (vx::pick(2)) q.local(0, FILTER), q.local(1, FILTER);
        std::unique_ptr<C> c(new C(q.m[0]->models["a"]));
        int from = vx::pick(3);
        if (from == 1) *c = q.m[1]->models["a"];
        if (from == 2) {
            C d(*c), e(q.m[1]->models["b"]);
            e = d;
            *c = *c;
            c.reset(new C(e));
        }
        int s = from == 1;
        Shape sh = shape(kinds()[p[s]]);
        vx::note("%s, way %d", name(kinds()[p[s]]).c_str(), from);
        // the class itself, in a model of its own
        Lineage l = q.l[s];
        l.ops.clear();
        for (int o : q.l[s].ops)
            if (o != FILTER) l.ops.push_back(o);
        std::unique_ptr<M> own;
        for (size_t i = 0; i < l.ops.size(); i++) apply(own, l.kind, l.ops[i], i);
        C& rc = own->models["a"];
        Snap params = class_params(rc);
        V lik, out;
        int frames = kinds()[p[s]].hier ? 0 : 3;  // a hierarchical class is filtered by its model only
        rc.reset();
        for (int i = 0; i < frames; i++) lik.push_back(rc.filter(frame(sh, i))), out.insert(out.end(), rc.results.output_values.begin(), rc.results.output_values.end());
        int op = vx::pick(7);
        static const int OPS[] = {TRAIN1, TRAINB, FILTER, REMOVE, CLEAR, SETTINGS};
        if (op == 6)
            vx::note("destroy the models"), q.m[0].reset(), q.m[1].reset();
        else
            vx::note("%s", NAME[OPS[op]]), q.local(0, OPS[op]), q.local(1, OPS[op]);
        equal(class_params(*c), params, "copy of a class", 1e-6);
        V lik2, out2;
        c->reset();
        for (int i = 0; i < frames; i++) {
            lik2.push_back(c->filter(frame(sh, i)));
            out2.insert(out2.end(), c->results.output_values.begin(), c->results.output_values.end());
        }
        vx::step(4);
        for (int i = 0; i < frames; i++) VX_NEAR(lik2[i], lik[i], 1e-6, 0, "likelihood %d of the copied class", i);
        VX_CHECK(out2.size() == out.size(), "%zu outputs instead of %zu", out2.size(), out.size());
        for (size_t i = 0; i < out.size(); i++) VX_NEAR(out2[i], out[i], 1e-6, 1e-9, "output %zu of the copied class", i);
        if (op < 6) q.check("models after using the copied class");
    });
}
// no history leaks
VX_SCENARIO_LEAK(leaks) {
    auto& p = PAIRS[vx::pick(2)];
    with_kind(kinds()[p[0]], [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        Pair<M> q;
        q.l[0].kind = p[0], q.l[1].kind = p[1];
        q.local(0, NEW), q.local(1, NEW);
        q.local(0, TRAIN0), q.local(1, TRAIN1);
        for (int d = 0; d < 2; d++) {
            int c = vx::pick(2 * 6), s = c / 6;
            static const int OPS[] = {COPY, ASSIGN, SELF, CHAIN, TRAIN0, FILTER};
            if (OPS[c % 6] >= COPY)
                q.copy(s, OPS[c % 6]);
            else
                q.local(s, OPS[c % 6]);
        }
    });
}
