// C05: values outside a parameter's limits are refused, the others take effect
#include <limits>
#include <memory>
#include "explore.hpp"
#include "xmm.h"
#include "xmmKMeans.hpp"
using namespace xmm;

namespace {
typedef std::vector<std::string> VS;
const double INF = std::numeric_limits<double>::infinity();
const double NANV = std::numeric_limits<double>::quiet_NaN();

enum Role { Plain, Dim, DimIn, Bimodal };
struct Param {
    std::string name;
    std::function<double()> get;
    std::function<void(double)> set;
    double lo, hi;  // of plain parameters
    std::vector<double> values;
    Role role;
};
// values are chosen so that their conversion to the parameter's type is exact
template <class T>
Param num(const char* n, Attribute<T>& a, double lo, double hi, std::vector<double> v, Role r = Plain) {
    return Param{n, [&a] { return (double)a.get(); }, [&a](double x) { a.set((T)x); }, lo, hi, v, r};
}
template <class T>
Param en(const char* n, Attribute<T>& a, int hi) {
    std::vector<double> v;
    for (int i = -1; i <= hi + 2; i++) v.push_back(i);
    v.push_back(1000);
    return Param{n, [&a] { return (double)(int)a.get(); }, [&a](double x) { a.set((T)(int)x); }, 0, (double)hi, v, Plain};
}
const std::vector<double> UDIM = {0, 1, 2, 3, 5};
std::vector<double> uval(bool big = true) {
    std::vector<double> v = {0, 1, 2, 7};
    if (big) v.push_back(2147483647.);
    return v;
}
std::vector<double> REG = {-1, 0, 9.9e-21, 1e-20, 1e-3, 2.5, 1e300, INF, -INF, NANV};

struct View {  // what an object exposes
    std::vector<Param> p;
    std::function<VS()> names;                  // column names
    std::function<void(VS)> setnames;
    bool checknames = true;  // number of names is enforced
    bool bimodal = false;    // fixed modality (when not a parameter)
    bool unset_names = false;
};
void shared(View& v, SharedParameters& s) {
    v.p.push_back(num("bimodal", s.bimodal, 0, 1, {0, 1}, Bimodal));
    v.p.push_back(num("dimension", s.dimension, 0, 0, UDIM, Dim));
    v.p.push_back(num("dimension_input", s.dimension_input, 0, 0, UDIM, DimIn));
    v.p.push_back(num("em_algorithm_min_iterations", s.em_algorithm_min_iterations, 1, 4294967295., uval()));
    v.p.push_back(num("em_algorithm_max_iterations", s.em_algorithm_max_iterations, 0, 4294967295., uval()));
    v.p.push_back(num("em_algorithm_percent_chg", s.em_algorithm_percent_chg, 0, std::numeric_limits<double>::max(),
                      {-1e-3, 0, 1e-9, 0.5, INF, -INF, NANV}));
    v.p.push_back(num("likelihood_window", s.likelihood_window, 1, 4294967295., uval()));
    v.names = [&s] { return s.column_names.get(); };
    v.setnames = [&s](VS n) { s.column_names.set(n); };
}
void config(View& v, ClassParameters<GMM>& c, std::string pre = "") {
    v.p.push_back(num((pre + "gaussians").c_str(), c.gaussians, 1, 4294967295., uval()));
    v.p.push_back(num((pre + "relative_regularization").c_str(), c.relative_regularization, 1e-20, std::numeric_limits<double>::max(), REG));
    v.p.push_back(num((pre + "absolute_regularization").c_str(), c.absolute_regularization, 1e-20, std::numeric_limits<double>::max(), REG));
    v.p.push_back(en((pre + "covariance_mode").c_str(), c.covariance_mode, 1));
}
void config(View& v, ClassParameters<HMM>& c, std::string pre = "") {
    v.p.push_back(num((pre + "states").c_str(), c.states, 1, 4294967295., uval()));
    v.p.push_back(num((pre + "gaussians").c_str(), c.gaussians, 1, 4294967295., uval()));
    v.p.push_back(num((pre + "relative_regularization").c_str(), c.relative_regularization, 1e-20, std::numeric_limits<double>::max(), REG));
    v.p.push_back(num((pre + "absolute_regularization").c_str(), c.absolute_regularization, 1e-20, std::numeric_limits<double>::max(), REG));
    v.p.push_back(en((pre + "covariance_mode").c_str(), c.covariance_mode, 1));
    v.p.push_back(en((pre + "transition_mode").c_str(), c.transition_mode, 1));
    v.p.push_back(en((pre + "regression_estimator").c_str(), c.regression_estimator, 2));
    v.p.push_back(num((pre + "hierarchical").c_str(), c.hierarchical, 0, 1, {0, 1}));
}
void config(View& v, ClassParameters<KMeans>& c, std::string pre = "") {
    v.p.push_back(num((pre + "clusters").c_str(), c.clusters, 1, 4294967295., uval()));
    v.p.push_back(num((pre + "max_iterations").c_str(), c.max_iterations, 1, 4294967295., uval()));
    v.p.push_back(num((pre + "relative_distance_threshold").c_str(), c.relative_distance_threshold, 0, std::numeric_limits<float>::max(),
                      {-0.25, 0, 0.125, 8, INF, -INF, NANV}));
}

// ---- reference: the values of all parameters, and which changes are accepted
struct Ref {
    std::vector<double> x;
    VS names;
    int find(View const& v, Role r) const {
        for (size_t i = 0; i < v.p.size(); i++)
            if (v.p[i].role == r) return (int)i;
        return -1;
    }
    bool bi(View const& v) const {
        int b = find(v, Bimodal);
        return b >= 0 ? x[b] != 0 : v.bimodal;
    }
    bool set(View const& v, int i, double val) {  // false: must be refused
        Param const& q = v.p[i];
        int d = find(v, Dim), di = find(v, DimIn);
        bool b = bi(v);
        switch (q.role) {
            case Plain:
                if (!(val >= q.lo && val <= q.hi)) return false;
                x[i] = val;
                return true;
            case Dim:
                if (val < (b ? 2 : 1)) return false;
                x[i] = val;
                if (x[di] > val - 1) x[di] = val - 1;
                names.resize((size_t)val);
                return true;
            case DimIn:
                if (b ? (val < 1 || val > x[d] - 1) : val != 0) return false;
                x[i] = val;
                return true;
            case Bimodal:
                x[i] = val;
                if (val) {
                    if (x[d] < 2) x[d] = 2, names.resize(2);
                    if (x[di] < 1) x[di] = 1;
                } else
                    x[di] = 0;
                return true;
        }
        return false;
    }
};
Ref snapshot(View const& v) {
    Ref r;
    for (auto& q : v.p) r.x.push_back(q.get());
    if (v.names) r.names = v.names();
    return r;
}
void expect(View const& v, Ref const& r, const char* who) {
    vx::step();
    for (size_t i = 0; i < v.p.size(); i++)
        VX_CHECK(v.p[i].get() == r.x[i], "%s: parameter %s is %.12g, expected %.12g", who, v.p[i].name.c_str(), v.p[i].get(), r.x[i]);
    if (v.names) {
        VS n = v.names();
        VX_CHECK(n.size() == r.names.size(), "%s: %zu column names, expected %zu", who, n.size(), r.names.size());
        for (size_t i = 0; i < n.size(); i++)
            VX_CHECK(n[i] == r.names[i], "%s: column name %zu is '%s', expected '%s'", who, i, n[i].c_str(), r.names[i].c_str());
    }
}
// one change: every parameter x every boundary value, or a list of names
void change(View& v, Ref& r, bool onlydims = false) {
    std::vector<int> idx;
    for (size_t i = 0; i < v.p.size(); i++)
        if (!onlydims || v.p[i].role != Plain) idx.push_back((int)i);
    int nn = v.setnames ? 3 : 0;
    int c = vx::pick((int)idx.size() + nn);
    if (c < (int)idx.size()) {
        Param& q = v.p[idx[c]];
        double val = vx::oneof(q.values);
        Ref before = r;
        bool ok = r.set(v, idx[c], val);
        if (!ok) r = before;
        vx::note("%s.set(%g)%s", q.name.c_str(), val, ok ? "" : "   (must be refused)");
        bool threw = vx::throws([&] { q.set(val); });
        VX_CHECK(threw == !ok, "%s.set(%g) %s", q.name.c_str(), val, ok ? "is within the limits but was refused" : "is outside the limits but was accepted");
    } else {
        int delta = c - (int)idx.size() - 1;  // -1, 0, 1
        int n = (int)r.names.size() + delta;
        VS names;
        static int serial;
        for (int i = 0; i < n; i++) names.push_back(std::string(1, 'a' + (char)(i + delta + 1)) + "x");
        (void)serial;
        vx::note("column_names.set(%d names, dimension %zu)", n, r.names.size());
        bool threw = vx::throws([&] { v.setnames(names); });
        VX_CHECK(threw == (delta != 0), "%d column names for dimension %zu were %s", n, r.names.size(), threw ? "refused" : "accepted");
        if (!delta) r.names = names;
    }
    vx::step();
    expect(v, r, "after the change");
    vx::Hash h;
    for (double d : r.x) h.addf(d);
    for (auto& s : r.names) h.adds(s);
    vx::state(h.h);
}

// ---- kinds
struct Obj {  // an object with value semantics
    virtual ~Obj() {}
    virtual View view() = 0;
    virtual std::unique_ptr<Obj> copy() = 0;
    virtual std::unique_ptr<Obj> fresh() = 0;
    virtual void assign(Obj& o) = 0;
    virtual bool reload(Obj& from) = 0;  // false: no JSON
};
template <class T>
struct Kind : Obj {
    T t;
    std::function<View(T&)> f;
    std::function<T()> mk;
    bool json;
    Kind(T const& t_, std::function<View(T&)> f_, std::function<T()> m_, bool j) : t(t_), f(f_), mk(m_), json(j) {}
    View view() { return f(t); }
    std::unique_ptr<Obj> copy() { return std::unique_ptr<Obj>(new Kind(t, f, mk, json)); }
    std::unique_ptr<Obj> fresh() { return std::unique_ptr<Obj>(new Kind(mk(), f, mk, json)); }
    void assign(Obj& o) { t = static_cast<Kind&>(o).t; }
    bool reload(Obj& from) {
        if (!json) return false;
        jsn(t, static_cast<Kind&>(from).t);
        return true;
    }
    template <class U>
    static void jsn(U& a, U& b) { a.fromJson(b.toJson()); }
};
struct NoJson : GaussianDistribution {};
template <class T>
std::unique_ptr<Obj> kind(std::function<View(T&)> f, std::function<T()> m, bool json = true) {
    return std::unique_ptr<Obj>(new Kind<T>(m(), f, m, json));
}
View vphrase(Phrase& p) {
    View v;
    v.bimodal = p.bimodal();
    v.p.push_back(num("dimension", p.dimension, 0, 0, UDIM, Dim));
    v.p.push_back(num("dimension_input", p.dimension_input, 0, 0, UDIM, DimIn));
    return v;
}
View vset(TrainingSet& s) {
    View v;
    v.bimodal = s.bimodal();
    v.p.push_back(num("dimension", s.dimension, 0, 0, UDIM, Dim));
    v.p.push_back(num("dimension_input", s.dimension_input, 0, 0, UDIM, DimIn));
    v.names = [&s] { return s.column_names.get(); };
    v.setnames = [&s](VS n) { s.column_names.set(n); };
    return v;
}
View vgauss(GaussianDistribution& g) {
    View v;
    v.bimodal = g.dimension.get() > 1;
    v.p.push_back(num("dimension", g.dimension, 0, 0, UDIM, Dim));
    v.p.push_back(num("dimension_input", g.dimension_input, 0, 0, UDIM, DimIn));
    v.p.push_back(en("covariance_mode", g.covariance_mode, 1));
    return v;
}
template <class M>
View vmodel(M& m) {
    View v;
    shared(v, *m.shared_parameters);
    config(v, m.configuration);
    return v;
}
template <class C>
View vparams(C& c) {
    View v;
    config(v, c);
    return v;
}
template <class C>
View vconf(C& c) {  // defaults and two overrides
    View v;
    config(v, c, "default.");
    config(v, c["a"], "a.");
    config(v, c["b"], "b.");
    return v;
}
typedef ClassParameters<KMeans> PKM;
typedef Configuration<KMeans> CKM;
typedef xmm::KMeans KM;
const int KINDS = 20;
std::unique_ptr<Obj> make(int k) {
    switch (k) {
        case 0: return kind<Phrase>(vphrase, [] { return Phrase(MemoryMode::OwnMemory, Multimodality::Unimodal); });
        case 1: return kind<Phrase>(vphrase, [] { return Phrase(MemoryMode::OwnMemory, Multimodality::Bimodal); });
        case 2: return kind<TrainingSet>(vset, [] { return TrainingSet(MemoryMode::OwnMemory, Multimodality::Unimodal); });
        case 3: return kind<TrainingSet>(vset, [] { return TrainingSet(MemoryMode::OwnMemory, Multimodality::Bimodal); });
        case 4: return kind<SharedParameters>([](SharedParameters& s) { View v; shared(v, s); return v; }, [] { return SharedParameters(); });
        case 5: return kind<ClassParameters<GMM>>(vparams<ClassParameters<GMM>>, [] { return ClassParameters<GMM>(); });
        case 6: return kind<ClassParameters<HMM>>(vparams<ClassParameters<HMM>>, [] { return ClassParameters<HMM>(); });
        case 7: return kind<PKM>(vparams<PKM>, [] { return PKM(); });
        case 8: return kind<Configuration<GMM>>(vconf<Configuration<GMM>>, [] { return Configuration<GMM>(); });
        case 9: return kind<Configuration<HMM>>(vconf<Configuration<HMM>>, [] { return Configuration<HMM>(); });
        case 10: return kind<CKM>(vconf<CKM>, [] { return CKM(); });
        case 11: return kind<GaussianDistribution>([](GaussianDistribution& g) { View v = vgauss(g); v.bimodal = false; return v; }, [] { return GaussianDistribution(false, 1); });
        case 12: return kind<GaussianDistribution>(
            [](GaussianDistribution& g) { View v = vgauss(g); v.bimodal = true;
                // an input dimension of zero is accepted by gaussians
                for (auto& q : v.p) if (q.role == DimIn) q.values = {1, 2, 3, 5};
                return v; },
            [] { return GaussianDistribution(true, 2, 1); });
        case 13: return kind<GMM>(vmodel<GMM>, [] { return GMM(false); });
        case 14: return kind<GMM>(vmodel<GMM>, [] { return GMM(true); });
        case 15: return kind<HierarchicalHMM>(vmodel<HierarchicalHMM>, [] { return HierarchicalHMM(false); });
        case 16: return kind<HierarchicalHMM>(vmodel<HierarchicalHMM>, [] { return HierarchicalHMM(true); });
        case 17: return kind<KM>(vmodel<KM>, [] { return KM(); });
        case 18:  // a set with phrases: they follow the set
        case 19: {
            bool bi = k == 19;
            return kind<TrainingSet>(
                [bi](TrainingSet& s) {
                    View v = vset(s);
                    v.setnames = nullptr;
                    v.names = nullptr;
                    // the phrases of the set report the same parameters
                    for (auto& q : v.p) {
                        auto g = q.get;
                        bool dim = q.role == Dim;
                        TrainingSet* ps = &s;
                        q.get = [g, ps, dim] {
                            double x = g();
                            for (auto& p : *ps) {
                                double y = dim ? p.second->dimension.get() : p.second->dimension_input.get();
                                VX_CHECK(x == y, "phrase %d of a training set has %s %g, the set has %g", p.first, dim ? "dimension" : "input dimension", y, x);
                            }
                            return x;
                        };
                    }
                    return v;
                },
                [bi] {
                    TrainingSet s(MemoryMode::OwnMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal);
                    s.dimension.set(3);
                    if (bi) s.dimension_input.set(2);
                    s.addPhrase(1, "a");
                    s.addPhrase(4, "b");
                    if (bi) s.getPhrase(1)->record_input({1, 2}), s.getPhrase(1)->record_output({3});
                    else s.getPhrase(1)->record({1, 2, 3});
                    return s;
                });
        }
    }
    return nullptr;
}
// how the object under test came to be, from a source with its own history
std::unique_ptr<Obj> obtain(std::unique_ptr<Obj>& src, int how) {
    switch (how) {
        case 0: return nullptr;  // the object itself
        case 1: vx::note("  copy it"); return src->copy();
        case 2: {
            vx::note("  assign it to a fresh object");
            auto o = src->fresh();
            o->assign(*src);
            return o;
        }
        case 3: {
            vx::note("  save it and load it into a fresh object");
            auto o = src->fresh();
            if (!o->reload(*src)) throw vx::Prune();
            return o;
        }
        case 4: {
            vx::note("  assign it to itself");
            src->assign(*src);
            return nullptr;
        }
        case 5: {
            vx::note("  load it into itself");
            if (!src->reload(*src)) throw vx::Prune();
            return nullptr;
        }
    }
    return nullptr;
}
}  // namespace

// every boundary value of every parameter, before and after an object is
// copied / assigned / reloaded
VX_SCENARIO(boundaries) {
    int k = vx::pick(KINDS);
    vx::note("kind %d", k);
    auto o = make(k);
    View v = o->view();
    Ref r = snapshot(v);
    change(v, r);
    int how = vx::pick(6);
    bool bigvalues = false;
    for (size_t i = 0; i < r.x.size(); i++) bigvalues |= r.x[i] > 2147483647. || std::isinf(r.x[i]);
    if ((how == 3 || how == 5) && bigvalues) throw vx::Prune();
    auto p = obtain(o, how);
    v = o->view();
    if (p) {
        View w = p->view();
        Ref rw = r;
        expect(w, rw, "the other object");
        expect(v, r, "the source");
        change(w, rw);
        expect(v, r, "the source, after a change to the other object");
    } else {
        expect(v, r, "the object");
        change(v, r);
        if (vx::thorough()) change(v, r);
    }
}

// histories of dimension / input dimension / modality / column names
VX_SCENARIO(dependent_limits) {
    static const int ks[] = {0, 1, 2, 3, 4, 12, 13, 16, 19};
    int k = ks[vx::pick(9)];
    vx::note("kind %d", k);
    auto o = make(k);
    {
        View v = o->view();
        Ref r = snapshot(v);
        int n = vx::tier(3, 4);
        for (int i = 0; i < n; i++) {
            change(v, r, true);
            // the object is replaced by a copy / reload of itself, half-way
            if (i == n - 2) {
                auto p = obtain(o, vx::pick(6));
                if (p) o = std::move(p);
                v = o->view();
                expect(v, r, "the new object");
            }
        }
    }
}

// the generic attribute: limits of its own
namespace {
template <class T>
void attribute_case() {
    static const T vals[] = {(T)0, (T)1, (T)2, (T)3, (T)4, (T)5, (T)6, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()};
    struct S {
        int fired = 0;
        void cb(AttributeBase*) { fired++; }
    } listener;
    Attribute<T> a((T)2, (T)1, (T)5);
    a.onAttributeChange(&listener, &S::cb);
    T value = 2, lo = 1, hi = 5;
    int fired = 0;
    Attribute<T> b(a);
    auto look = [&] {
        VX_CHECK(a.get() == value, "attribute has value %g, expected %g", (double)a.get(), (double)value);
        VX_CHECK(listener.fired == fired, "listener called %d times, expected %d", listener.fired, fired);
        vx::state(vx::Hash().addf((double)value).addf((double)lo).addf((double)hi).h);
        vx::step();
    };
    Attribute<T>* cur = &a;
    bool listened = true;
    int n = vx::tier(3, 4);
    for (int i = 0; i < n; i++) {
        switch (vx::pick(6)) {
            case 0: {
                T x = vals[vx::pick(9)];
                bool silent = vx::pick(2);
                bool ok = x >= lo && x <= hi;
                vx::note("set(%g%s)", (double)x, silent ? ", silently" : "");
                bool threw = vx::throws([&] { cur->set(x, silent); });
                VX_CHECK(threw == !ok, "set(%g) with limits %g..%g was %s", (double)x, (double)lo, (double)hi, threw ? "refused" : "accepted");
                if (ok) {
                    value = x;
                    if (!silent && listened) fired++;
                }
                break;
            }
            case 1: lo = vals[vx::pick(5)]; vx::note("setLimitMin(%g)", (double)lo); cur->setLimitMin(lo); break;
            case 2: hi = vals[2 + vx::pick(4)]; vx::note("setLimitMax(%g)", (double)hi); cur->setLimitMax(hi); break;
            case 3: lo = vals[vx::pick(3)]; hi = vals[3 + vx::pick(3)]; vx::note("setLimits(%g,%g)", (double)lo, (double)hi); cur->setLimits(lo, hi); break;
            case 4:
                vx::note("setLimits()");
                lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
                cur->setLimits();
                break;
            case 5:
                if (cur == &b) throw vx::Prune();
                vx::note("assign to another attribute without listener, continue with that");
                b = a;
                cur = &b;
                listened = false;
                VX_CHECK(b.get() == value, "assigned attribute differs");
                break;
        }
        if (cur == &a) look();
        else {
            VX_CHECK(b.get() == value, "assigned attribute has value %g, expected %g", (double)b.get(), (double)value);
            VX_CHECK(listener.fired == fired, "changing the assigned attribute notified the listener of the source");
        }
    }
}
template <class T>
void vector_case(std::vector<T> v, T below, T above) {
    Attribute<std::vector<T>> a({v[0]}, v[0], v[2], 0);
    unsigned size = 0;
    std::vector<T> value = {v[0]};
    int n = vx::tier(3, 4);
    for (int i = 0; i < n; i++) {
        switch (vx::pick(3)) {
            case 0: {
                int len = vx::pick(4), bad = vx::pick(3);
                std::vector<T> x;
                for (int j = 0; j < len; j++) x.push_back(v[j % 3]);
                if (bad && !len) throw vx::Prune();
                if (bad) x[len - 1] = bad == 1 ? below : above;
                bool ok = !bad && (size == 0 || size == x.size());
                vx::note("set(%d values%s)", len, bad == 1 ? ", last one below" : bad ? ", last one above" : "");
                bool threw = vx::throws([&] { a.set(x); });
                VX_CHECK(threw == !ok, "vector of %d values was %s (size %u)", len, threw ? "refused" : "accepted", size);
                if (ok) value = x;
                break;
            }
            case 1: size = (unsigned)vx::pick(4); vx::note("resize(%u)", size); a.resize(size); value.resize(size); break;
            case 2: {
                vx::note("copy");
                Attribute<std::vector<T>> b(a);
                Attribute<std::vector<T>> c;
                c = b;
                a = c;
                break;
            }
        }
        VX_CHECK(a.get() == value && a.size() == value.size(), "vector attribute differs from the values set");
        for (size_t j = 0; j <= value.size(); j++) {
            bool threw = vx::throws([&] { VX_CHECK(a.at((unsigned)j) == value[j], "at(%zu)", j); });
            VX_CHECK(threw == (j == value.size()), "at(%zu) of %zu values", j, value.size());
        }
        vx::step();
        vx::Hash h;
        for (auto x : value) h.addf((double)x);
        vx::state(h.add(size).h);
    }
}
}  // namespace
VX_SCENARIO(attributes) {
    switch (vx::pick(11)) {
        case 0: attribute_case<int>(); break;
        case 1: attribute_case<unsigned int>(); break;
        case 2: attribute_case<long>(); break;
        case 3: attribute_case<float>(); break;
        case 4: attribute_case<double>(); break;
        case 5: attribute_case<char>(); break;
        case 6: attribute_case<unsigned char>(); break;
        case 7: vector_case<float>({1, 2, 3}, 0.5f, 3.5f); break;
        case 8: vector_case<int>({1, 2, 3}, 0, 4); break;
        case 9: vector_case<double>({1, 2, 3}, 0, std::numeric_limits<double>::quiet_NaN()); break;
        case 10: {  // column names with a size
            Attribute<VS> a;
            a.resize(2);
            VX_CHECK(vx::throws([&] { a.set(VS(1)); }) && vx::throws([&] { a.set(VS(3)); }), "wrong number of strings accepted");
            a.set(VS{"u", "v"});
            VX_CHECK(a.at(0) == "u" && a.at(1) == "v" && vx::throws([&] { a.at(2); }), "strings read back differ");
        }
    }
}
