// C09: damaged documents
#include "model_history.hpp"
using namespace ref;

namespace {
// --- mutations of one node of a document ---
struct Node {
    Json::Value* v;
    Json::Value* parent;
    std::string path, key;
};
void walk(Json::Value& v, Json::Value* parent, std::string const& path, std::string const& key, std::vector<Node>& out) {
    out.push_back({&v, parent, path, key});
    if (v.isObject()) {
        for (auto& k : v.getMemberNames()) walk(v[k], &v, path + "/" + k, k, out);
    } else if (v.isArray()) {
        for (Json::ArrayIndex i = 0; i < v.size(); i++) walk(v[i], &v, path + "/" + std::to_string(i), "", out);
    }
}
enum { REMOVE, NONE, TEXT, NUMBER, FRACTION, TRUTH, LIST, OBJECT, RENAME, SHORTER, EMPTIED, LONGER, NESTED, MINUS, ZERO, PLUS1, PLUS2, TIMES1000, NMUT };
const char* MUT[] = {"removed", "null", "a string", "a number", "a fraction", "true", "an empty array", "an empty object", "renamed", "shortened", "emptied", "lengthened",
                     "wrapped in an array", "-1", "0", "increased by one", "increased by two", "1000 times larger"};
// returns false if the mutation does not apply to (or does not change) the node
bool mutate(Node& n, int m) {
    Json::Value& v = *n.v;
    Json::Value old = v;
    switch (m) {
        case REMOVE:
            if (!n.parent || !n.parent->isObject()) return false;
            {
                Json::Value* p = n.parent;
                std::string k = n.key;
                p->removeMember(k);
            }
            return true;
        case NONE: v = Json::Value(); break;
        case TEXT: v = "text"; break;
        case NUMBER: v = 3; break;
        case FRACTION: v = 0.5; break;
        case TRUTH: v = true; break;
        case LIST: v = Json::Value(Json::arrayValue); break;
        case OBJECT: v = Json::Value(Json::objectValue); break;
        case RENAME:
            if (!n.parent || !n.parent->isObject()) return false;
            {
                Json::Value* p = n.parent;
                std::string k = n.key;
                (*p)["other " + k] = old;
                p->removeMember(k);
            }
            return true;
        case SHORTER:
            if (v.isArray() && v.size())
                v.resize(v.size() - 1);
            else if (v.isString() && v.asString().size())
                v = v.asString().substr(1);
            else
                return false;
            break;
        case EMPTIED:
            if (v.isString())
                v = "";
            else
                return false;  // arrays and objects: LIST, OBJECT
            break;
        case LONGER:
            if (v.isArray()) {
                Json::Value e = v.size() ? v[v.size() - 1] : Json::Value(1);
                v.append(e);
            } else if (v.isString())
                v = v.asString() + "x";
            else
                return false;
            break;
        case NESTED: {
            Json::Value a(Json::arrayValue);
            a.append(old);
            v = a;
            break;
        }
        case MINUS:
        case ZERO:
        case PLUS1:
        case PLUS2:
        case TIMES1000:
            if (!v.isIntegral() || v.isBool()) return false;
            v = m == MINUS ? -1 : m == ZERO ? 0 : m == PLUS1 ? v.asInt() + 1 : m == PLUS2 ? v.asInt() + 2 : v.asInt() * 1000;
            break;
    }
    return v != old || v.type() != old.type();
}
std::string text(Json::Value const& v) {
    Json::FastWriter w;
    return w.write(v);
}
const std::vector<Classes> SETS = {{{"b", 0}, {"a", 1}}, {{"z", 2}, {"b", 3}}};
xmm::TrainingSet* training_set(int set, Shape const& sh) {
    static std::map<std::array<int, 4>, std::unique_ptr<Set>> cache;
    auto& s = cache[{set, sh.dim, sh.bi, sh.din}];
    if (!s) s = build_set(SETS[set], sh);
    return s->ts.get();
}

// --- kinds of objects ---
// A subject creates a document and targets, describes an object completely, and uses an object thoroughly.
template <class T>
struct Subject {
    std::function<Json::Value(int)> doc;                    // variants
    std::function<std::unique_ptr<T>(int)> target;          // 0: fresh
    std::function<std::string(T&)> look;                    // everything observable
    std::function<void(T&, const char*)> use;               // consistency, and memory safety under use
};
template <class T>
void load(Subject<T> const& s, Json::Value const& doc, Json::Value const& good, int t, const char* what) {
    std::unique_ptr<T> x = s.target(t);
    std::string before = s.look(*x), doc_text = text(doc);
    bool threw = false;
    try {
        x->fromJson(doc);
    } catch (...) {
        threw = true;
    }
    vx::step();
    VX_CHECK(text(doc) == doc_text, "loading changes the document");
    if (threw) {
        VX_CHECK(s.look(*x) == before, "a refused document changes the target: %s", what);
        s.use(*x, "the target of a refused document");
        std::unique_ptr<T> fresh = s.target(t);
        s.use(*fresh, "");
        VX_CHECK(s.look(*x) == s.look(*fresh), "the target of a refused document behaves differently afterwards");
        // and a good document is accepted
        x->fromJson(good);
        s.use(*x, "the target of a refused and a good document");
        vx::outcome("refused");
    } else {
        s.use(*x, "the loaded object");
        vx::outcome("accepted");
    }
    vx::state(vx::Hash().adds(doc_text).h);
}
// a node of one document takes the place of the same node in another; or it is loaded alone
template <class T>
void splice(Subject<T> const& s, Json::Value const& good, Json::Value const& other, int targets) {
    int t = vx::pick(targets);
    bool alone = vx::pick(2);
    Json::Value a = good, b = other;
    std::vector<Node> na, nb;
    walk(a, nullptr, "", "", na);
    walk(b, nullptr, "", "", nb);
    int n = vx::pick((int)nb.size());
    if (alone) {
        vx::note("a part of a document: %s; target %d", nb[n].path.c_str(), t);
        load(s, *nb[n].v, good, t, nb[n].path.c_str());
        return;
    }
    Node* where = nullptr;
    for (auto& x : na)
        if (x.path == nb[n].path) where = &x;
    if (!where || *where->v == *nb[n].v) throw vx::Prune();
    std::string path = where->path;
    *where->v = *nb[n].v;
    vx::note("a document with %s from another document; target %d", path.c_str(), t);
    load(s, a, good, t, path.c_str());
}
template <class T>
void run(Subject<T> const& s, int variant, int targets, int key = 0) {
    static std::map<std::pair<int, int>, Json::Value> docs;
    if (!docs.count({key, variant})) docs[{key, variant}] = s.doc(variant);
    Json::Value const& good = docs[{key, variant}];
    Json::Value doc = good;
    std::vector<Node> nodes;
    walk(doc, nullptr, "", "", nodes);
    int t = vx::pick(targets);
    int n = vx::pick((int)nodes.size());
    int m = vx::pick(NMUT);
    std::string path = nodes[n].path;
    if (!mutate(nodes[n], m)) throw vx::Prune();
    vx::note("document %d: %s is %s; target %d", variant, path.c_str(), MUT[m], t);
    load(s, doc, good, t, path.c_str());
}
std::string show(Snap const& s) {
    std::string r = s.likeliest;
    char b[64];
    for (size_t i = 0; i < s.v.size(); i++) {
        snprintf(b, sizeof b, "=%.9g ", s.v[i]);
        r += s.name[i].c_str();
        r += b;
    }
    return r;
}
// a default object has no column names, a loaded one has empty names
Json::Value named(Json::Value d) {
    bool none = true;
    for (auto const& n : d["column_names"]) none &= n.asString().empty();
    if (none) d.removeMember("column_names");
    return d;
}
// what is saved can be loaded again with the same content
template <class T, class F>
void again(T& x, F make, const char* who) {
    Json::Value d = x.toJson();
    auto y = make();
    try {
        y->fromJson(d);
    } catch (std::exception const& e) {
        vx::fail("%s cannot be saved and loaded again: %s", who, e.what());
    }
    VX_CHECK(text(named(y->toJson())) == text(named(d)), "%s changes when saved and loaded again", who);
}

// --- phrases ---
Subject<xmm::Phrase> phrases() {
    Subject<xmm::Phrase> s;
    auto make = [](int v) {
        bool bi = v % 2;
        int dim = bi ? 3 : 2;
        std::unique_ptr<xmm::Phrase> p(new xmm::Phrase(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        p->dimension.set(dim);
        if (bi) p->dimension_input.set(1);
        p->label.set("lab");
        if (v < 2) p->column_names = bi ? std::vector<std::string>{"x", "y", "z"} : std::vector<std::string>{"x", "y"};
        for (int t = 0; t < (v < 2 ? 2 : 3); t++) {
            std::vector<float> f;
            for (int d = 0; d < dim; d++) f.push_back(t * 0.5f - d + v);
            p->record(f);
        }
        return p;
    };
    s.doc = [make](int v) { return make(v)->toJson(); };
    s.target = [make](int t) -> std::unique_ptr<xmm::Phrase> {
        if (t == 0) return std::unique_ptr<xmm::Phrase>(new xmm::Phrase());
        return make(t + 1);
    };
    s.look = [](xmm::Phrase& p) {
        std::string r = text(p.toJson()) + std::to_string(p.size()) + "," + std::to_string(p.inputSize()) + "," + std::to_string(p.outputSize()) +
                        (p.ownMemory() ? "own" : "") + (p.bimodal() ? "bi" : "") + (p.empty() ? "empty" : "");
        for (unsigned t = 0; t < p.size(); t++)
            for (unsigned d = 0; d < p.dimension.get(); d++) r += " " + std::to_string(p.getValue(t, d));
        return r;
    };
    s.use = [](xmm::Phrase& p, const char* who) {
        unsigned n = p.size(), dim = p.dimension.get(), din = p.dimension_input.get();
        VX_CHECK(p.column_names.size() <= dim, "%s has %zu column names for %u dimensions", who, p.column_names.size(), dim);
        VX_CHECK(p.bimodal() ? din >= 1 && din < dim : true, "%s has %u inputs in %u dimensions", who, din, dim);
        VX_CHECK(p.empty() == (n == 0), "%s: empty()", who);
        if (p.bimodal()) VX_CHECK(p.inputSize() == n && p.outputSize() == n, "%s has %u input and %u output frames", who, p.inputSize(), p.outputSize());
        double sum = 0;
        for (unsigned t = 0; t < n; t++)
            for (unsigned d = 0; d < dim; d++) sum += p.getValue(t, d);
        vx::note("%g", sum);
        again(p, [] { return std::unique_ptr<xmm::Phrase>(new xmm::Phrase()); }, who);
        xmm::Phrase c(p);
        p.record(std::vector<float>(dim, 1.5f));
        VX_CHECK(p.size() == n + 1 && p.getValue(n, dim - 1) == 1.5f, "%s cannot be recorded", who);
        VX_CHECK(c.size() == n, "%s: copy", who);
        p.mean(), p.standardDeviation(), p.minmax();
        p = c;
        p.clear();
        VX_CHECK(p.empty() && p.size() == 0, "%s cannot be cleared", who);
    };
    return s;
}
// --- training sets ---
Subject<xmm::TrainingSet> sets() {
    Subject<xmm::TrainingSet> s;
    auto make = [](int v) {
        bool bi = v % 2;
        Shape sh = {bi, bi ? 3 : 2, bi ? 1 : 0};
        std::unique_ptr<xmm::TrainingSet> x(new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        x->dimension.set(sh.dim);
        if (bi) x->dimension_input.set(1);
        for (int i = 0; i < 2 + v / 2; i++) {
            x->addPhrase(i * 3, i % 2 ? "b" : "a");
            for (int t = 0; t < 2; t++) {
                std::vector<float> f;
                for (int d = 0; d < sh.dim; d++) f.push_back(t - 0.5f * d + i + v);
                x->getPhrase(i * 3)->record(f);
            }
        }
        return x;
    };
    s.doc = [make](int v) { return make(v)->toJson(); };
    s.target = [make](int t) -> std::unique_ptr<xmm::TrainingSet> {
        if (t == 0) return std::unique_ptr<xmm::TrainingSet>(new xmm::TrainingSet());
        return make(t + 1);
    };
    s.look = [](xmm::TrainingSet& x) { return text(x.toJson()) + std::to_string(set_hash(x)) + (x.bimodal() ? "bi" : "") + (x.empty() ? "empty" : ""); };
    s.use = [](xmm::TrainingSet& x, const char* who) {
        std::set<std::string> labels;
        for (auto it = x.begin(); it != x.end(); ++it) {
            auto& p = *it->second;
            labels.insert(p.label.get());
            VX_CHECK(p.dimension.get() == x.dimension.get() && p.bimodal() == x.bimodal() && p.dimension_input.get() == x.dimension_input.get(),
                     "%s has phrases of dimension %u (%u) in dimension %u (%u)", who, p.dimension.get(), p.dimension_input.get(), x.dimension.get(), x.dimension_input.get());
        }
        VX_CHECK(labels == x.labels(), "%s: labels", who);
        VX_CHECK(x.column_names.size() == x.dimension.get(), "%s has %zu column names", who, x.column_names.size());
        set_hash(x);
        again(x, [] { return std::unique_ptr<xmm::TrainingSet>(new xmm::TrainingSet()); }, who);
        xmm::TrainingSet c(x);
        if (!x.empty()) {
            x.mean(), x.standardDeviation(), x.minmax();
            for (auto& l : labels) VX_CHECK(x.getPhrasesOfClass(l)->size() >= 1, "%s: class %s", who, l.c_str());
            int first = x.begin()->first;
            x.getPhrase(first)->record(std::vector<float>(x.dimension.get(), 1.f));
            x.getPhrase(first)->label.set("new");
            VX_CHECK(x.labels().count("new"), "%s: relabelling", who);
            x.removePhrase(first);
        }
        x.addPhrase(77, "q");
        x.getPhrase(77)->record(std::vector<float>(x.dimension.get(), 1.f));
        VX_CHECK(x.labels().count("q") && x.getPhrase(77)->size() == 1, "%s: adding a phrase", who);
        x = c;
    };
    return s;
}
// --- gaussians ---
Subject<GD> gaussians() {
    Subject<GD> s;
    auto make = [](int v) {
        bool bi = v & 1, diag = v & 2;
        int dim = v & 4 ? 4 : 3;
        std::unique_ptr<GD> g(new GD(bi, dim, bi ? 1 : 0, covmode(diag)));
        for (int i = 0; i < dim; i++) {
            g->mean[i] = i + v;
            for (int j = 0; j < dim; j++)
                if (!diag)
                    g->covariance[i * dim + j] = i == j ? 2 + i : 0.25 * (i + j);
                else if (i == j)
                    g->covariance[i] = 2 + i;
        }
        g->updateInverseCovariance();
        return g;
    };
    s.doc = [make](int v) { return make(v)->toJson(); };
    s.target = [make](int t) -> std::unique_ptr<GD> {
        if (t == 0) return std::unique_ptr<GD>(new GD());
        return make(t == 1 ? 7 : 4);
    };
    s.look = [](GD& g) { return text(g.toJson()) + std::to_string(g.mean.size()) + "," + std::to_string(g.covariance.size()) + "," + std::to_string(g.output_covariance.size()); };
    s.use = [](GD& g, const char* who) {
        size_t n = g.dimension.get();
        bool bi = g.toJson()["bimodal"].asBool(), diag = g.covariance_mode.get() == GD::CovarianceMode::Diagonal;
        VX_CHECK(g.mean.size() == n && g.covariance.size() == (diag ? n : n * n), "%s has %zu and %zu values in dimension %zu", who, g.mean.size(), g.covariance.size(), n);
        VX_CHECK(!bi || g.dimension_input.get() < n, "%s has %u inputs in dimension %zu", who, g.dimension_input.get(), n);
        again(g, [] { return std::unique_ptr<GD>(new GD()); }, who);
        std::vector<float> x(n, 0.5f);
        try {
            g.likelihood(x.data());
            if (bi) {
                g.likelihood_input(x.data());
                g.likelihood_bimodal(x.data(), x.data() + g.dimension_input.get());
                std::vector<float> out(n - g.dimension_input.get());
                g.regression(std::vector<float>(g.dimension_input.get(), 0.f), out);
            }
        } catch (std::runtime_error const&) {
        }
        GD c(g);
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                if (!diag)
                    g.covariance[i * n + j] = i == j;
                else
                    g.covariance[i] = 1;
        g.updateInverseCovariance();
        VX_CHECK(g.likelihood(x.data()) > 0, "%s: likelihood", who);
        g.covariance_mode.set(covmode(!diag));
        g.updateInverseCovariance();
        VX_CHECK(g.likelihood(x.data()) > 0, "%s: likelihood", who);
        g = c;
    };
    return s;
}
// --- parameters ---
template <class P>
Subject<P> parameters(std::function<void(P&, int)> set) {
    Subject<P> s;
    s.doc = [set](int v) {
        P p;
        set(p, v);
        return p.toJson();
    };
    s.target = [set](int t) {
        std::unique_ptr<P> p(new P());
        if (t) set(*p, t + 1);
        return p;
    };
    s.look = [](P& p) {
        Snap s;
        settings(s, p);
        return show(s) + text(p.toJson());
    };
    s.use = [](P& p, const char* who) {
        Snap s;
        settings(s, p);
        for (size_t i = 0; i < s.v.size(); i++)
            VX_CHECK(std::isfinite(s.v[i]) && s.v[i] >= 0, "%s: %s is %g", who, s.name[i].c_str(), s.v[i]);
        again(p, [] { return std::unique_ptr<P>(new P()); }, who);
        P c(p);
        p = c;
    };
    return s;
}
void set_shared(xmm::SharedParameters& p, int v) {
    p.bimodal.set(v % 2);
    p.dimension.set(3 + v % 2);
    if (v % 2) p.dimension_input.set(2);
    p.em_algorithm_min_iterations.set(3 + v), p.em_algorithm_max_iterations.set(5 + v), p.em_algorithm_percent_chg.set(0.25 * v), p.likelihood_window.set(1 + v);
}
void gmm_values(xmm::ClassParameters<xmm::GMM>& p, int v) { p.gaussians.set(2 + v), p.relative_regularization.set(0.5), p.absolute_regularization.set(0.25), p.covariance_mode.set(covmode(v % 2)); }
void hmm_values(xmm::ClassParameters<xmm::HMM>& p, int v) {
    p.states.set(2 + v), p.gaussians.set(1 + v % 2), p.relative_regularization.set(0.5), p.absolute_regularization.set(0.25), p.covariance_mode.set(covmode(v % 2));
    p.transition_mode.set((xmm::HMM::TransitionMode)(v % 2)), p.regression_estimator.set((xmm::HMM::RegressionEstimator)(v % 3)), p.hierarchical.set(v % 2);
}
template <class C>
Subject<C> configurations(std::function<void(C&, int)> set) {
    Subject<C> s = parameters<C>(set);
    auto full = [](C& c) {
        Snap s;
        settings(s, c);
        std::string r = show(s) + std::to_string((int)c.multithreading) + std::to_string((int)c.multiClass_regression_estimator);
        for (const char* l : {"a", "b", "z"})
            if (c.includes(l)) {
                Snap o;
                settings(o, c[l]);
                r += std::string(" override of ") + l + ": " + show(o);
            }
        return r + text(c.toJson());
    };
    s.look = full;
    auto use = s.use;
    s.use = [use](C& c, const char* who) {
        use(c, who);
        int m = (int)c.multithreading, e = (int)c.multiClass_regression_estimator;
        VX_CHECK(m >= 0 && m <= 2, "%s: multithreading mode %d", who, m);
        VX_CHECK(e >= 0 && e <= 1, "%s: regression estimator %d", who, e);
        for (const char* l : {"a", "b", "z"})
            if (c.includes(l)) {
                Snap o;
                settings(o, c[l]);
                for (double v : o.v) VX_CHECK(std::isfinite(v) && v >= 0, "%s: override %g", who, v);
            }
    };
    return s;
}
void set_cgmm(xmm::Configuration<xmm::GMM>& c, int v) {
    gmm_values(c, v);
    gmm_values(c["b"], v + 1);
    if (v) gmm_values(c["z"], v + 2);
    c.multithreading = (xmm::MultithreadingMode)(v % 3), c.multiClass_regression_estimator = (xmm::MultiClassRegressionEstimator)(v % 2);
}
void set_chmm(xmm::Configuration<xmm::HMM>& c, int v) {
    hmm_values(c, v);
    hmm_values(c["b"], v + 1);
    if (v) hmm_values(c["z"], v + 2);
    c.multithreading = (xmm::MultithreadingMode)(v % 3), c.multiClass_regression_estimator = (xmm::MultiClassRegressionEstimator)(v % 2);
}
// --- models ---
template <class M>
std::unique_ptr<M> model(Kind const& k, int set, int window) {
    std::unique_ptr<M> m(new M(shape(k).bi));
    configure_all(*m, k, 1);
    m->shared_parameters->likelihood_window.set(window);
    if (set >= 0) {
        m->configuration["b"].relative_regularization.set(0.05);
        m->train(training_set(set, shape(k)));
    }
    return m;
}
template <class C>
void use_class(C& c, const char* who);
template <>
void use_class(xmm::SingleClassGMM& c, const char* who) {
    size_t n = c.parameters.gaussians.get();
    VX_CHECK(c.components.size() == n && c.mixture_coeffs.size() == n && c.beta.size() == n, "%s: %zu components for %zu gaussians", who, c.components.size(), n);
    for (auto& g : c.components) {
        size_t d = g.dimension.get();
        bool diag = g.covariance_mode.get() == GD::CovarianceMode::Diagonal;
        VX_CHECK(d == c.shared_parameters->dimension.get() && g.covariance_mode.get() == c.parameters.covariance_mode.get(), "%s: a component of another kind", who);
        VX_CHECK(!c.shared_parameters->bimodal.get() || g.dimension_input.get() == c.shared_parameters->dimension_input.get(), "%s: input dimension of a component", who);
        VX_CHECK(g.mean.size() == d && g.covariance.size() == (diag ? d : d * d), "%s: sizes of a component", who);
    }
}
template <>
void use_class(xmm::SingleClassHMM& c, const char* who) {
    size_t n = c.parameters.states.get();
    VX_CHECK(c.states.size() == n, "%s: %zu states instead of %zu", who, c.states.size(), n);
    bool erg = c.parameters.transition_mode.get() == xmm::HMM::TransitionMode::Ergodic;
    VX_CHECK(c.transition.size() == (erg ? n * n : 2 * n), "%s: %zu transitions", who, c.transition.size());
    if (erg) VX_CHECK(c.prior.size() == n, "%s: prior", who);
    for (auto& s : c.states) {
        VX_CHECK(s.parameters.gaussians.get() == c.parameters.gaussians.get(), "%s: gaussians of a state", who);
        use_class(s, who);
    }
}
void use_model(xmm::GMM&, const char*) {}
void use_model(xmm::HierarchicalHMM& m, const char* who) {
    size_t n = m.size();
    if (!n) return;
    VX_CHECK(m.prior.size() == n && m.exit_transition.size() == n && m.transition.size() == n, "%s: transitions between classes", who);
    for (auto& t : m.transition) VX_CHECK(t.size() == n, "%s: transitions between classes", who);
}
bool small(xmm::ClassParameters<xmm::GMM> const& p) { return p.gaussians.get() < 10; }
bool small(xmm::ClassParameters<xmm::HMM> const& p) { return p.gaussians.get() < 10 && p.states.get() < 10; }
template <class M>
Subject<M> models(Kind const& k) {
    Subject<M> s;
    s.doc = [k](int v) { return model<M>(k, v ? 1 : 0, 3)->toJson(); };
    s.target = [k](int t) -> std::unique_ptr<M> {
        if (t == 0) return std::unique_ptr<M>(new M(shape(k).bi));
        Kind o = k;
        if (t == 2)
            for (auto& q : kinds())
                if (q.gmm == k.gmm && q.bi != k.bi) o = q;
        auto m = model<M>(o, 1, 2);
        m->filter(frame(shape(o), 1));
        return m;
    };
    s.look = [](M& m) { return show(params(m)) + show(configuration(m, {"a", "b", "z"})) + show(results(m)) + text(m.toJson()); };
    s.use = [k](M& m, const char* who) {
        unsigned dim = m.shared_parameters->dimension.get(), din = m.shared_parameters->dimension_input.get();
        bool bi = m.shared_parameters->bimodal.get();
        VX_CHECK(dim >= 1 && (bi ? din >= 1 && din < dim : true), "%s has dimension %u (%u)", who, dim, din);
        VX_CHECK(m.shared_parameters->column_names.size() == dim, "%s: column names", who);
        for (auto& c : m.models) {
            VX_CHECK(c.second.label == c.first, "%s: class %s is labelled %s", who, c.first.c_str(), c.second.label.c_str());
            use_class(c.second, who);
        }
        use_model(m, who);
        again(m, [] { return std::unique_ptr<M>(new M()); }, who);
        if (dim > 100) return;
        M copy(m);
        m.reset();
        std::vector<float> x(bi ? din : dim, 0.5f);
        if (!m.size())
            VX_CHECK(vx::throws([&] { m.filter(x); }), "a model without classes filters");
        else
            for (int i = 0; i < 2; i++) {
                m.filter(x);
                VX_CHECK(m.results.smoothed_likelihoods.size() == m.size() && m.models.count(m.results.likeliest), "%s: results", who);
            }
        if (m.configuration.multithreading == xmm::MultithreadingMode::Sequential && m.size()) {
            Shape sh = {bi, (int)dim, bi ? (int)din : 0};
            m.shared_parameters->em_algorithm_max_iterations.set(1);
            if (small(m.configuration["z"]) && dim < 10) {
                m.train(training_set(1, sh), "z");
                VX_CHECK(m.hasClass("z"), "%s: training a class", who);
            }
            m.filter(x);
            m.removeClass(m.models.begin()->first);
            if (m.size()) m.filter(x);
        }
        m = copy;
    };
    return s;
}
// --- single classes ---
template <class C>
struct Owned : C {
    std::shared_ptr<xmm::SharedParameters> sp;
    Owned(std::shared_ptr<xmm::SharedParameters> p) : C(p), sp(p) {}
    Owned(C const& c, std::shared_ptr<xmm::SharedParameters> p) : C(c), sp(p) {}
};
template <class M, class C>
Subject<C> classes(Kind const& k) {
    Subject<C> s;
    s.doc = [k](int v) { return model<M>(k, v ? 1 : 0, 3)->models["b"].toJson(); };
    s.target = [k](int t) {
        auto m = model<M>(k, 1, 2);
        auto sp = m->shared_parameters;
        if (t == 0) return std::unique_ptr<C>(new C(sp));
        m->filter(frame(shape(k), 1));
        return std::unique_ptr<C>(new C(m->models["z"]));
    };
    s.look = [](C& c) {
        Snap r;
        snap_class(r, "r", c.results);
        return show(class_params(c)) + show(r) + text(c.toJson());
    };
    s.use = [k](C& c, const char* who) {
        if (text(c.toJson()["parameters"]) == "null\n") return;
        bool empty = class_params(c).v.empty();
        Json::Value d = c.toJson();
        // a class that was never trained or loaded has no parts
        if (d[k.gmm ? "components" : "states"].size() == 0) return;
        (void)empty;
        use_class(c, who);
        auto sp = c.shared_parameters;
        again(c, [sp] { return std::unique_ptr<C>(new C(sp)); }, who);
        C copy(c);
        c.reset();
        if (k.gmm) c.filter(frame(shape(k), 1));
        c = copy;
    };
    return s;
}
// --- clusterings ---
Subject<xmm::KMeans> clusterings() {
    Subject<xmm::KMeans> s;
    auto make = [](int v) {
        std::unique_ptr<xmm::KMeans> k(new xmm::KMeans(1 + v));
        k->initialization_mode = xmm::KMeans::InitializationMode::Biased;
        k->configuration.max_iterations.set(3 + v);
        if (v != 2) k->train(training_set(0, shapes()[v == 1 ? 2 : 1]));
        return k;
    };
    s.doc = [make](int v) { return make(v)->toJson(); };
    s.target = [make](int t) { return t ? make(t) : std::unique_ptr<xmm::KMeans>(new xmm::KMeans()); };
    s.look = [](xmm::KMeans& k) {
        Snap s;
        settings(s, *k.shared_parameters);
        s.add("clusters", k.configuration.clusters.get());
        s.add("max_iterations", k.configuration.max_iterations.get());
        s.add("threshold", k.configuration.relative_distance_threshold.get());
        s.add("start", (int)k.initialization_mode);
        s.addv("centers", k.centers);
        return show(s) + text(k.toJson());
    };
    s.use = [](xmm::KMeans& k, const char* who) {
        unsigned dim = k.shared_parameters->dimension.get(), n = k.configuration.clusters.get();
        VX_CHECK(n >= 1 && dim >= 1 && k.configuration.max_iterations.get() >= 1, "%s: settings", who);
        VX_CHECK(k.centers.empty() || k.centers.size() == n * dim, "%s: %zu values for %u centres of dimension %u", who, k.centers.size(), n, dim);
        again(k, [] { return std::unique_ptr<xmm::KMeans>(new xmm::KMeans()); }, who);
        xmm::KMeans c(k);
        std::vector<float> x(dim, 0.5f);
        k.reset();
        if (k.centers.empty())
            VX_CHECK(vx::throws([&] { k.filter(x); }), "a clustering that is not trained filters");
        else {
            k.filter(x);
            VX_CHECK(k.results.distances.size() == n && k.results.likeliest < n, "%s: results", who);
        }
        if (n < 10) {
            k.train(training_set(0, shapes()[1]));
            k.reset();
            k.filter(std::vector<float>(shapes()[1].dim, 0.f));
        }
        k = c;
    };
    return s;
}
const int SOME[] = {1, 5, 3, 2, 6, 7, 0, 4, 8, 9, 10, 11};
}  // namespace

VX_SCENARIO_SPLIT(phrase, 3) { run(phrases(), vx::pick(2), 3); }
VX_SCENARIO_SPLIT(training_sets, 3) { run(sets(), vx::pick(4), 3); }
VX_SCENARIO_SPLIT(gaussian, 3) { run(gaussians(), vx::pick(4), 3); }
VX_SCENARIO_SPLIT(shared_parameters, 3) { run(parameters<xmm::SharedParameters>(set_shared), vx::pick(2), 3); }
VX_SCENARIO_SPLIT(gmm_parameters, 3) { run(parameters<xmm::ClassParameters<xmm::GMM>>(gmm_values), vx::pick(2), 3); }
VX_SCENARIO_SPLIT(hmm_parameters, 3) { run(parameters<xmm::ClassParameters<xmm::HMM>>(hmm_values), vx::pick(2), 3); }
VX_SCENARIO_SPLIT(gmm_configuration, 3) { run(configurations<xmm::Configuration<xmm::GMM>>(set_cgmm), vx::pick(2), 3); }
VX_SCENARIO_SPLIT(hmm_configuration, 3) { run(configurations<xmm::Configuration<xmm::HMM>>(set_chmm), vx::pick(2), 3); }
VX_SCENARIO_SPLIT(clustering, 3) { run(clusterings(), vx::pick(3), 3); }
VX_SCENARIO_SPLIT(single_classes, 3) {
    int i = SOME[vx::pick(vx::tier(4, 12))];
    Kind k = kinds()[i];
    if (k.gmm)
        run(classes<xmm::GMM, xmm::SingleClassGMM>(k), 0, 2, i);
    else
        run(classes<xmm::HierarchicalHMM, xmm::SingleClassHMM>(k), 0, 2, i);
}
VX_SCENARIO_SPLIT(whole_models, 3) {
    int i = SOME[vx::pick(vx::tier(3, 12))];
    Kind k = kinds()[i];
    if (k.gmm)
        run(models<xmm::GMM>(k), 0, 3, i);
    else
        run(models<xmm::HierarchicalHMM>(k), 0, 3, i);
}

namespace {
// documents of every kind
std::vector<Json::Value> const& all_documents() {
    static std::vector<Json::Value> d;
    if (d.empty()) {
        d = {phrases().doc(0), phrases().doc(1), sets().doc(0), sets().doc(3), gaussians().doc(1), gaussians().doc(2),
             parameters<xmm::SharedParameters>(set_shared).doc(1), parameters<xmm::ClassParameters<xmm::HMM>>(hmm_values).doc(1),
             configurations<xmm::Configuration<xmm::GMM>>(set_cgmm).doc(1), configurations<xmm::Configuration<xmm::HMM>>(set_chmm).doc(1)};
        for (int i : {1, 5, 3}) {
            if (kinds()[i].gmm) {
                d.push_back(models<xmm::GMM>(kinds()[i]).doc(0));
                d.push_back(classes<xmm::GMM, xmm::SingleClassGMM>(kinds()[i]).doc(0));
            } else {
                d.push_back(models<xmm::HierarchicalHMM>(kinds()[i]).doc(0));
                d.push_back(classes<xmm::HierarchicalHMM, xmm::SingleClassHMM>(kinds()[i]).doc(0));
            }
        }
    }
    return d;
}
template <class T>
void crossed_type(Subject<T> const& s, int n, int targets) {
    load(s, all_documents()[n], s.doc(0), vx::pick(targets), "a document of another type");
}
}  // namespace

// a document of any type for an object of any type
VX_SCENARIO_SPLIT(crossed_types, 2) {
    int type = vx::pick(15), n = vx::pick(16);
    vx::note("a document of type %d for an object of type %d", n, type);
    switch (type) {
        case 0: return crossed_type(phrases(), n, 3);
        case 1: return crossed_type(sets(), n, 3);
        case 2: return crossed_type(gaussians(), n, 3);
        case 3: return crossed_type(parameters<xmm::SharedParameters>(set_shared), n, 3);
        case 4: return crossed_type(parameters<xmm::ClassParameters<xmm::GMM>>(gmm_values), n, 3);
        case 5: return crossed_type(parameters<xmm::ClassParameters<xmm::HMM>>(hmm_values), n, 3);
        case 6: return crossed_type(configurations<xmm::Configuration<xmm::GMM>>(set_cgmm), n, 3);
        case 7: return crossed_type(configurations<xmm::Configuration<xmm::HMM>>(set_chmm), n, 3);
        case 8: return crossed_type(models<xmm::GMM>(kinds()[1]), n, 3);
        case 9: return crossed_type(models<xmm::HierarchicalHMM>(kinds()[5]), n, 3);
        case 10: return crossed_type(classes<xmm::GMM, xmm::SingleClassGMM>(kinds()[1]), n, 2);
        case 11: return crossed_type(classes<xmm::HierarchicalHMM, xmm::SingleClassHMM>(kinds()[5]), n, 2);
        case 12: return crossed_type(models<xmm::HierarchicalHMM>(kinds()[3]), n, 3);
        case 14: return crossed_type(clusterings(), n, 3);
        case 13: return crossed_type(models<xmm::GMM>(kinds()[0]), n, 3);
    }
}
// documents made of parts of two valid ones
VX_SCENARIO_SPLIT(spliced, 4) {
    int type = vx::pick(6);
    static std::map<int, std::pair<Json::Value, Json::Value>> docs;
    auto two = [&](std::function<Json::Value()> a, std::function<Json::Value()> b) -> std::pair<Json::Value, Json::Value>& {
        if (!docs.count(type)) docs[type] = {a(), b()};
        return docs[type];
    };
    switch (type) {
        case 0: {
            auto s = phrases();
            auto& d = two([&] { return s.doc(0); }, [&] { return s.doc(3); });
            return splice(s, d.first, d.second, 3);
        }
        case 1: {
            auto s = sets();
            auto& d = two([&] { return s.doc(1); }, [&] { return s.doc(2); });
            return splice(s, d.first, d.second, 3);
        }
        case 2: {
            auto s = gaussians();
            auto& d = two([&] { return s.doc(1); }, [&] { return s.doc(6); });
            return splice(s, d.first, d.second, 3);
        }
        case 3: {
            auto s = models<xmm::GMM>(kinds()[1]);
            auto& d = two([&] { return s.doc(0); }, [&] { return models<xmm::GMM>(kinds()[0]).doc(1); });
            return splice(s, d.first, d.second, 2);
        }
        case 4: {
            auto s = models<xmm::HierarchicalHMM>(kinds()[5]);
            auto& d = two([&] { return s.doc(0); }, [&] { return models<xmm::HierarchicalHMM>(kinds()[3]).doc(1); });
            return splice(s, d.first, d.second, 2);
        }
        case 5: {
            auto s = models<xmm::HierarchicalHMM>(kinds()[4]);
            auto& d = two([&] { return s.doc(0); }, [&] { return models<xmm::HierarchicalHMM>(kinds()[6]).doc(1); });
            return splice(s, d.first, d.second, 2);
        }
    }
}
