// Everything a model reports: results after filtering, and parameters.
#pragma once
#include <array>
#include <unordered_map>
#include "model_build.hpp"

namespace ref {
// a name like class.state.mean, interned so that building it costs no allocation
struct Name {
    int id;
    static std::vector<std::string>& texts() {
        static std::vector<std::string> t;
        return t;
    }
    static int intern(std::string const& s) {
        static std::unordered_map<std::string, int> ids;
        auto r = ids.insert({s, (int)texts().size()});
        if (r.second) texts().push_back(s);
        return r.first->second;
    }
    explicit Name(int i) : id(i) {}
    Name(std::string const& s) : id(intern(s)) {}
    Name(const char* s) : id(of(-1, s)) {}
    static int of(int parent, const char* s) {
        static std::vector<std::array<uintptr_t, 3>> cache(8192);
        auto& e = cache[((uintptr_t)s * 31 + (uintptr_t)(parent + 1) * 2654435761u) >> 2 & 8191];
        if (e[0] == (uintptr_t)s && e[1] == (uintptr_t)parent) return (int)e[2];
        int i = intern((parent < 0 ? std::string() : texts()[parent]) + s);
        e = {(uintptr_t)s, (uintptr_t)parent, (uintptr_t)i};
        return i;
    }
    Name operator+(const char* s) const { return Name(of(id, s)); }
    const char* c_str() const { return texts()[id].c_str(); }
    bool operator==(Name const& o) const { return id == o.id; }
};
struct Snap {
    std::vector<Name> name;
    V v;
    std::string likeliest;
    void add(Name n, double x) {
        name.push_back(n);
        v.push_back(x);
    }
    template <class W>
    void addv(Name n, W const& w) {
        add(n + ".size", w.size());
        for (auto x : w) add(n, x);
    }
};
template <class R>
void snap_class(Snap& s, Name l, R const& r) {
    s.add(l + ".instant_likelihood", r.instant_likelihood);
    s.add(l + ".log_likelihood", r.log_likelihood);
    s.addv(l + ".output_values", r.output_values);
    s.addv(l + ".output_covariance", r.output_covariance);
}
template <class R>
void snap_model(Snap& s, R const& r) {
    s.addv("instant_likelihoods", r.instant_likelihoods);
    s.addv("instant_normalized_likelihoods", r.instant_normalized_likelihoods);
    s.addv("smoothed_likelihoods", r.smoothed_likelihoods);
    s.addv("smoothed_normalized_likelihoods", r.smoothed_normalized_likelihoods);
    s.addv("smoothed_log_likelihoods", r.smoothed_log_likelihoods);
    s.likeliest = r.likeliest;
    s.addv("output_values", r.output_values);
    s.addv("output_covariance", r.output_covariance);
}
inline Snap results(xmm::GMM const& m) {
    Snap s;
    snap_model(s, m.results);
    for (auto& c : m.models) {
        snap_class(s, c.first, c.second.results);
        s.addv(Name(c.first) + ".beta", c.second.beta);
    }
    return s;
}
inline void snap_hmm(Snap& s, Name l, xmm::SingleClassHMM const& c) {
    snap_class(s, l, c.results);
    s.add(l + ".progress", c.results.progress);
    s.add(l + ".exit_likelihood", c.results.exit_likelihood);
    s.add(l + ".exit_ratio", c.results.exit_ratio);
    s.add(l + ".likeliest_state", c.results.likeliest_state);
}
inline Snap results(xmm::HierarchicalHMM const& m) {
    Snap s;
    snap_model(s, m.results);
    for (auto& c : m.models) {
        snap_hmm(s, c.first, c.second);
        if (m.configuration.hierarchical.get())
            for (int i = 0; i < 3; i++) s.addv(Name(c.first) + ".alpha_h", c.second.alpha_h[i]);
        else
            s.addv(Name(c.first) + ".alpha", c.second.alpha);
    }
    return s;
}
inline void param_mix(Snap& s, Name l, xmm::SingleClassGMM const& c) {
    s.addv(l + ".mixture_coeffs", c.mixture_coeffs);
    s.add(l + ".components", c.components.size());
    s.add(l + ".gaussians", c.parameters.gaussians.get());
    s.add(l + ".relative_regularization", c.parameters.relative_regularization.get());
    s.add(l + ".absolute_regularization", c.parameters.absolute_regularization.get());
    s.add(l + ".covariance_mode", (int)c.parameters.covariance_mode.get());
    for (auto& g : c.components) {
        s.add(l + ".dimension", g.dimension.get());
        s.add(l + ".dimension_input", g.dimension_input.get());
        s.add(l + ".component.covariance_mode", (int)g.covariance_mode.get());
        s.addv(l + ".mean", g.mean);
        s.addv(l + ".covariance", g.covariance);
    }
}
inline void param_hmm(Snap& s, Name l, xmm::SingleClassHMM const& c) {
    s.addv(l + ".prior", c.prior);
    s.addv(l + ".transition", c.transition);
    s.add(l + ".states", c.parameters.states.get());
    s.add(l + ".gaussians", c.parameters.gaussians.get());
    s.add(l + ".relative_regularization", c.parameters.relative_regularization.get());
    s.add(l + ".absolute_regularization", c.parameters.absolute_regularization.get());
    s.add(l + ".covariance_mode", (int)c.parameters.covariance_mode.get());
    s.add(l + ".transition_mode", (int)c.parameters.transition_mode.get());
    s.add(l + ".regression_estimator", (int)c.parameters.regression_estimator.get());
    s.add(l + ".hierarchical", c.parameters.hierarchical.get());
    s.add(l + ".number of states", c.states.size());
    for (auto& st : c.states) param_mix(s, l + ".state", st);
}
inline void param_class(Snap& s, Name l, xmm::SingleClassGMM const& c) { param_mix(s, l, c); }
inline void param_class(Snap& s, Name l, xmm::SingleClassHMM const& c) { param_hmm(s, l, c); }
inline void param_model(Snap&, xmm::GMM const&) {}
inline void param_model(Snap& s, xmm::HierarchicalHMM const& m) {
    s.addv("prior", m.prior);
    s.addv("exit_transition", m.exit_transition);
    for (auto& t : m.transition) s.addv("transition", t);
}
template <class C>
Snap class_params(C const& c) {
    Snap s;
    s.likeliest = c.label;
    param_class(s, c.label, c);
    return s;
}
template <class M>
Snap params(M const& m) {
    Snap s;
    for (auto& c : m.models) {
        s.likeliest += c.first + "/" + c.second.label + " ";
        param_class(s, c.first, c.second);
    }
    param_model(s, m);
    return s;
}
// global settings of a configuration
inline void settings(Snap& s, xmm::ClassParameters<xmm::GMM> const& p) {
    s.add("gaussians", p.gaussians.get());
    s.add("relative_regularization", p.relative_regularization.get());
    s.add("absolute_regularization", p.absolute_regularization.get());
    s.add("covariance_mode", (int)p.covariance_mode.get());
}
inline void settings(Snap& s, xmm::ClassParameters<xmm::HMM> const& p) {
    s.add("states", p.states.get());
    s.add("gaussians", p.gaussians.get());
    s.add("relative_regularization", p.relative_regularization.get());
    s.add("absolute_regularization", p.absolute_regularization.get());
    s.add("covariance_mode", (int)p.covariance_mode.get());
    s.add("transition_mode", (int)p.transition_mode.get());
    s.add("regression_estimator", (int)p.regression_estimator.get());
    s.add("hierarchical", p.hierarchical.get());
}
inline void settings(Snap& s, xmm::SharedParameters const& p) {
    s.add("bimodal", p.bimodal.get());
    s.add("dimension", p.dimension.get());
    s.add("dimension_input", p.dimension_input.get());
    s.add("em_algorithm_min_iterations", p.em_algorithm_min_iterations.get());
    s.add("em_algorithm_max_iterations", p.em_algorithm_max_iterations.get());
    s.add("em_algorithm_percent_chg", p.em_algorithm_percent_chg.get());
    s.add("likelihood_window", p.likelihood_window.get());
    for (auto& c : p.column_names.get()) s.likeliest += c + "|";
}
template <class M>
Snap configuration(M& m, std::vector<std::string> const& labels) {
    Snap s;
    settings(s, *m.shared_parameters);
    s.add("multithreading", (int)m.configuration.multithreading);
    s.add("multiClass_regression_estimator", (int)m.configuration.multiClass_regression_estimator);
    settings(s, m.configuration);
    for (auto& l : labels) {
        bool has = m.configuration.includes(l);
        s.add("override of " + l, has);
        if (has) settings(s, m.configuration[l]);
    }
    return s;
}
inline void equal(Snap const& a, Snap const& b, const char* what, double rtol = 0, double atol = 0) {
    VX_CHECK(a.v.size() == b.v.size(), "%s: %zu values instead of %zu", what, a.v.size(), b.v.size());
    for (size_t i = 0; i < a.v.size(); i++) {
        VX_CHECK(a.name[i] == b.name[i], "%s: has %s instead of %s", what, a.name[i].c_str(), b.name[i].c_str());
        bool both = std::isnan(a.v[i]) && std::isnan(b.v[i]);
        VX_CHECK(both || vx::near(a.v[i], b.v[i], rtol, atol), "%s: %s is %.9g instead of %.9g", what, a.name[i].c_str(), a.v[i], b.v[i]);
    }
    VX_CHECK(a.likeliest == b.likeliest, "%s: \"%s\" instead of \"%s\"", what, a.likeliest.c_str(), b.likeliest.c_str());
}
inline uint64_t hash(Snap const& s) {
    vx::Hash h;
    for (double x : s.v) h.addf((float)x);
    return h.h;
}
// kinds of models covered by the behavioural checks
struct Kind {
    bool gmm, bi, hier, erg;
    int est, n;    // regression estimator, gaussians or states
    bool diag, mixture;
};
inline std::string name(Kind const& k) {
    return std::string(k.gmm ? "GMM" : k.hier ? "hierarchical HMM" : "non-hierarchical HMM") + (k.bi ? ", bimodal" : "") +
           (k.gmm ? "" : k.erg ? ", ergodic" : ", left-right") + (k.diag ? ", diagonal" : ", full") + (k.mixture ? ", mixture" : "") +
           ", estimator " + std::to_string(k.est) + ", n=" + std::to_string(k.n);
}
inline std::vector<Kind> const& kinds() {
    static const std::vector<Kind> k = {
        {true, false, false, false, 0, 2, false, false},  {true, true, false, false, 0, 2, false, true},
        {true, true, false, false, 0, 1, true, false},    {false, false, true, false, 0, 2, false, false},
        {false, false, false, false, 0, 2, false, false}, {false, true, true, true, 0, 2, true, true},
        {false, true, false, true, 1, 3, false, false},   {false, true, true, false, 2, 3, false, false},
        {false, true, false, false, 0, 2, true, true},    {false, false, true, true, 0, 1, false, false},
        {false, false, false, true, 0, 2, true, false},   {false, true, true, false, 1, 3, true, true},
    };
    return k;
}
inline void configure(xmm::GMM& m, Kind const& k) {
    m.configuration.gaussians.set(k.n);
    m.configuration.covariance_mode.set(covmode(k.diag));
}
inline void configure(xmm::HierarchicalHMM& m, Kind const& k) {
    m.configuration.states.set(k.n);
    m.configuration.covariance_mode.set(covmode(k.diag));
    m.configuration.transition_mode.set(k.erg ? xmm::HMM::TransitionMode::Ergodic : xmm::HMM::TransitionMode::LeftRight);
    m.configuration.regression_estimator.set((xmm::HMM::RegressionEstimator)k.est);
    m.configuration.hierarchical.set(k.hier);
}
template <class M>
void configure_all(M& m, Kind const& k, int iterations = 2) {
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.configuration.multiClass_regression_estimator =
        k.mixture ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
    m.shared_parameters->em_algorithm_min_iterations.set(iterations);
    m.shared_parameters->em_algorithm_max_iterations.set(iterations);
    configure(m, k);
}
inline Shape shape(Kind const& k) { return shapes()[k.bi ? 2 : 1]; }
// calls f(GMM tag) or f(HMM tag)
template <class F>
void with_kind(Kind const& k, F f) {
    if (k.gmm)
        f((xmm::GMM*)nullptr);
    else
        f((xmm::HierarchicalHMM*)nullptr);
}
}  // namespace ref
