// Training sets and standalone classes for histories of a model.
#pragma once
#include <memory>
#include "model_snap.hpp"
#include <unistd.h>

namespace ref {
// gives the structure between classes values that are all different
inline void class_structure(xmm::GMM&, int) {}
inline void class_structure(xmm::HierarchicalHMM& m, int v) {
    size_t n = m.size();
    if (!n || m.prior.size() != n || m.exit_transition.size() != n || m.transition.size() != n) return;
    double sum = 0;
    for (size_t i = 0; i < n; i++) sum += m.prior[i] = 1 + (2 * i + v) % 5;
    for (auto& p : m.prior) p /= sum;
    for (size_t i = 0; i < n; i++) {
        m.exit_transition[i] = 0.2 + 0.1 * ((i + v) % 4);
        for (size_t j = 0; j < n; j++) m.transition[i][j] = 0;
        sum = 0;
        for (size_t j = 0; j < n; j++) sum += m.transition[i][j] = 1 + (3 * i + j + v) % 4;
        for (auto& t : m.transition[i]) t /= sum;
    }
}

typedef std::map<std::string, int> Classes;  // label -> data it is trained on

// phrases of data set d; data sets >= 10 cannot be trained
inline std::vector<Frames> const& class_data(int d, int dim) {
    static std::map<std::pair<int, int>, std::vector<Frames>> cache;
    auto& c = cache[{d, dim}];
    if (c.empty()) {
        for (int p = 0; p < 2; p++) {
            Frames f;
            int T = 6 + (d + p) % 3;
            for (int t = 0; t < T; t++) {
                std::vector<float> x(dim);
                for (int k = 0; k < dim; k++)
                    x[k] = (float)((t * t * (k + 2) + 3 * d + p * (k + 1)) % 7) * 0.5f + 0.125f * ((t + d * k) % 3) - k + 0.25f * t - 0.75f * d;
                f.push_back(x);
            }
            c.push_back(f);
        }
    }
    return c;
}
struct Spec {
    const char* name;
    Classes classes;
};
// variant: order in which the phrases are added (their indices stay the same)
inline std::unique_ptr<Set> build_set(Classes const& cl, Shape const& sh, int variant = 0) {
    std::unique_ptr<Set> s(new Set(sh.bi, sh.dim, sh.din));
    struct P {
        int index;
        std::string label;
        Frames const* f;
    };
    std::vector<P> ph;
    for (int p = 0; p < 2; p++)  // the classes are interleaved
        for (auto& c : cl) {
            auto& d = class_data(c.second, sh.dim);
            if (p < (int)d.size()) ph.push_back({(int)ph.size() * 2 + 1, c.first, &d[p]});
        }
    if (variant == 1) std::reverse(ph.begin(), ph.end());
    if (variant == 2 && ph.size() > 2) std::swap(ph[0], ph[ph.size() / 2]), std::swap(ph[1], ph.back());
    for (auto& q : ph) s->ts->addPhrase(q.index, phrase(sh.bi, sh.dim, sh.din, q.label, *q.f));
    return s;
}
inline uint64_t set_hash(xmm::TrainingSet& s) {
    vx::Hash h;
    h.add(s.size()).add(s.dimension.get()).add(s.dimension_input.get());
    for (auto& l : s.labels()) h.adds(l);
    for (auto it = s.begin(); it != s.end(); ++it) {
        h.add(it->first).adds(it->second->label.get()).add(it->second->size());
        for (unsigned t = 0; t < it->second->size(); t++)
            for (unsigned d = 0; d < it->second->dimension.get(); d++) h.addf(it->second->getValue(t, d));
    }
    return h.h;
}
template <class M>
void wait_trained(M& m) {
    for (int i = 0; m.training(); i++) {
        VX_CHECK(i < 200000, "the model never stops training");
        usleep(100);
    }
}
// a class trained alone from scratch; config(m) sets the configuration
template <class M, class F>
Snap standalone(std::string const& key, std::string const& label, int data, Shape const& sh, F config) {
    static std::map<std::string, Snap> cache;
    std::string k = key + "/" + label + "/" + std::to_string(data);
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    auto s = build_set({{label, data}}, sh);
    M m(sh.bi);
    config(m);
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.train(s->ts.get());
    VX_CHECK(m.models.count(label) == 1, "reference training of %s failed", label.c_str());
    return cache[k] = class_params(m.models[label]);
}
// the class list of a model
template <class M>
void check_classes(M& m, Classes const& r, const char* who) {
    std::string have, want;
    for (auto& c : m.models) have += c.first + " ";
    for (auto& c : r) want += c.first + " ";
    VX_CHECK(have == want, "%s: classes are \"%s\" instead of \"%s\"", who, have.c_str(), want.c_str());
    VX_CHECK(m.size() == r.size(), "%s: size() is %u for %zu classes", who, m.size(), r.size());
    VX_CHECK(m.trained() == !r.empty(), "%s: trained() is wrong", who);
    VX_CHECK(!m.training(), "%s: still training", who);
    int i = 0;
    for (auto& c : r) {
        VX_CHECK(m.hasClass(c.first) && m.getIndex(c.first) == i, "%s: class %s is not found at index %d", who, c.first.c_str(), i);
        VX_CHECK(m.models[c.first].label == c.first, "%s: class %s is labelled %s", who, c.first.c_str(), m.models[c.first].label.c_str());
        i++;
    }
    VX_CHECK(!m.hasClass("zz") && m.getIndex("zz") == -1, "%s: an absent class is found", who);
}
inline uint64_t hash_classes(Classes const& c) {
    vx::Hash h;
    for (auto& x : c) h.adds(x.first).add(x.second);
    return h.h;
}
// models of five classes, some with settings of their own, in up to six dimensions
inline void own(xmm::ClassParameters<xmm::GMM>& p, int i) {
    p.gaussians.set(1 + i % 3);
    if (i % 2) p.covariance_mode.set(covmode(p.covariance_mode.get() == GD::CovarianceMode::Full));
}
inline void own(xmm::ClassParameters<xmm::HMM>& p, int i) {
    p.states.set(2 + i % 4);
    p.gaussians.set(1 + i % 2);
    if (i % 2) p.covariance_mode.set(covmode(p.covariance_mode.get() == GD::CovarianceMode::Full));
    if (i % 3 == 0)
        p.transition_mode.set(p.transition_mode.get() == xmm::HMM::TransitionMode::Ergodic ? xmm::HMM::TransitionMode::LeftRight
                                                                                           : xmm::HMM::TransitionMode::Ergodic);
    p.regression_estimator.set((xmm::HMM::RegressionEstimator)(i % 3));
}
inline Shape big_shape(Kind const& k, int i) {
    static const Shape U[] = {{false, 5, 0}, {false, 1, 0}}, B[] = {{true, 5, 2}, {true, 6, 3}};
    return (k.bi ? B : U)[i % 2];
}
template <class M>
std::unique_ptr<M> big_model(Kind const& k, Shape const& sh, int ncls, int v) {
    Set s(sh.bi, sh.dim, sh.din);
    fill(s, labels(ncls), 9);
    std::unique_ptr<M> m(new M(sh.bi));
    configure_all(*m, k, 1);
    m->configuration.relative_regularization.set(0.1);
    m->configuration.absolute_regularization.set(0.05);
    for (int i = 0; i < ncls; i++)
        if ((i + v) % 2) own(m->configuration[labels(ncls)[i]], i + v);
    m->shared_parameters->likelihood_window.set(1 + 2 * (v % 3));
    m->train(&s);
    VX_CHECK((int)m->size() == ncls, "harness: %u classes of %d are trained", m->size(), ncls);
    class_structure(*m, v);
    return m;
}
template <class M>
std::unique_ptr<M> big_copy(Kind const& k, int i, int ncls, int v) {  // built once, then copied
    static std::map<std::string, std::unique_ptr<M>> cache;
    auto& c = cache[name(k) + std::to_string(i) + "/" + std::to_string(ncls) + "/" + std::to_string(v)];
    if (!c) c = big_model<M>(k, big_shape(k, i), ncls, v);
    return std::unique_ptr<M>(new M(*c));
}
}  // namespace ref
