// Reference models: gaussian mixtures, hidden Markov models and the two-level
// forward recursion, computed in double from the public parameters of a model.
#pragma once
#include <deque>
#include <memory>
#include "ref.hpp"
#include "xmm.h"
#include "models/kmeans/xmmKMeans.hpp"

namespace ref {
typedef xmm::GaussianDistribution GD;
inline GD::CovarianceMode covmode(bool diag) { return diag ? GD::CovarianceMode::Diagonal : GD::CovarianceMode::Full; }
const double FLOOR = 1e-180;  // smallest density of a gaussian

inline Gauss read_gauss(GD const& g, bool bi, int din) {
    Gauss r;
    r.bi = bi;
    r.dim = g.dimension.get();
    r.din = din;
    r.diag = g.covariance_mode.get() == GD::CovarianceMode::Diagonal;
    r.mean.assign(g.mean.begin(), g.mean.end());
    r.cov.assign(r.dim * r.dim, 0);
    for (int i = 0; i < r.dim; i++) {
        if (r.diag)
            r.cov[i * r.dim + i] = g.covariance[i];
        else
            for (int j = 0; j < r.dim; j++) r.cov[i * r.dim + j] = g.covariance[i * r.dim + j];
    }
    return r;
}

// prediction with its variance
struct Pred {
    V val, cov;
    bool full = true;
};

struct Mix {
    bool bi = false;
    int dim = 1, din = 0;
    std::vector<Gauss> g;
    V w;
    bool full() const { return !g[0].diag; }
    V terms(V const& x) const {  // weighted densities
        V t;
        for (size_t c = 0; c < g.size(); c++) {
            long double d = bi ? g[c].input(x.data()) : g[c].joint(x.data());
            if (d < FLOOR) d = FLOOR;
            t.push_back((double)(w[c] * d));
        }
        return t;
    }
    double prob(V const& x) const {
        double s = 0;
        for (double t : terms(x)) s += t;
        return s;
    }
    V beta(V const& x) const {
        V t = terms(x);
        double s = 0;
        for (double v : t) s += v;
        for (double& v : t) v /= s;
        return t;
    }
    Pred predict(V const& x) const {
        V b = beta(x);
        Pred p;
        int no = dim - din;
        p.full = full();
        p.val.assign(no, 0);
        p.cov.assign(p.full ? no * no : no, 0);
        for (size_t c = 0; c < g.size(); c++) {
            V r = g[c].regression(x.data()), o = g[c].outcov();
            for (int d = 0; d < no; d++) p.val[d] += b[c] * r[d];
            for (size_t d = 0; d < o.size(); d++) p.cov[d] += b[c] * b[c] * o[d];
        }
        return p;
    }
};
inline Mix read_mix(xmm::SingleClassGMM const& c, bool bi, int din) {
    Mix m;
    m.bi = bi;
    m.din = din;
    VX_CHECK(c.components.size() == c.parameters.gaussians.get() && c.mixture_coeffs.size() == c.components.size(),
             "the mixture has %zu components and %zu weights for %u gaussians", c.components.size(), c.mixture_coeffs.size(),
             c.parameters.gaussians.get());
    for (auto& g : c.components) m.g.push_back(read_gauss(g, bi, din));
    m.w.assign(c.mixture_coeffs.begin(), c.mixture_coeffs.end());
    m.dim = m.g[0].dim;
    return m;
}

// mean of the log-likelihoods of the last frames
struct Smooth {
    std::deque<double> logs;
    void push(double l) { logs.push_back(std::log(l)); }
    double mean(size_t w) const {
        double s = 0;
        size_t n = std::min(w, logs.size());
        for (size_t i = logs.size() - n; i < logs.size(); i++) s += logs[i];
        return s / n;
    }
};

struct Hmm {
    bool ergodic = false, bi = false, full = true;
    int N = 1, est = 0;  // regression estimator
    std::vector<Mix> st;
    V prior, A, e;       // prior (ergodic), N x N transitions, exit probabilities
    // filtering state
    V p;                 // state probabilities (non hierarchical)
    V a[3];
    bool started = false;
    double inst = 0, exitlik = 0;

    double sp(int i, bool hier) const { return hier ? a[0][i] + a[1][i] + a[2][i] : p[i]; }
    void reset() {
        started = false;
        p.assign(N, 0);
        for (auto& v : a) v.assign(N, 0);
    }
    // plain forward recursion on the matrix A
    void filter(V const& x) {
        V n(N, 0);
        inst = 0;
        for (int j = 0; j < N; j++) {
            double f = 0;
            if (!started)
                f = ergodic ? prior[j] : (j == 0);
            else
                for (int i = 0; i < N; i++) f += p[i] * A[i * N + j];
            n[j] = f * st[j].prob(x);
            inst += n[j];
        }
        for (double& v : n) v /= inst;
        p = n;
        started = true;
    }
};
inline Hmm read_hmm(xmm::SingleClassHMM const& c, bool bi, int din, V const& exits) {
    Hmm h;
    h.bi = bi;
    h.N = c.parameters.states.get();
    h.ergodic = c.parameters.transition_mode.get() == xmm::HMM::TransitionMode::Ergodic;
    h.full = c.parameters.covariance_mode.get() == GD::CovarianceMode::Full;
    h.est = (int)c.parameters.regression_estimator.get();
    VX_CHECK((int)c.states.size() == h.N, "the class has %zu states instead of %d", c.states.size(), h.N);
    for (auto& s : c.states) h.st.push_back(read_mix(s, bi, din));
    h.A.assign(h.N * h.N, 0);
    if (h.ergodic) {
        VX_CHECK((int)c.prior.size() == h.N && (int)c.transition.size() == h.N * h.N, "sizes of prior or transition");
        h.prior.assign(c.prior.begin(), c.prior.end());
        h.A.assign(c.transition.begin(), c.transition.end());
    } else {
        VX_CHECK((int)c.transition.size() == 2 * h.N, "size of transition");
        for (int i = 0; i < h.N; i++) {
            h.A[i * h.N + i] += c.transition[2 * i];
            if (h.N > 1) h.A[i * h.N + (i + 1) % h.N] += c.transition[2 * i + 1];
        }
    }
    h.e = exits;
    h.reset();
    return h;
}

// several classes, hierarchical or not
struct Hier {
    bool hier = true;
    std::vector<Hmm> c;
    V prior, X;            // class prior, probability of exiting to the root
    std::vector<V> T;      // between classes
    bool started = false;
    void reset() {
        started = false;
        for (auto& h : c) h.reset();
    }
    void filter(V const& x) {
        if (!hier) {
            for (auto& h : c) h.filter(x);
            return;
        }
        size_t K = c.size();
        double total = 0;
        V v1(K, 0), v2(K, 0);
        for (size_t s = 0; s < K; s++)
            for (int k = 0; k < c[s].N; k++) v1[s] += c[s].a[1][k], v2[s] += c[s].a[2][k];
        for (size_t d = 0; d < K; d++) {
            Hmm& h = c[d];
            int N = h.N;
            V F(N, 0);
            if (started) {
                double enter = 0;
                for (size_t s = 0; s < K; s++) enter += v1[s] * T[s][d] + prior[d] * v2[s];
                for (int k = 0; k < N; k++) {
                    for (int j = 0; j < N; j++) {
                        // a left-right class does not cycle by itself
                        if (!h.ergodic && j != k && j != k - 1) continue;
                        // leaving the first state: its exit probability is not compensated
                        double stay = (!h.ergodic && k == 0) ? 1 : 1 - h.e[j];
                        if (stay > 0) F[k] += h.A[j * N + k] / stay * h.a[0][j];
                    }
                    F[k] += (h.ergodic ? h.prior[k] : (k == 0)) * enter;
                }
            }
            h.inst = h.exitlik = 0;
            V n[3] = {V(N, 0), V(N, 0), V(N, 0)};
            for (int k = 0; k < N; k++) {
                if (!started) {
                    n[0][k] = prior[d] * (h.ergodic ? h.prior[k] : (k == 0)) * h.st[k].prob(x);
                } else {
                    double t = h.st[k].prob(x) * F[k];
                    n[2][k] = X[d] * h.e[k] * t;
                    n[1][k] = (1 - X[d]) * h.e[k] * t;
                    n[0][k] = (1 - h.e[k]) * t;
                }
                h.inst += n[0][k] + n[1][k] + n[2][k];
                h.exitlik += n[1][k] + n[2][k];
            }
            total += h.inst;
            for (int i = 0; i < 3; i++) h.a[i] = n[i];
        }
        for (auto& h : c)
            for (auto& v : h.a)
                for (double& y : v) y /= total;
        started = true;
    }
};

// prediction of one class of an HMM in its current state; p: state probabilities
inline Pred predict_hmm(Hmm const& h, V const& p, int likeliest, V const& x) {
    if (h.est == 2) return h.st[likeliest].predict(x);
    int lo = 0, hi = h.N;
    if (h.est == 1) {
        lo = std::max(0, likeliest - h.N / 2);
        hi = std::min(h.N, std::max(likeliest + h.N / 2, likeliest + 1));
    }
    double s = 0;
    for (int i = lo; i < hi; i++) s += p[i];
    Pred r;
    int no = h.st[0].dim - h.st[0].din;
    r.full = h.full;
    r.val.assign(no, 0);
    r.cov.assign(r.full ? no * no : no, 0);
    if (s <= 0) return r;
    for (int i = lo; i < hi; i++) {
        Pred q = h.st[i].predict(x);
        for (int d = 0; d < no; d++) r.val[d] += p[i] / s * q.val[d];
        for (size_t d = 0; d < q.cov.size(); d++) r.cov[d] += p[i] / s * p[i] / s * q.cov[d];
    }
    return r;
}

// ---- comparison of results ------------------------------------------------
inline void near_lik(double got, double want, const char* what, double rtol = 1e-6) {
    VX_CHECK(got == got && got >= 0, "%s is %g", what, got);
    if (want < 1e-170) {
        VX_CHECK(got < 1e-169, "%s: got %g, expected %g", what, got, want);
        return;
    }
    VX_NEAR(got, want, rtol, 0, "%s", what);
}
inline void near_pred(std::vector<float> const& v, std::vector<float> const& c, Pred const& p, const char* who) {
    VX_CHECK(v.size() == p.val.size() && c.size() == p.cov.size(), "%s: prediction has %zu values and %zu variances, expected %zu and %zu",
             who, v.size(), c.size(), p.val.size(), p.cov.size());
    for (size_t i = 0; i < v.size(); i++) VX_NEAR(v[i], p.val[i], 2e-5, 2e-5, "%s: output value %zu", who, i);
    for (size_t i = 0; i < c.size(); i++) VX_NEAR(c[i], p.cov[i], 1e-4, 1e-6, "%s: output variance %zu", who, i);
}
// results over classes: labels sorted; inst and smoothed log-likelihoods per class
template <class R>
void check_results(R const& r, std::vector<std::string> const& labels, V const& inst, V const& smooth) {
    size_t K = labels.size();
    VX_CHECK(r.instant_likelihoods.size() == K && r.instant_normalized_likelihoods.size() == K && r.smoothed_likelihoods.size() == K &&
                 r.smoothed_normalized_likelihoods.size() == K && r.smoothed_log_likelihoods.size() == K,
             "results have %zu entries for %zu classes", r.instant_likelihoods.size(), K);
    double si = 0, ss = 0, gi = 0, gs = 0, best = -1e300;
    for (size_t i = 0; i < K; i++) {
        si += inst[i];
        ss += std::exp(smooth[i]);
        best = std::max(best, smooth[i]);
        gi += r.instant_normalized_likelihoods[i];
        gs += r.smoothed_normalized_likelihoods[i];
    }
    VX_NEAR(gi, 1, 1e-9, 0, "sum of the normalised instantaneous likelihoods");
    VX_NEAR(gs, 1, 1e-9, 0, "sum of the normalised smoothed likelihoods");
    bool found = false;
    for (size_t i = 0; i < K; i++) {
        near_lik(r.instant_likelihoods[i], inst[i], "instantaneous likelihood");
        VX_NEAR(r.smoothed_log_likelihoods[i], smooth[i], 1e-6, 1e-6, "smoothed log-likelihood of %s", labels[i].c_str());
        near_lik(r.smoothed_likelihoods[i], std::exp(smooth[i]), "smoothed likelihood", 1e-4);
        VX_NEAR(r.instant_normalized_likelihoods[i], inst[i] / si, 1e-5, 1e-9, "normalised instantaneous likelihood of %s", labels[i].c_str());
        VX_NEAR(r.smoothed_normalized_likelihoods[i], std::exp(smooth[i] - std::log(ss)), 1e-4, 1e-9, "normalised smoothed likelihood of %s", labels[i].c_str());
        if (labels[i] == r.likeliest) {
            found = true;
            VX_CHECK(smooth[i] >= best - 1e-6 * (1 + std::fabs(best)), "the likeliest class is %s, whose smoothed log-likelihood %g is not the largest (%g)",
                     labels[i].c_str(), smooth[i], best);
        }
    }
    VX_CHECK(found, "the likeliest class \"%s\" does not exist", r.likeliest.c_str());
}
// model output: that of the likeliest class or the mixture; the shape of a
// mixture follows the global configuration
inline Pred combine(std::vector<Pred> const& p, V const& weights, bool full) {
    Pred r;
    int no = p[0].val.size();
    r.full = full;
    r.val.assign(no, 0);
    r.cov.assign(full ? no * no : no, 0);
    for (size_t i = 0; i < p.size(); i++)
        for (int d = 0; d < no; d++) {
            r.val[d] += weights[i] * p[i].val[d];
            for (int e = 0; e < no; e++) {
                if (d != e && !(full && p[i].full)) continue;
                r.cov[full ? d * no + e : d] += weights[i] * p[i].cov[p[i].full ? d * no + e : d];
            }
        }
    return r;
}

// ---- building models ------------------------------------------------------
typedef std::vector<std::vector<float>> Frames;
inline std::shared_ptr<xmm::Phrase> phrase(bool bi, int dim, int din, std::string const& label, Frames const& f) {
    auto p = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    p->dimension.set(dim);
    if (bi) p->dimension_input.set(din);
    p->label.set(label);
    for (auto& x : f) p->record(x);
    return p;
}
struct Set {  // a training set with its dimensions
    bool bi;
    int dim, din;
    std::unique_ptr<xmm::TrainingSet> ts;
    int n = 0;
    Set(bool b, int d, int di) : bi(b), dim(d), din(di) {
        ts.reset(new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, b ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        ts->dimension.set(d);
        if (b) ts->dimension_input.set(di);
    }
    void add(std::string const& label, Frames const& f) { ts->addPhrase(n++, phrase(bi, dim, din, label, f)); }
    xmm::TrainingSet* operator&() { return ts.get(); }
};
inline V todouble(std::vector<float> const& f) { return V(f.begin(), f.end()); }
}  // namespace ref
