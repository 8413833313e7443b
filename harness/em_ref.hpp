// Reference training: Lloyd's k-means, expectation-maximisation of gaussian
// mixtures and Baum-Welch, on small data sets, in (long) double precision.
#pragma once
#include "model_ref.hpp"

namespace ref {
typedef std::vector<std::vector<V>> Data;  // phrases of frames
inline Data todata(std::vector<Frames> const& f) {
    Data d;
    for (auto& p : f) {
        d.emplace_back();
        for (auto& x : p) d.back().push_back(todouble(x));
    }
    return d;
}
inline V stddev(Data const& data, int dim) {
    V m(dim, 0), s(dim, 0);
    double n = 0;
    for (auto& p : data)
        for (auto& x : p) {
            n++;
            for (int d = 0; d < dim; d++) m[d] += x[d];
        }
    for (double& v : m) v /= n;
    for (auto& p : data)
        for (auto& x : p)
            for (int d = 0; d < dim; d++) s[d] += (x[d] - m[d]) * (x[d] - m[d]);
    for (double& v : s) v = std::sqrt(v / n);
    return s;
}
inline double distance(V const& a, V const& b) {
    double s = 0;
    for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]);
    return std::sqrt(s);
}
inline bool dyadic(V const& a) {
    for (double x : a)
        if (x * 256 != std::floor(x * 256)) return false;
    return true;
}

struct KM {
    std::vector<V> c;
    bool ambiguous = false, converged = false;
    bool exact = true;  // ties between dyadic centres are decided without rounding
    int iterations = 0;
    // centres of equal segments of the first phrase
    void init(std::vector<V> const& p, int k, int dim) {
        size_t step = p.size() / k;
        exact = (step & (step - 1)) == 0;
        c.assign(k, V(dim, 0));
        for (int i = 0; i < k; i++)
            for (size_t t = 0; t < step; t++)
                for (int d = 0; d < dim; d++) c[i][d] += p[i * step + t][d] / step;
    }
    int nearest(V const& x) {
        int b = 0;
        for (size_t k = 1; k < c.size(); k++)
            if (distance(x, c[k]) < distance(x, c[b])) b = k;
        for (size_t k = 0; k < c.size(); k++) {
            double d = distance(x, c[k]) - distance(x, c[b]);
            if ((int)k != b && d < 1e-5 && !(exact && d == 0 && dyadic(c[k]) && dyadic(c[b]))) ambiguous = true;
        }
        return b;
    }
    // one iteration; returns the largest move
    double iterate(Data const& data) {
        int dim = c[0].size();
        std::vector<V> n(c.size(), V(dim, 0));
        V cnt(c.size(), 0);
        for (auto& p : data)
            for (auto& x : p) {
                int k = nearest(x);
                cnt[k]++;
                for (int d = 0; d < dim; d++) n[k][d] += x[d];
            }
        double move = 0;
        for (size_t k = 0; k < c.size(); k++) {
            if (cnt[k] == 0)
                n[k] = c[k];
            else
                for (double& v : n[k]) v /= cnt[k];
            move = std::max(move, distance(n[k], c[k]));
        }
        c = n;
        exact = true;
        iterations++;
        return move;
    }
    void run(Data const& data, int max_iterations, double threshold) {
        while (iterations < max_iterations) {
            double move = iterate(data), mean = 0;
            int k = c.size();
            for (int i = 0; i < k; i++)
                for (int j = 0; j < k; j++) mean += distance(c[i], c[j]);
            if (move == 0) {  // fixed point
                converged = true;
                return;
            }
            if (k == 1) continue;
            double rel = move / k / (mean / (k * (k - 1)));
            if (std::fabs(rel - threshold) < 1e-5 * (rel + threshold)) ambiguous = true;
            if (rel < threshold) return;
        }
    }
};

struct EmConfig {
    int gaussians = 1, states = 1;
    double abs = 1e-3, rel = 1e-2;
    bool diag = false, bi = false, erg = false;
    int dim = 1, din = 0;
    int min = 1, max = 1;
    double pct = 0.01;
};
// stopping rule: true if no iteration follows
struct Stop {
    EmConfig const& c;
    bool ambiguous = false;
    explicit Stop(EmConfig const& cfg) : c(cfg) {}
    bool operator()(V const& ll) {
        int it = ll.size();
        if (it >= 1000) return true;
        if (c.max >= c.min) return it >= c.max;
        if (it < c.min || it < 2) return false;
        double rel = 100 * std::fabs((ll[it - 1] - ll[it - 2]) / ll[it - 1]);
        if (std::fabs(rel - c.pct) <= 1e-3 * c.pct + 1e-6) ambiguous = true;
        return rel <= c.pct;
    }
};
inline void offset(Gauss& g, V const& reg) {
    for (int d = 0; d < g.dim; d++) g.cov[d * g.dim + d] += reg[d];
}
inline V regularization(EmConfig const& c, Data const& data) {
    V r = stddev(data, c.dim);
    for (double& v : r) v = std::max(c.abs, c.rel * v);
    return r;
}
struct Em {
    EmConfig c;
    Mix m;
    V ll;  // log-likelihood reported by each iteration
    bool ambiguous = false, degenerate = false;

    Em(EmConfig const& cfg, Data const& data) : c(cfg) {
        if ((int)data[0].size() < c.gaussians) {  // segments of the first phrase without frames
            degenerate = true;
            return;
        }
        V reg = regularization(c, data);
        KM km;
        km.init(data[0], c.gaussians, c.dim);
        km.run(data, xmm::KMeans::DEFAULT_MAX_ITERATIONS, 1e-20);
        ambiguous = km.ambiguous;
        m.bi = c.bi;
        m.dim = c.dim;
        m.din = c.din;
        for (int k = 0; k < c.gaussians; k++) {
            Gauss g;
            g.bi = c.bi;
            g.dim = c.dim;
            g.din = c.din;
            g.diag = c.diag;
            g.mean = km.c[k];
            g.cov.assign(c.dim * c.dim, 0);
            V s(c.dim, 0);
            double n = 0;
            for (auto& p : data) {
                size_t step = p.size() / c.gaussians;
                for (size_t t = k * step; t < (k + 1) * step; t++, n++)
                    for (int a = 0; a < c.dim; a++) {
                        s[a] += p[t][a];
                        for (int b = 0; b < c.dim; b++) g.cov[a * c.dim + b] += p[t][a] * p[t][b];
                    }
            }
            for (int a = 0; a < c.dim; a++)
                for (int b = 0; b < c.dim; b++) g.cov[a * c.dim + b] = g.cov[a * c.dim + b] / n - s[a] / n * s[b] / n;
            offset(g, reg);
            m.g.push_back(g);
        }
        m.w.assign(c.gaussians, 1. / c.gaussians);
        Stop stop(c);
        while (!stop(ll)) update(data, reg);
        ambiguous |= stop.ambiguous;
    }
    void update(Data const& data, V const& reg) {
        double l = 0;
        std::vector<V> x;
        for (auto& p : data) x.insert(x.end(), p.begin(), p.end());
        size_t T = x.size();
        std::vector<LV> r(c.gaussians, LV(T));
        LV E(c.gaussians, 0);
        for (size_t t = 0; t < T; t++) {
            long double norm = 0;
            for (int k = 0; k < c.gaussians; k++) {
                r[k][t] = m.w[k] * std::max((long double)FLOOR, m.g[k].joint(x[t].data()));
                if (r[k][t] < 1e-290L) ambiguous = true;  // the weight of a component vanishes
                norm += r[k][t];
            }
            for (int k = 0; k < c.gaussians; k++) {
                r[k][t] /= norm;
                E[k] += r[k][t];
            }
            l += (double)logl(norm);
        }
        for (int k = 0; k < c.gaussians; k++) {
            m.w[k] = (double)(E[k] / T);
            moments(m.g[k], x, r[k], E[k]);
            offset(m.g[k], reg);
        }
        ll.push_back(l);
    }
    static void moments(Gauss& g, std::vector<V> const& x, LV const& r, long double E) {
        int D = g.dim;
        for (int d = 0; d < D; d++) {
            long double s = 0;
            for (size_t t = 0; t < x.size(); t++) s += r[t] * x[t][d];
            g.mean[d] = E > 0 ? (double)(s / E) : 0;
        }
        for (int a = 0; a < D; a++)
            for (int b = 0; b < D; b++) {
                long double s = 0;
                if (!g.diag || a == b)
                    for (size_t t = 0; t < x.size(); t++) s += r[t] * (x[t][a] - g.mean[a]) * (x[t][b] - g.mean[b]);
                g.cov[a * D + b] = E > 0 ? (double)(s / E) : 0;
            }
    }
};

struct Bw {
    EmConfig c;
    Hmm h;
    LV T;  // N x N transitions
    V ll;
    bool ambiguous = false, degenerate = false;

    Bw(EmConfig const& cfg, Data const& data) : c(cfg) {
        int N = c.states;
        V reg = regularization(c, data);
        h.N = N;
        h.ergodic = c.erg;
        h.bi = c.bi;
        h.full = !c.diag;
        h.prior.assign(N, 1. / N);
        T.assign(N * N, 0);
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++) {
                if (c.erg)
                    T[i * N + j] = 1.L / N;
                else if (j == i)
                    T[i * N + j] = i == N - 1 ? 1 : 0.5L;
                else if (j == i + 1)
                    T[i * N + j] = 0.5L;
            }
        for (int i = 0; i < N; i++) {
            Data seg;
            for (auto& p : data) {
                size_t step = p.size() / N;
                if (step > 0) seg.emplace_back(p.begin() + i * step, p.begin() + (i + 1) * step);
            }
            if (seg.empty()) {
                degenerate = true;
                return;
            }
            Em e(c, seg);
            if (e.degenerate) {
                degenerate = true;
                return;
            }
            ambiguous |= e.ambiguous;
            e.m.w.assign(c.gaussians, 1. / c.gaussians);
            h.st.push_back(e.m);
        }
        Stop stop(c);
        while (!stop(ll)) update(data, reg);
        ambiguous |= stop.ambiguous;
        for (int i = 0; i < N; i++) {
            long double s = 0;
            for (int j = 0; j < N; j++) s += T[i * N + j];
            for (int j = 0; j < N; j++) T[i * N + j] = s > 0 ? T[i * N + j] / s : 1.L / N;
        }
    }
    void update(Data const& data, V const& reg) {
        int N = c.states, G = c.gaussians;
        double l = 0;
        std::vector<V> x;
        std::vector<LV> r(N * G);       // responsibilities of the components
        LV E(N * G, 0), lost(N * G, 0), visits(N, 0), first(N, 0), xi(N * N, 0);
        int phrases = 0;
        for (auto& p : data) {
            int L = p.size();
            if (L == 0) continue;
            phrases++;
            LV b(L * N), comp(L * N * G), al(L * N, 0), be(L * N, 0);
            for (int t = 0; t < L; t++)
                for (int i = 0; i < N; i++)
                    for (int k = 0; k < G; k++) {
                        long double v = h.st[i].w[k] * std::max((long double)FLOOR, h.st[i].g[k].joint(p[t].data()));
                        if (v < 1e-290L) ambiguous = true;
                        comp[(t * N + i) * G + k] = v;
                        b[t * N + i] += v;
                    }
            for (int i = 0; i < N; i++) al[i] = (c.erg ? h.prior[i] : i == 0) * b[i];
            for (int t = 1; t < L; t++)
                for (int j = 0; j < N; j++) {
                    for (int i = 0; i < N; i++) al[t * N + j] += al[(t - 1) * N + i] * T[i * N + j];
                    al[t * N + j] *= b[t * N + j];
                }
            for (int i = 0; i < N; i++) be[(L - 1) * N + i] = 1;
            for (int t = L - 2; t >= 0; t--)
                for (int i = 0; i < N; i++)
                    for (int j = 0; j < N; j++) be[t * N + i] += T[i * N + j] * b[(t + 1) * N + j] * be[(t + 1) * N + j];
            long double P = 0;
            for (int i = 0; i < N; i++) P += al[(L - 1) * N + i];
            l += (double)logl(P);
            // scaled computation in double keeps this many digits
            for (int t = 0; t < L; t++) {
                long double bt = 0;
                for (int i = 0; i < N; i++) bt = std::max(bt, be[t * N + i] / P);
                if (bt > 1e250L) ambiguous = true;
            }
            for (int t = 0; t < L; t++) {
                x.push_back(p[t]);
                for (int i = 0; i < N; i++) {
                    long double g = al[t * N + i] * be[t * N + i] / P;
                    visits[i] += g;
                    if (t == 0) first[i] += g;
                    for (int k = 0; k < G; k++) {
                        long double q = g * comp[(t * N + i) * G + k] / b[t * N + i];
                        r[i * G + k].push_back(q);
                        E[i * G + k] += q;
                        if (g * comp[(t * N + i) * G + k] < 1e-290L) lost[i * G + k] += q;  // below double precision
                    }
                    if (t + 1 < L)
                        for (int j = 0; j < N; j++)
                            xi[i * N + j] += al[t * N + i] * T[i * N + j] * b[(t + 1) * N + j] * be[(t + 1) * N + j] / P;
                }
            }
        }
        const long double R = 1e-5L;
        for (int i = 0; i < N; i++) {
            long double s = 0;
            for (int k = 0; k < G; k++) {
                s += E[i * G + k];
                if (lost[i * G + k] > 1e-7L * E[i * G + k]) ambiguous = true;
            }
            for (int k = 0; k < G; k++) {
                h.st[i].w[k] = s > 0 ? (double)(E[i * G + k] / s) : 1. / G;
                Em::moments(h.st[i].g[k], x, r[i * G + k], E[i * G + k]);
                offset(h.st[i].g[k], reg);
            }
            h.prior[i] = (double)(first[i] / phrases);
            for (int j = 0; j < N; j++) {
                long double v = xi[i * N + j];
                if (!c.erg && j == i) v += phrases * R * (i == N - 1 ? 2 : 1);
                if (!c.erg && j == i + 1) v += phrases * R;
                T[i * N + j] = v / (visits[i] + 2 * R);
            }
            long double row = 0;
            for (int j = 0; j < N; j++) row += T[i * N + j];
            if (row > 0 && row < 1e-30L) ambiguous = true;  // below single precision
        }
        ll.push_back(l);
    }
};

// ---- judging trained classes ----------------------------------------------
// a valid mixture whose variances are at least the regularisation
inline void valid_mix(xmm::SingleClassGMM const& m, EmConfig const& c, V const& reg, const char* who) {
    VX_CHECK((int)m.mixture_coeffs.size() == c.gaussians && (int)m.components.size() == c.gaussians, "%s: %zu weights and %zu components for %d gaussians",
             who, m.mixture_coeffs.size(), m.components.size(), c.gaussians);
    double s = 0;
    for (float w : m.mixture_coeffs) {
        VX_CHECK(w >= 0 && w <= 1 + 1e-6, "%s: mixture weight %g", who, w);
        s += w;
    }
    VX_NEAR(s, 1, 1e-5, 0, "%s: sum of the mixture weights", who);
    int D = c.dim;
    for (auto& g : m.components) {
        VX_CHECK((int)g.mean.size() == D && (int)g.covariance.size() == (c.diag ? D : D * D), "%s: %zu means and %zu covariances", who,
                 g.mean.size(), g.covariance.size());
        for (int a = 0; a < D; a++) {
            VX_CHECK(std::isfinite(g.mean[a]), "%s: mean %g", who, g.mean[a]);
            double var = c.diag ? g.covariance[a] : g.covariance[a * D + a];
            VX_CHECK(var >= reg[a] * (1 - 1e-5) - 1e-12 && std::isfinite(var), "%s: variance %g below the regularisation %g", who, var, reg[a]);
            if (!c.diag)
                for (int b = 0; b < D; b++) {
                    VX_CHECK(std::isfinite(g.covariance[a * D + b]), "%s: covariance %g", who, g.covariance[a * D + b]);
                    VX_NEAR(g.covariance[a * D + b], g.covariance[b * D + a], 1e-9, 1e-12, "%s: symmetry of the covariance", who);
                }
        }
    }
}
inline void near_mix(xmm::SingleClassGMM const& m, Mix const& r, double tol, const char* who) {
    int D = r.dim;
    for (size_t k = 0; k < r.g.size(); k++) {
        VX_NEAR(m.mixture_coeffs[k], r.w[k], tol, tol, "%s: weight of component %zu", who, k);
        if (r.w[k] < 1e-6) continue;  // a component that explains nothing
        for (int a = 0; a < D; a++) {
            VX_NEAR(m.components[k].mean[a], r.g[k].mean[a], tol, tol, "%s: mean %d of component %zu", who, a, k);
            for (int b = 0; b < D; b++) {
                if (r.g[k].diag && a != b) continue;
                VX_NEAR(m.components[k].covariance[r.g[k].diag ? a : a * D + b], r.g[k].cov[a * D + b], tol, tol,
                        "%s: covariance %d,%d of component %zu", who, a, b, k);
            }
        }
    }
}
}  // namespace ref
