// Models with parameters from a small deterministic grid, set through the public
// members of trained models.
#pragma once
#include "model_ref.hpp"

namespace ref {
struct Shape {
    bool bi;
    int dim, din;
    int obs() const { return bi ? din : dim; }
};
inline std::vector<Shape> const& shapes() {
    static const std::vector<Shape> s = {{false, 1, 0}, {false, 2, 0}, {true, 2, 1}, {true, 3, 1}, {true, 3, 2}, {false, 3, 0}, {true, 4, 2}};
    return s;
}
inline std::vector<float> frame(Shape const& s, int k) {
    static const float F[][5] = {{0.25f, -0.5f, 1, 0, -1}, {1, 0.75f, -1, 0.5f, 0.25f}, {-1.5f, 1.25f, 0, 2, 0.5f}, {40, -30, 25, 60, -20}, {0.75f, 0.75f, 0.75f, 0.75f, 0.75f}};
    return std::vector<float>(F[k], F[k] + s.obs());
}
// gaussian number i of grid g
inline void set_gauss(GD& d, bool diag, int g, int i) {
    static const double M[] = {0, 0.5, -1, 1.5, -0.25, 1, -2, 0.75, -0.5, 2, 0.125};
    static const double L[] = {1, 0.5, 1.5, 0.75, 1.25, 0.625};
    static const double O[] = {0.5, -0.25, 0.75, -0.5, 0, 0.25, -1};
    int n = d.dimension.get();
    for (int k = 0; k < n; k++) d.mean[k] = M[(g * 3 + i * 4 + k * 5) % 11];
    V l(n * n, 0);
    for (int a = 0; a < n; a++)
        for (int b = 0; b <= a; b++) l[a * n + b] = a == b ? L[(g * 5 + i + a) % 6] : O[(g + i * 3 + a * 2 + b) % 7];
    for (int a = 0; a < n; a++)
        for (int b = 0; b < n; b++) {
            double s = 0;
            for (int c = 0; c < n; c++) s += l[a * n + c] * l[b * n + c];
            if (!diag)
                d.covariance[a * n + b] = s;
            else if (a == b)
                d.covariance[a] = s;
        }
    d.updateInverseCovariance();
}
inline void set_mix(xmm::SingleClassGMM& m, int g, int i) {
    static const float W[][3] = {{1, 0, 0}, {0.75f, 0.25f, 0}, {0.5f, 0.125f, 0.375f}};
    int n = m.components.size();
    bool diag = m.parameters.covariance_mode.get() == GD::CovarianceMode::Diagonal;
    for (int c = 0; c < n; c++) {
        set_gauss(m.components[c], diag, g, i * 3 + c);
        m.mixture_coeffs[c] = W[n - 1][(c + g) % n];
    }
}
inline void set_hmm(xmm::SingleClassHMM& h, int g, int i) {
    static const float R[][3] = {{0.5f, 0.25f, 0.25f}, {0.125f, 0.75f, 0.125f}, {0.375f, 0.125f, 0.5f}, {0.25f, 0.25f, 0.5f}};
    static const float R2[][2] = {{0.5f, 0.5f}, {0.75f, 0.25f}, {0.125f, 0.875f}};
    int N = h.states.size();
    for (int s = 0; s < N; s++) set_mix(h.states[s], g, i * 2 + s * 5);
    if (h.parameters.transition_mode.get() == xmm::HMM::TransitionMode::Ergodic) {
        for (int s = 0; s < N; s++) {
            h.prior[s] = N == 1 ? 1 : N == 2 ? R2[(g + i) % 3][s] : R[(g + i) % 4][s];
            for (int t = 0; t < N; t++)
                h.transition[s * N + t] = N == 1 ? 1 : N == 2 ? R2[(g + i + s + 1) % 3][t] : R[(g + i + s + 1) % 4][t];
        }
    } else
        for (int s = 0; s < N; s++) {
            float stay = s == N - 1 ? 1.f : R2[(g + i + s) % 3][0];
            h.transition[2 * s] = stay;
            h.transition[2 * s + 1] = 1 - stay;
        }
}
// a training set with n phrases per class, enough frames for every configuration
inline void fill(Set& s, std::vector<std::string> const& labels, int frames = 4) {
    for (size_t k = 0; k < labels.size(); k++) {
        Frames f;
        for (int t = 0; t < frames; t++) {
            std::vector<float> x(s.dim);
            for (int d = 0; d < s.dim; d++) x[d] = (float)((t * (d + 2) + k * 3 + d) % 5) - 0.5f * d + 0.25f * t;
            f.push_back(x);
        }
        s.add(labels[k], f);
    }
}
inline std::vector<std::string> const& labels(int n) {
    static const std::vector<std::string> l[] = {{}, {"a"}, {"a", "b"}, {"a", "b", "c"}, {"a", "b", "c", "d"}, {"a", "b", "c", "d", "e"}};
    return l[n];
}
// shapes of larger dimension, and long sequences of frames
inline std::vector<Shape> const& wide_shapes() {
    static const std::vector<Shape> s = {{false, 1, 0}, {true, 2, 1}, {false, 5, 0}, {true, 5, 2}, {true, 4, 3}, {true, 6, 3}};
    return s;
}
inline int pattern(int p, int t) { return p == 0 ? t % 3 : p == 1 ? (t * t / 2) % 5 % 3 : p == 2 ? (t / 3) % 3 : t == 5 ? 3 : t % 2; }
}  // namespace ref
