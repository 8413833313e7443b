// Boring reference implementations: multivariate gaussians.
#pragma once
#include "explore.hpp"

namespace ref {
typedef std::vector<double> V;
typedef std::vector<long double> LV;

// solves A x = b for all columns of b and returns det(A); partial pivoting in
// long double; det 0 if singular (relative)
inline long double solve(LV a, int n, LV& b, int m) {
    long double det = 1;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++)
            if (fabsl(a[i * n + k]) > fabsl(a[p * n + k])) p = i;
        if (fabsl(a[p * n + k]) == 0) return 0;
        if (p != k) {
            for (int j = 0; j < n; j++) std::swap(a[p * n + j], a[k * n + j]);
            for (int j = 0; j < m; j++) std::swap(b[p * m + j], b[k * m + j]);
            det = -det;
        }
        det *= a[k * n + k];
        for (int i = 0; i < n; i++) {
            if (i == k) continue;
            long double f = a[i * n + k] / a[k * n + k];
            for (int j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j];
            for (int j = 0; j < m; j++) b[i * m + j] -= f * b[k * m + j];
        }
    }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) b[i * m + j] /= a[i * n + i];
    return det;
}

struct Gauss {
    bool bi = false, diag = false;
    int dim = 1, din = 0;
    V mean;  // dim
    V cov;   // dim*dim, diagonal matrix if diag

    long double c(int i, int j) const { return diag && i != j ? 0 : cov[i * dim + j]; }
    // density over the first n dimensions
    long double density(const double* x, int n) const {
        LV a(n * n), b(n), d(n);
        for (int i = 0; i < n; i++) {
            d[i] = b[i] = (long double)x[i] - mean[i];
            for (int j = 0; j < n; j++) a[i * n + j] = c(i, j);
        }
        long double det = solve(a, n, b, 1), q = 0;
        for (int i = 0; i < n; i++) q += b[i] * d[i];
        return expl(-0.5L * q) / sqrtl(det * powl(2 * M_PIl, n));
    }
    long double joint(const double* x) const { return density(x, dim); }
    long double input(const double* x) const { return density(x, din); }
    V regression(const double* x) const {
        int no = dim - din;
        V r(no);
        LV a(din * din), b(din);
        for (int i = 0; i < din; i++) {
            b[i] = (long double)x[i] - mean[i];
            for (int j = 0; j < din; j++) a[i * din + j] = c(i, j);
        }
        solve(a, din, b, 1);
        for (int o = 0; o < no; o++) {
            long double s = mean[din + o];
            for (int j = 0; j < din; j++) s += c(din + o, j) * b[j];
            r[o] = (double)s;
        }
        return r;
    }
    // full: no x no matrix; diagonal: the no variances
    V outcov() const {
        int no = dim - din;
        V r;
        if (diag) {
            for (int o = 0; o < no; o++) r.push_back(cov[(din + o) * dim + din + o]);
            return r;
        }
        LV a(din * din), b(din * no);
        for (int i = 0; i < din; i++) {
            for (int j = 0; j < din; j++) a[i * din + j] = c(i, j);
            for (int o = 0; o < no; o++) b[i * no + o] = c(i, din + o);
        }
        solve(a, din, b, no);
        for (int o = 0; o < no; o++)
            for (int p = 0; p < no; p++) {
                long double s = c(din + o, din + p);
                for (int j = 0; j < din; j++) s -= c(din + o, j) * b[j * no + p];
                r.push_back((double)s);
            }
        return r;
    }
    V storedcov() const {
        if (!diag) return cov;
        V r;
        for (int d = 0; d < dim; d++) r.push_back(cov[d * dim + d]);
        return r;
    }
};
// the library floors densities at 1e-180
inline void near_density(double got, long double want, double rtol, const char* what) {
    if (want < 1e-170L) {
        VX_CHECK(got >= 0 && got < 1e-170, "%s: got %g, expected less than 1e-170", what, got);
        return;
    }
    VX_NEAR(got, (double)want, rtol, 0, "%s", what);
}
}  // namespace ref
