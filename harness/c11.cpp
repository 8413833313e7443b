// C11: matrices
#include "explore.hpp"
#include <memory>
#include "xmmMatrix.hpp"
using xmm::Matrix;

namespace {
typedef std::vector<double> V;
double det_ref(V a, int n) {  // cofactor expansion: exact for small integers
    if (n == 0) return 1;
    if (n == 1) return a[0];
    double r = 0;
    for (int c = 0; c < n; c++) {
        if (a[c] == 0) continue;
        V m;
        for (int i = 1; i < n; i++)
            for (int j = 0; j < n; j++)
                if (j != c) m.push_back(a[i * n + j]);
        r += (c % 2 ? -1 : 1) * a[c] * det_ref(m, n - 1);
    }
    return r;
}
V mul(V const& a, V const& b, int n, int k, int m) {
    V r(n * m, 0.);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++)
            for (int l = 0; l < k; l++) r[i * m + j] += a[i * k + l] * b[l * m + j];
    return r;
}
V tr(V const& a, int n, int m) {
    V r(n * m);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) r[j * n + i] = a[i * m + j];
    return r;
}
void near_all(V const& a, V const& b, double tol, const char* what) {
    for (size_t i = 0; i < b.size(); i++) VX_NEAR(a[i], b[i], tol, tol, "%s, element %zu", what, i);
}
template <class T>
V values(Matrix<T> const& m) {
    V r;
    for (unsigned i = 0; i < m.nrows * m.ncols; i++) r.push_back(m.data[i]);
    return r;
}
template <class T>
void fillm(Matrix<T>& m, V const& v) {
    for (size_t i = 0; i < v.size(); i++) m.data[i] = (T)v[i];
}
void show(V const& a, int n, int m) {
    if (!vx::verbose()) return;
    std::string s;
    char b[40];
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < m; j++) snprintf(b, 40, "%g ", a[i * m + j]), s += b;
        s += "; ";
    }
    vx::note("matrix %dx%d: %s", n, m, s.c_str());
}
template <class T>
void square(V a, int n, double scale, bool pinv, double tol, bool judge_singular) {
    double d = det_ref(a, n);  // of the unscaled integers: exact
    show(a, n, n);
    vx::note("scale %g, %s, %s", scale, pinv ? "pinv" : "gauss_jordan_inverse", sizeof(T) == 8 ? "double" : "float");
    for (auto& x : a) x *= scale;
    std::vector<T> mem(a.begin(), a.end());
    Matrix<T> own((unsigned)n, (unsigned)n, true), shared(n, n, mem.begin());
    fillm(own, a);
    Matrix<T>& m = pinv ? shared : own;
    double det = 12345;
    std::unique_ptr<Matrix<T>> inv;
    vx::step();
    if (d == 0) {
        if (judge_singular) {
            VX_CHECK(vx::throws([&] { inv.reset(pinv ? m.pinv(&det) : m.gauss_jordan_inverse(&det)); }),
                     "a singular matrix is inverted");
        }
        vx::outcome("singular");
    } else {
        inv.reset(pinv ? m.pinv(&det) : m.gauss_jordan_inverse(&det));
        VX_CHECK(inv && inv->nrows == (unsigned)n && inv->ncols == (unsigned)n, "the inverse has another shape");
        V iv = values(*inv), one(n * n, 0.);
        for (int i = 0; i < n; i++) one[i * n + i] = 1;
        near_all(mul(a, iv, n, n, n), one, tol, "product of the matrix and its inverse");
        near_all(mul(iv, a, n, n, n), one, tol, "product of the inverse and the matrix");
        double want = d * std::pow(scale, n);
        VX_NEAR(det, want, tol, 0, "determinant");
        vx::outcome(d < 0 ? "negative determinant" : "positive determinant");
    }
    V now = values(m);
    for (int i = 0; i < n * n; i++) VX_CHECK(now[i] == (double)(T)a[i], "the operand was altered");
    vx::Hash h;
    for (double x : a) h.addf(x);
    vx::state(h.add(n).h);
}
}  // namespace

VX_SCENARIO_SPLIT(square_3, 7) {
    int n = 1 + vx::pick(3);
    static const double A[] = {0, 1, -1, 2, 3};
    int na = n == 3 ? vx::tier(4, 5) : 5;
    V a(n * n);
    for (auto& x : a) x = A[vx::pick(na)];
    square<double>(a, n, 1., true, 1e-9, true);
}
VX_SCENARIO_SPLIT(square_4, 7) {
    V a(16);
    for (auto& x : a) x = vx::pick(2);
    square<double>(a, 4, 1., false, 1e-9, true);
}
// every row exchange of larger matrices: permuted triangular matrices
VX_SCENARIO_SPLIT(permuted, 4) {
    int n = 2 + vx::pick(vx::tier(4, 5));  // up to 5x5 (6x6)
    std::vector<int> perm, left;
    for (int i = 0; i < n; i++) left.push_back(i);
    while (!left.empty()) {
        int k = vx::pick((int)left.size());
        perm.push_back(left[k]);
        left.erase(left.begin() + k);
    }
    int fill = vx::pick(3), sign = vx::pick(2), scale = vx::pick(3);
    V u(n * n, 0.), a(n * n);
    for (int i = 0; i < n; i++)
        for (int j = i; j < n; j++)
            u[i * n + j] = i == j ? (sign && i == 0 ? -2 : 1 + i % 2) : (fill == 0 ? 0 : fill == 1 ? 1 : (i + 2 * j) % 5 - 2);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) a[i * n + j] = u[perm[i] * n + j];
    static const double S[] = {1., 1e-2, 1e3};
    square<double>(a, n, S[scale], vx::pick(2), 1e-8, true);
}
VX_SCENARIO(singles) {
    int n = 1 + vx::pick(2);
    static const double A[] = {0, 1, -2, 3};
    V a(n * n);
    for (auto& x : a) x = A[vx::pick(4)];
    static const double S[] = {1., 1e-2, 1e3};
    square<float>(a, n, S[vx::pick(3)], vx::pick(2), 1e-4, false);
}
VX_SCENARIO_LEAK(rectangular) {
    static const int SH[][2] = {{1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {2, 4}, {4, 2}, {2, 2}};
    int si = vx::pick(9);
    int n = SH[si][0], m = SH[si][1];
    static const double A[] = {0, 1, -2, 3};
    int na = n * m >= 8 ? 2 : vx::tier(3, 4);
    V a(n * m);
    for (auto& x : a) x = A[vx::pick(na)];
    show(a, n, m);
    V g = n >= m ? mul(tr(a, n, m), a, m, n, m) : mul(a, tr(a, n, m), n, m, n);
    double d = det_ref(g, std::min(n, m));
    Matrix<double> M((unsigned)n, (unsigned)m, true);
    fillm(M, a);
    double det = 0;
    std::unique_ptr<Matrix<double>> p;
    vx::step();
    if (d == 0) {
        bool t = vx::throws([&] { p.reset(M.pinv(&det)); });
        vx::outcome(t ? "refused" : "answered");
    } else {
        p.reset(M.pinv(&det));
        VX_CHECK((int)p->nrows == m && (int)p->ncols == n, "the pseudo-inverse has another shape");
        V q = values(*p);
        V aq = mul(a, q, n, m, n), qa = mul(q, a, m, n, m);
        near_all(mul(aq, a, n, n, m), a, 1e-9, "A A+ A = A");
        near_all(mul(qa, q, m, m, n), q, 1e-9, "A+ A A+ = A+");
        near_all(tr(aq, n, n), aq, 1e-9, "A A+ symmetric");
        near_all(tr(qa, m, m), qa, 1e-9, "A+ A symmetric");
        vx::outcome("full rank");
    }
    VX_CHECK(vx::throws([&] { p.reset(M.gauss_jordan_inverse(&det)); }) == (n != m || d == 0),
             "Gauss-Jordan inversion of a %dx%d matrix", n, m);
    V now = values(M);
    VX_CHECK(now == a, "the operand was altered");
    vx::Hash h;
    for (double x : a) h.addf(x);
    vx::state(h.add(n).add(m).h);
}
VX_SCENARIO_LEAK(operations) {
    unsigned n = 1 + vx::pick(3), k = 1 + vx::pick(3), k2 = 1 + vx::pick(3), m = 1 + vx::pick(3);
    int op = vx::pick(6);
    V a, b;
    for (int i = 0; i < n * k; i++) a.push_back((i * 7) % 5 - 2 + 0.5 * i);
    for (int i = 0; i < k2 * m; i++) b.push_back((i * 5) % 7 - 3 + 0.25 * i);
    std::vector<double> ma = a, mb = b;
    int sh = vx::pick(4);
    Matrix<double> A1(n, k, true), A2(n, k, ma.begin()), B1(k2, m, true), B2(k2, m, mb.begin());
    fillm(A1, a);
    fillm(B1, b);
    Matrix<double>&A = sh & 1 ? A2 : A1, &B = sh & 2 ? B2 : B1;
    vx::note("A %dx%d, B %dx%d, operation %d, sharing %d", n, k, k2, m, op, sh);
    vx::step();
    vx::Hash h;
    vx::state(h.add(n).add(k).add(k2).add(m).add(op).add(sh).h);
    if (op == 0) {
        std::unique_ptr<Matrix<double>> p;
        bool t = vx::throws([&] { p.reset(A.product(&B)); });
        VX_CHECK(t == (k != k2), "product of %dx%d and %dx%d %s", n, k, k2, m, t ? "refused" : "accepted");
        if (!t) {
            VX_CHECK((int)p->nrows == n && (int)p->ncols == m, "product has another shape");
            near_all(values(*p), mul(a, b, n, k, m), 1e-12, "product");
        }
        vx::outcome(t ? "refused" : "product");
    } else if (op == 1) {
        std::unique_ptr<Matrix<double>> p(A.transpose());
        VX_CHECK((int)p->nrows == k && (int)p->ncols == n, "transpose has another shape");
        near_all(values(*p), tr(a, n, k), 0, "transpose");
        double s = 0;
        for (double x : a) s += x;
        VX_NEAR(A.sum(), s, 1e-5, 1e-5, "sum");
    } else if (op == 2) {  // copies are independent, shared data stays shared
        Matrix<double> C(A), D;
        D = A;
        bool shared = sh & 1;
        near_all(values(C), a, 0, "copy");
        near_all(values(D), a, 0, "assigned matrix");
        A.data[0] = 99;
        V a2 = a;
        a2[0] = 99;
        near_all(values(C), shared ? a2 : a, 0, "copy after a change of the source");
        near_all(values(D), shared ? a2 : a, 0, "assigned matrix after a change of the source");
        if (!shared) {
            C.data[0] = 77;
            near_all(values(A), a2, 0, "source after a change of the copy");
        }
        {
            std::unique_ptr<Matrix<double>> E(new Matrix<double>(B));
            D = *E;
            C = D;
        }
        near_all(values(C), b, 0, "chain of assignments");
        D = D;
        near_all(values(D), b, 0, "self assignment");
        return;
    } else if (op == 3) {
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                V w = a;
                for (int c = 0; c < k; c++) std::swap(w[i * k + c], w[j * k + c]);
                A.swap_lines(i, j);
                near_all(values(A), w, 0, "swapped lines");
                A.swap_lines(i, j);
            }
    } else if (op == 4) {
        for (int i = 0; i < k; i++)
            for (int j = 0; j < k; j++) {
                V w = a;
                for (int c = 0; c < n; c++) std::swap(w[c * k + i], w[c * k + j]);
                A.swap_columns(i, j);
                near_all(values(A), w, 0, "swapped columns");
                A.swap_columns(i, j);
            }
    } else {
        Matrix<double> R(n, k, true);
        fillm(R, a);
        R.resize(k2, m);
        fillm(R, b);
        near_all(values(R), b, 0, "resized matrix");
        std::unique_ptr<Matrix<double>> p(R.transpose());
        near_all(values(*p), tr(b, k2, m), 0, "transpose of a resized matrix");
        VX_CHECK(vx::throws([&] { R.resize(2); }) == (k2 != m), "square resize of a %dx%d matrix", k2, m);
        if (k2 == m) {
            fillm(R, {1, 2, 3, 5});
            near_all(values(R), {1, 2, 3, 5}, 0, "matrix after square resize");
            double det;
            std::unique_ptr<Matrix<double>> i(R.gauss_jordan_inverse(&det));
            VX_NEAR(det, -1, 1e-9, 0, "determinant");
        }
        Matrix<double> Z;
        Z.resize(n, k);
        fillm(Z, a);
        near_all(values(Z), a, 0, "resized default matrix");
    }
    near_all(values(A), a, 0, "operand A");
    near_all(values(B), b, 0, "operand B");
}
