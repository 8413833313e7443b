// C10: gaussian distributions
#include <memory>
#include "ref.hpp"
#include "xmm.h"
using xmm::GaussianDistribution; using xmm::Ellipse;
typedef GaussianDistribution GD;
using ref::V;

namespace {
GD::CovarianceMode mode(bool diag) { return diag ? GD::CovarianceMode::Diagonal : GD::CovarianceMode::Full; }

struct GModel : ref::Gauss {
    bool valid = false;  // the inverse is defined
    V out;               // last reported output covariance
};
struct Obs {
    V x;
    std::vector<float> f;
};
Obs observation(int dim, int k) {
    static const double G[][3] = {{0, 0, 0}, {1, -2, 0.5}, {-0.75, 1.5, 3}, {40, 0, -60}};
    Obs o;
    for (int i = 0; i < dim; i++) {
        o.x.push_back(G[k][i % 3]);
        o.f.push_back((float)G[k][i % 3]);
    }
    return o;
}
void show(GModel const& m) {
    if (!vx::verbose()) return;
    std::string s;
    char b[40];
    for (double v : m.mean) snprintf(b, 40, "%g ", v), s += b;
    s += "/ ";
    for (double v : m.storedcov()) snprintf(b, 40, "%g ", v), s += b;
    vx::note("  %s %s dimension %d/%d mean/covariance %s%s", m.bi ? "bimodal" : "unimodal", m.diag ? "diagonal" : "full", m.dim,
             m.din, s.c_str(), m.valid ? "" : "(not updated)");
}
void check(GD const& g, GModel const& m, const char* who, int nobs = 4) {
    VX_CHECK((int)g.dimension.get() == m.dim, "%s: dimension", who);
    VX_CHECK((int)g.dimension_input.get() == m.din, "%s: input dimension is %u, expected %d", who, g.dimension_input.get(), m.din);
    VX_CHECK(g.covariance_mode.get() == mode(m.diag), "%s: covariance mode", who);
    VX_CHECK((int)g.mean.size() == m.dim, "%s: mean has %zu values", who, g.mean.size());
    VX_CHECK((int)g.covariance.size() == (m.diag ? m.dim : m.dim * m.dim), "%s: covariance has %zu values", who, g.covariance.size());
    V sc = m.storedcov();
    for (int i = 0; i < m.dim; i++) VX_NEAR(g.mean[i], m.mean[i], 1e-6, 1e-7, "%s: mean %d", who, i);
    for (size_t i = 0; i < sc.size(); i++) VX_NEAR(g.covariance[i], sc[i], 1e-5, 1e-6, "%s: covariance %zu", who, i);
    for (int k = 0; k < nobs; k++) {
        Obs o = observation(m.dim, k);
        vx::step(3);
        if (!m.valid) {
            VX_CHECK(vx::throws([&] { g.likelihood(o.f.data()); }), "%s: likelihood of a distribution without inverse covariance", who);
            if (m.bi) {
                VX_CHECK(vx::throws([&] { g.likelihood_input(o.f.data()); }), "%s: input likelihood without inverse covariance", who);
                VX_CHECK(vx::throws([&] { g.likelihood_bimodal(o.f.data(), o.f.data() + m.din); }), "%s: joint likelihood without inverse covariance", who);
            }
            break;
        }
        ref::near_density(g.likelihood(o.f.data()), m.joint(o.x.data()), 1e-7, who);
        if (m.bi) {
            ref::near_density(g.likelihood_input(o.f.data()), m.input(o.x.data()), 1e-7, "input likelihood");
            ref::near_density(g.likelihood_bimodal(o.f.data(), o.f.data() + m.din), m.joint(o.x.data()), 1e-7, "joint likelihood");
            std::vector<float> in(o.f.begin(), o.f.begin() + m.din), out(k == 1 ? 7 : 0, 5.f);
            g.regression(in, out);
            V w = m.regression(o.x.data());
            VX_CHECK(out.size() == w.size(), "%s: regression has %zu values", who, out.size());
            for (size_t i = 0; i < w.size(); i++) VX_NEAR(out[i], w[i], 1e-5, 1e-4, "%s: regression of output %zu for observation %d", who, i, k);
        }
    }
    if (m.valid && m.bi) {
        V oc = m.outcov();
        VX_CHECK(g.output_covariance.size() == oc.size(), "%s: output covariance has %zu values, expected %zu", who,
                 g.output_covariance.size(), oc.size());
        for (size_t i = 0; i < oc.size(); i++) VX_NEAR(g.output_covariance[i], oc[i], 1e-6, 1e-7, "%s: output covariance %zu", who, i);
    }
    if (!m.bi) {
        Obs o = observation(m.dim, 0);
        VX_CHECK(vx::throws([&] { g.likelihood_input(o.f.data()); }) && vx::throws([&] { g.likelihood_bimodal(o.f.data(), o.f.data()); }) &&
                     vx::throws([&] {
                         std::vector<float> in, out;
                         g.regression(in, out);
                     }),
                 "%s: a bimodal request on a unimodal distribution is not refused", who);
    }
}
const int SH[][3] = {{0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {1, 2, 1}, {1, 3, 1}, {1, 3, 2}};
void spd(GModel& m, V const& L) {  // lower triangular entries, row by row
    V l(m.dim * m.dim, 0.);
    int k = 0;
    for (int i = 0; i < m.dim; i++)
        for (int j = 0; j <= i; j++) l[i * m.dim + j] = L[k++];
    m.cov.assign(m.dim * m.dim, 0.);
    for (int i = 0; i < m.dim; i++)
        for (int j = 0; j < m.dim; j++)
            for (int q = 0; q < m.dim; q++) m.cov[i * m.dim + j] += l[i * m.dim + q] * l[j * m.dim + q];
    if (m.diag)
        for (int i = 0; i < m.dim; i++)
            for (int j = 0; j < m.dim; j++)
                if (i != j) m.cov[i * m.dim + j] = 0;
}
uint64_t hash(GModel const& m) {
    vx::Hash h;
    h.add(m.bi).add(m.diag).add(m.dim).add(m.din).add(m.valid);
    for (double v : m.mean) h.addf(v);
    for (double v : m.cov) h.addf(v);
    return h.h;
}
// a standard covariance for histories
void set_standard(GD& g, GModel& m, int k) {
    m.mean.assign(m.dim, 0);
    for (int i = 0; i < m.dim; i++) m.mean[i] = 0.5 * i - (k ? 1 : 0.25);
    V L;
    for (int i = 0; i < m.dim; i++)
        for (int j = 0; j <= i; j++) L.push_back(i == j ? 1 + 0.5 * ((i + k) % 2) : (k ? -0.5 : 0.75) + 0.25 * j);
    spd(m, L);
    g.mean = m.mean;
    g.covariance = m.storedcov();
    g.updateInverseCovariance();
    m.valid = true;
}
}  // namespace

// every mean / covariance / mode of the grid
VX_SCENARIO_SPLIT(values, 5) {
    const int* s = SH[vx::pick(6)];
    GModel m;
    m.bi = s[0];
    m.dim = s[1];
    m.din = s[2];
    m.diag = vx::pick(2);
    static const double D[] = {1, 0.5, 2, 0.03125}, O[] = {0, 1, -0.5, 2}, M[] = {0, 1, -2.5};
    V L;
    for (int i = 0; i < m.dim; i++)
        for (int j = 0; j <= i; j++) {
            if (i == j)
                L.push_back(D[vx::pick(m.dim == 3 ? vx::tier(3, 4) : 4)]);
            else
                L.push_back(m.diag ? 0. : O[vx::pick(m.dim == 3 ? 3 : 4)]);
        }
    for (int i = 0; i < m.dim; i++) m.mean.push_back(M[vx::pick(m.dim == 3 ? vx::tier(2, 3) : 3)]);
    spd(m, L);
    m.valid = true;
    show(m);
    GD g(m.bi, m.dim, m.din, mode(m.diag));
    g.mean = m.mean;
    g.covariance = m.storedcov();
    g.updateInverseCovariance();
    vx::state(hash(m));
    bool refused = m.bi;  // exceptions are slow: refusals are judged on few
    if (!refused && m.mean[0] != 0) refused = true;
    if (m.bi || !refused)
        check(g, m, "gaussian");
    else
        for (int k = 0; k < 4; k++) {
            Obs o = observation(m.dim, k);
            ref::near_density(g.likelihood(o.f.data()), m.joint(o.x.data()), 1e-7, "likelihood");
        }
    // ellipses of every pair of axes
    for (int a = 0; a < m.dim; a++)
        for (int b = 0; b < m.dim; b++) {
            if (a == b) continue;
            Ellipse e = g.toEllipse(a, b);
            vx::step();
            long double va = m.c(a, a), vb = m.c(b, b), vab = m.c(a, b);
            long double l1 = 0.5L * (va + vb + sqrtl((va - vb) * (va - vb) + 4 * vab * vab));
            long double l2 = va + vb - l1;
            VX_NEAR(e.x, m.mean[a], 1e-6, 1e-6, "ellipse x");
            VX_NEAR(e.y, m.mean[b], 1e-6, 1e-6, "ellipse y");
            VX_NEAR(e.width * e.width, 5.991 * l1, 1e-5, 1e-6, "ellipse width^2 on axes %d,%d", a, b);
            VX_NEAR(e.height * e.height, 5.991 * l2, 1e-4, 1e-4, "ellipse height^2 on axes %d,%d", a, b);
            if (fabsl(l1 - l2) > 1e-6) {
                // the direction of the major axis is an eigenvector
                long double ux = cosl(e.angle), uy = sinl(e.angle);
                VX_NEAR(va * ux + vab * uy, l1 * ux, 1e-4, 1e-4, "ellipse angle on axes %d,%d", a, b);
                VX_NEAR(vab * ux + vb * uy, l1 * uy, 1e-4, 1e-4, "ellipse angle on axes %d,%d", a, b);
            }
        }
}

// all short histories of mode switches, re-dimensioning, copies, reloads...
VX_SCENARIO_LEAK(history) {
    const int* s = SH[vx::pick(6)];
    GModel m;
    m.bi = s[0];
    m.dim = s[1];
    m.din = s[2];
    m.diag = vx::pick(2);
    std::unique_ptr<GD> g(new GD(m.bi, m.dim, m.din, mode(m.diag)));
    int start = vx::pick(2);
    if (start)
        set_standard(*g, m, 0);
    else {
        m.mean.assign(m.dim, 0);
        m.cov.assign(m.dim * m.dim, 0);
        g->mean = m.mean;
        g->covariance = m.storedcov();
    }
    vx::note("start:");
    show(m);
    int depth = vx::tier(3, 4);
    auto revalidate = [&] {  // is the covariance of the model invertible?
        for (int d = 0; d < m.dim; d++)
            if (m.cov[d * m.dim + d] <= 0) return false;
        return true;
    };
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(14);
        vx::step();
        switch (op) {
            case 0:
            case 1: {
                bool diag = op == 1;
                vx::note("covariance_mode.set(%s)", diag ? "diagonal" : "full");
                g->covariance_mode.set(mode(diag));
                if (diag)
                    for (int i = 0; i < m.dim; i++)
                        for (int j = 0; j < m.dim; j++)
                            if (i != j) m.cov[i * m.dim + j] = 0;
                m.diag = diag;
                m.valid = revalidate();
                break;
            }
            case 2: {
                vx::note("copy");
                std::unique_ptr<GD> c(new GD(*g));
                g.swap(c);
                break;
            }
            case 3: {
                vx::note("assign to another distribution");
                std::unique_ptr<GD> c(new GD(!m.bi, 4, m.bi ? 0 : 2, mode(!m.diag)));
                *c = *g;
                g.swap(c);
                break;
            }
            case 4: {
                vx::note("JSON into another distribution");
                std::unique_ptr<GD> c(new GD(!m.bi, 4, m.bi ? 0 : 2, mode(!m.diag)));
                c->fromJson(g->toJson());
                g.swap(c);
                break;
            }
            case 5: {
                vx::note("JSON text, new distribution");
                Json::Value j;
                Json::Reader r;
                r.parse(g->toJson().toStyledString(), j);
                std::unique_ptr<GD> c(new GD(j));
                g.swap(c);
                break;
            }
            case 6: {
                vx::note("regularize, update");
                std::vector<double> reg;
                for (int i = 0; i < m.dim; i++) reg.push_back(0.25 * (i + 1));
                g->regularize(reg);
                g->updateInverseCovariance();
                for (int i = 0; i < m.dim; i++) m.cov[i * m.dim + i] += reg[i];
                m.valid = true;
                break;
            }
            case 7: {
                vx::note("set mean and covariance, update");
                set_standard(*g, m, 1);
                break;
            }
            case 8: {
                vx::note("singular covariance, update");
                for (auto& v : m.cov) v = 0;
                g->covariance = m.storedcov();
                VX_CHECK(vx::throws([&] { g->updateInverseCovariance(); }), "the update with a null covariance is not refused");
                m.valid = false;
                break;
            }
            case 9:
            case 10: {
                int nd = op == 9 ? (m.dim == 3 ? 2 : m.dim + 1) : (m.bi ? 2 : 1);
                vx::note("dimension.set(%d), then set mean and covariance", nd);
                g->dimension.set(nd);
                VX_CHECK((int)g->mean.size() == nd && (int)g->covariance.size() == (m.diag ? nd : nd * nd), "sizes after a change of dimension");
                m.dim = nd;
                if (m.bi && m.din > nd - 1) m.din = nd - 1;
                m.mean = g->mean;
                if (vx::pick(2))
                    set_standard(*g, m, 0);
                else {
                    // not updated: must refuse
                    m.cov.assign(nd * nd, 0);
                    m.mean.assign(nd, 0);
                    g->mean = m.mean;
                    g->covariance = m.storedcov();
                    m.valid = false;
                }
                break;
            }
            case 11: {
                int ni = m.bi ? (m.din % (m.dim - 1)) + 1 : 0;
                vx::note("dimension_input.set(%d)", ni);
                g->dimension_input.set(ni);
                m.din = ni;
                break;
            }
            case 12: {
                if (m.dim < 2 || !m.valid) throw vx::Prune{};
                int a = vx::pick(2), b = 1 - a;
                vx::note("from its own ellipse on axes %d,%d", a, b);
                Ellipse e = g->toEllipse(a, b);
                g->fromEllipse(e, a, b);
                break;
            }
            case 13: {
                if (m.dim < 2) throw vx::Prune{};
                static const float A[] = {0.f, 1.5707963f, 0.5f, -0.7853982f, 3.1415927f};
                Ellipse e;
                e.x = 0.5;
                e.y = -1;
                e.width = 6;
                e.height = 3;
                e.angle = A[vx::pick(5)];
                vx::note("from an ellipse with angle %g", e.angle);
                // the rest of the covariance must stay compatible: block it
                for (int i = 0; i < m.dim; i++)
                    for (int j = 0; j < m.dim; j++)
                        if (i != j) m.cov[i * m.dim + j] = 0;
                        else if (m.cov[i * m.dim + j] <= 0) m.cov[i * m.dim + j] = 1;
                g->covariance = m.storedcov();
                g->fromEllipse(e, 0, 1);
                double l1 = 36 / 5.991, l2 = 9 / 5.991, cs = cos(e.angle), sn = sin(e.angle);
                m.mean[0] = 0.5;
                m.mean[1] = -1;
                m.cov[0] = l1 * cs * cs + l2 * sn * sn;
                m.cov[m.dim + 1] = l1 * sn * sn + l2 * cs * cs;
                if (!m.diag) m.cov[1] = m.cov[m.dim] = (l1 - l2) * cs * sn;
                m.valid = true;
                break;
            }
        }
        show(m);
        vx::state(hash(m));
    }
    // after a round trip through single-precision ellipses compare to what the
    // distribution now holds, within that precision
    for (int i = 0; i < m.dim; i++) {
        VX_CHECK((int)g->mean.size() == m.dim, "mean has %zu values", g->mean.size());
        VX_NEAR(g->mean[i], m.mean[i], 1e-5, 1e-5, "mean %d", i);
    }
    V sc = m.storedcov();
    VX_CHECK(g->covariance.size() == sc.size(), "covariance has %zu values", g->covariance.size());
    for (size_t i = 0; i < sc.size(); i++) VX_NEAR(g->covariance[i], sc[i], 1e-4, 1e-5, "covariance %zu", i);
    GModel exact = m;
    exact.mean = g->mean;
    for (int i = 0; i < m.dim; i++)
        for (int j = 0; j < m.dim; j++)
            exact.cov[i * m.dim + j] = m.diag ? (i == j ? g->covariance[i] : 0) : g->covariance[i * m.dim + j];
    check(*g, exact, "gaussian after history", 3);
    // a copy and the original are independent
    GD copy(*g);
    copy.dimension.set(m.dim + 1);
    for (auto& v : copy.covariance) v = 9;
    check(*g, exact, "gaussian after its copy was changed", 2);
}

// larger dimensions, every split into input and output
VX_SCENARIO_SPLIT(wide, 3) {
    GModel m;
    m.dim = 4 + vx::pick(vx::tier(4, 6));
    m.din = vx::pick(m.dim);
    m.bi = m.din > 0;
    m.diag = vx::pick(2);
    int k = vx::pick(vx::tier(6, 24)), how = vx::pick(5);
    for (int i = 0; i < m.dim; i++) m.mean.push_back(((i * 7 + k) % 5) * 0.5 - 1);
    V L;
    for (int i = 0; i < m.dim; i++)
        for (int j = 0; j <= i; j++) L.push_back(i == j ? 0.5 + 0.25 * ((i * 3 + k) % 5) : (((i + 1) * (j + 2) + k) % 7 - 3) * 0.25);
    spd(m, L);
    m.valid = true;
    show(m);
    GD g(m.bi, m.dim, m.din, mode(m.diag && how != 4));
    if (how == 4) {
        bool d = m.diag;
        m.diag = false;
        g.mean = m.mean;
        g.covariance = m.storedcov();
        g.updateInverseCovariance();
        m.diag = d;
        if (d) g.covariance_mode.set(mode(true));
    } else {
        g.mean = m.mean;
        g.covariance = m.storedcov();
    }
    g.updateInverseCovariance();
    vx::step();
    vx::state(hash(m));
    if (how == 0 || how == 4) check(g, m, "gaussian");
    if (how == 1) check(GD(g), m, "copy");
    if (how == 2) {
        GD h(true, 3, 1);
        h = g;
        check(h, m, "assigned");
    }
    if (how == 3) {
        GD h(false, 2, 0);
        h.fromJson(g.toJson());
        check(h, m, "reloaded");
    }
}
