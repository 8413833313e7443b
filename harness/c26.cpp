// C26: global settings and settings of single classes
#include "model_history.hpp"
using namespace ref;

namespace {
typedef std::vector<double> S;  // the values of all settings
template <class P>
S values(P const& p) {
    Snap s;
    settings(s, p);
    return s.v;
}
const double VALUES[][2] = {{2, 1}, {0.5, 0.125}, {0.25, 0.0625}, {0, 1}};
void set(xmm::ClassParameters<xmm::GMM>& p, int k, double v) {
    switch (k) {
        case 0: p.gaussians.set((int)v); break;
        case 1: p.relative_regularization.set(v); break;
        case 2: p.absolute_regularization.set(v); break;
        case 3: p.covariance_mode.set((GD::CovarianceMode)(int)v); break;
    }
}
void set(xmm::ClassParameters<xmm::HMM>& p, int k, double v) {
    switch (k) {
        case 0: p.states.set((int)v); break;
        case 1: p.gaussians.set((int)v); break;
        case 2: p.relative_regularization.set(v); break;
        case 3: p.absolute_regularization.set(v); break;
        case 4: p.covariance_mode.set((GD::CovarianceMode)(int)v); break;
        case 5: p.transition_mode.set((xmm::HMM::TransitionMode)(int)v); break;
        case 6: p.regression_estimator.set((xmm::HMM::RegressionEstimator)(int)v); break;
        case 7: p.hierarchical.set(v != 0); break;
    }
}
double value(bool gmm, int k, int i) {
    if (gmm) return VALUES[k][i];
    static const double H[][2] = {{3, 1}, {2, 1}, {0.5, 0.125}, {0.25, 0.0625}, {0, 1}, {0, 1}, {2, 1}, {0, 1}};
    return H[k][i];
}
struct Ref {
    S global;
    std::map<std::string, S> own, trained;
    int mode = 0, est = 0;
};
// the structure of a class follows its parameters
void check_structure(xmm::SingleClassGMM const& c, S const& p, const char* who) {
    VX_CHECK((int)c.components.size() == (int)p[0] && (int)c.mixture_coeffs.size() == (int)p[0], "%s: %zu components for %g gaussians", who,
             c.components.size(), p[0]);
    for (auto& g : c.components) {
        bool diag = (int)p[3] == 1;
        VX_CHECK((g.covariance_mode.get() == GD::CovarianceMode::Diagonal) == diag, "%s: covariance mode", who);
        size_t n = g.dimension.get();
        VX_CHECK(g.covariance.size() == (diag ? n : n * n), "%s: %zu covariances", who, g.covariance.size());
        for (size_t d = 0; d < n; d++)
            VX_CHECK(g.covariance[diag ? d : d * n + d] >= p[2] * 0.9999, "%s: variance below the absolute regularisation %g", who, p[2]);
    }
}
void check_structure(xmm::SingleClassHMM const& c, S const& p, const char* who) {
    VX_CHECK((int)c.states.size() == (int)p[0], "%s: %zu states instead of %g", who, c.states.size(), p[0]);
    bool erg = (int)p[5] == 0;
    VX_CHECK(c.transition.size() == (erg ? p[0] * p[0] : 2 * p[0]) && c.prior.size() == (erg ? p[0] : 0), "%s: topology", who);
    for (auto& s : c.states) {
        check_structure(s, S{p[1], p[2], p[3], p[4]}, who);
        VX_CHECK(s.parameters.gaussians.get() == p[1], "%s: gaussians of a state", who);
    }
}
template <class M>
struct Run {
    std::unique_ptr<M> m[2];
    Ref r[2];
    Shape sh{false, 2, 0};
    std::unique_ptr<Set> set;

    Run() {
        set = build_set({{"a", 0}, {"b", 1}}, sh);
        for (int i = 0; i < 2; i++) {
            m[i].reset(new M(false));
            m[i]->configuration.multithreading = xmm::MultithreadingMode::Sequential;
            m[i]->shared_parameters->em_algorithm_min_iterations.set(1);
            m[i]->shared_parameters->em_algorithm_max_iterations.set(1);
            first(m[i]->configuration);
            r[i].global = values(m[i]->configuration);
        }
    }
    static void first(xmm::ClassParameters<xmm::GMM>& p) { p.gaussians.set(3); }
    static void first(xmm::ClassParameters<xmm::HMM>& p) { p.states.set(2), p.gaussians.set(3); }
    void check(const char* who) {
        for (int i = 0; i < 2; i++) {
            auto& c = m[i]->configuration;
            VX_CHECK(values(c) == r[i].global, "%s: global settings of model %d", who, i);
            VX_CHECK((int)c.multithreading == r[i].mode && (int)c.multiClass_regression_estimator == r[i].est, "%s: modes of model %d", who, i);
            for (const char* l : {"a", "b", "c", ""}) {
                bool has = r[i].own.count(l);
                VX_CHECK(c.includes(l) == has, "%s: model %d %s settings of its own for \"%s\"", who, i, has ? "lost the" : "has", l);
                if (has) VX_CHECK(values(c[l]) == r[i].own[l], "%s: settings of class %s of model %d", who, l, i);
            }
            VX_CHECK(m[i]->size() == r[i].trained.size(), "%s: model %d has %u classes", who, i, m[i]->size());
            vx::Hash h;
            for (auto& t : r[i].trained) {
                VX_CHECK(m[i]->models.count(t.first), "%s: class %s is missing", who, t.first.c_str());
                auto& cl = m[i]->models[t.first];
                VX_CHECK(values(cl.parameters) == t.second, "%s: class %s of model %d was not trained with these settings", who, t.first.c_str(), i);
                check_structure(cl, t.second, who);
                for (double x : t.second) h.addf(x);
            }
            for (double x : r[i].global) h.addf(x);
            for (auto& o : r[i].own) {
                h.adds(o.first);
                for (double x : o.second) h.addf(x);
            }
            vx::state(h.h);
        }
    }
    void train(int w) {
        m[w]->train(set->ts.get());
        r[w].trained.clear();
        for (const char* l : {"a", "b"}) r[w].trained[l] = r[w].own.count(l) ? r[w].own[l] : r[w].global;
    }
    void train(int w, std::string const& l) {
        m[w]->train(set->ts.get(), l);
        r[w].trained[l] = r[w].own.count(l) ? r[w].own[l] : r[w].global;
    }
    void own(int w, std::string const& l, int k, double v) {
        auto& p = m[w]->configuration[l];
        if (!r[w].own.count(l)) r[w].own[l] = r[w].global;
        ::set(p, k, v);
        r[w].own[l][k] = v;
    }
};
template <class M, int K>
void one_setting(int depth, bool gmm) {
    Run<M> x;
    int k = vx::pick(K);
    double v[2] = {value(gmm, k, 0), value(gmm, k, 1)};
    vx::note("setting %d", k);
    x.check("initially");
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(13);
        vx::step();
        M& m = *x.m[0];
        Ref& r = x.r[0];
        switch (op) {
            case 0: case 1:
                vx::note("global %g", v[op]);
                ::set(m.configuration, k, v[op]);
                r.global[k] = v[op];
                break;
            case 2: case 3: {
                const char* l = op == 2 ? "a" : "b";
                vx::note("%s: %g", l, v[op - 2]);
                x.own(0, l, k, v[op - 2]);
                break;
            }
            case 4:
                vx::note("reset a");
                m.configuration.reset("a");
                r.own.erase("a");
                break;
            case 5:
                vx::note("reset all, and an absent one");
                m.configuration.reset("zz");
                m.configuration.reset();
                r.own.clear();
                break;
            case 6:
                vx::note("train");
                x.train(0);
                break;
            case 7:
                vx::note("train b");
                x.train(0, "b");
                break;
            case 8:
                vx::note("the other model = this one, whose setting changes");
                *x.m[1] = m;
                x.r[1] = r;
                ::set(m.configuration, k, v[0]);
                r.global[k] = v[0];
                break;
            case 9:
                vx::note("copy, whose class b changes");
                x.m[1].reset(new M(m));
                x.r[1] = r;
                x.own(1, "b", k, v[0]);
                break;
            case 10: {
                vx::note("reload into the other model");
                x.m[1]->fromJson(m.toJson());
                x.r[1] = r;
                break;
            }
            case 11: {
                vx::note("configuration of the other one");
                if (d % 2) {
                    m.configuration = x.m[1]->configuration;
                } else {
                    Json::Value doc = x.m[1]->configuration.toJson();
                    m.configuration.fromJson(doc);
                }
                r.global = x.r[1].global;
                r.own = x.r[1].own;
                break;
            }
            case 12:
                vx::note("swap");
                std::swap(x.m[0], x.m[1]);
                std::swap(x.r[0], x.r[1]);
                break;
        }
        x.check("after the operation");
    }
    x.train(0);
    x.check("after training");
}
// all settings at once
template <class M>
void combined(int depth, bool gmm, int K) {
    Run<M> x;
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(7), i = vx::pick(2);
        vx::step();
        M& m = *x.m[0];
        Ref& r = x.r[0];
        switch (op) {
            case 0:
                vx::note("all global settings to value %d", i);
                for (int k = 0; k < K; k++) ::set(m.configuration, k, value(gmm, k, i)), r.global[k] = value(gmm, k, i);
                break;
            case 1: case 2:
                vx::note("all settings of %s to value %d", op == 1 ? "a" : "b", i);
                for (int k = 0; k < K; k++) x.own(0, op == 1 ? "a" : "b", k, value(gmm, k, i));
                break;
            case 3:
                vx::note("touch the settings of %s", i ? "c" : "");
                m.configuration[i ? "c" : ""];
                if (!r.own.count(i ? "c" : "")) r.own[i ? "c" : ""] = r.global;
                break;
            case 4:
                vx::note("modes %d", i);
                m.configuration.multithreading = i ? xmm::MultithreadingMode::Parallel : xmm::MultithreadingMode::Sequential;
                m.configuration.multiClass_regression_estimator =
                    i ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
                r.mode = r.est = i;
                break;
            case 5:
                if (i) {
                    vx::note("copy");
                    x.m[0].reset(new M(m));
                } else {
                    vx::note("reload");
                    Json::Value doc = m.toJson();
                    x.m[0].reset(new M(false));
                    x.m[0]->fromJson(doc);
                }
                break;
            case 6:
                vx::note("train, reset %s", i ? "b" : "all");
                x.train(0);
                if (i)
                    m.configuration.reset("b"), r.own.erase("b");
                else
                    m.configuration.reset(), r.own.clear();
                break;
        }
        x.check("after the operation");
    }
    x.train(0);
    x.check("after training");
}
}  // namespace

VX_SCENARIO_SPLIT(gmm_setting, 3) { one_setting<xmm::GMM, 4>(vx::tier(4, 5), true); }
VX_SCENARIO_SPLIT(hmm_setting, 3) { one_setting<xmm::HierarchicalHMM, 8>(vx::tier(3, 4), false); }
VX_SCENARIO_SPLIT(gmm_combined, 3) { combined<xmm::GMM>(vx::tier(4, 5), true, 4); }
VX_SCENARIO_SPLIT(hmm_combined, 3) { combined<xmm::HierarchicalHMM>(vx::tier(4, 5), false, 8); }
