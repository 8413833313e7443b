// C14: filtering with hidden Markov models, hierarchical or not
#include "model_build.hpp"
using xmm::HierarchicalHMM;
using namespace ref;

namespace {
struct Check {
    HierarchicalHMM* m;
    Shape sh;
    std::vector<std::string> lab;
    Hier h;
    std::vector<V> exits;
    std::vector<Smooth> sm;
    bool mixture, full, seen_flat = false;
    int window = 1;

    // reads the parameters; the model has just been reset
    void begin(bool hier) {
        h = Hier();
        h.hier = hier;
        sm.assign(lab.size(), Smooth());
        size_t K = lab.size();
        VX_CHECK(m->size() == K, "the model has %u classes", m->size());
        for (size_t i = 0; i < K; i++) {
            VX_CHECK(m->models.count(lab[i]) == 1, "class %s is missing", lab[i].c_str());
            h.c.push_back(read_hmm(m->models[lab[i]], sh.bi, sh.din, exits[i]));
        }
        VX_CHECK(m->prior.size() == K && m->transition.size() == K && m->exit_transition.size() == K, "sizes of the class transitions");
        h.prior = m->prior;
        h.T = m->transition;
        h.X = m->exit_transition;
        double sp = 0;
        for (size_t i = 0; i < K; i++) {
            double st = 0;
            VX_CHECK(h.T[i].size() == K, "the transitions of class %zu have %zu entries", i, h.T[i].size());
            for (size_t j = 0; j < K; j++) st += h.T[i][j];
            VX_NEAR(st, 1, 1e-9, 0, "sum of the transitions from class %zu", i);
            VX_CHECK(h.X[i] >= 0 && h.X[i] <= 1, "exit transition %g of class %zu", h.X[i], i);
            sp += h.prior[i];
            int N = h.c[i].N;
            if (!hier && N > 1) VX_CHECK(h.c[i].A[(N - 1) * N] > 0, "a class of a non-hierarchical model does not cycle");
            if (hier && N > 1 && !h.c[i].ergodic && !seen_flat) VX_CHECK(h.c[i].A[(N - 1) * N] == 0, "a left-right class of a hierarchical model cycles");
        }
        VX_NEAR(sp, 1, 1e-9, 0, "sum of the class priors");
        if (!hier) seen_flat = true;
    }
    void frame(int k) {
        auto f = ref::frame(sh, k);
        V x = todouble(f);
        vx::note("filter frame %d", k);
        m->filter(f);
        vx::step();
        h.filter(x);
        V inst, smo;
        std::vector<Pred> preds;
        vx::Hash hs;
        for (size_t i = 0; i < lab.size(); i++) {
            auto& c = m->models[lab[i]];
            Hmm& r = h.c[i];
            const char* who = lab[i].c_str();
            inst.push_back(r.inst);
            sm[i].push(r.inst);
            smo.push_back(sm[i].mean(window));
            near_lik(c.results.instant_likelihood, r.inst, "instantaneous likelihood of a class");
            VX_NEAR(c.results.log_likelihood, smo[i], 1e-6, 1e-6, "smoothed log-likelihood of %s", who);
            V p(r.N), got(r.N);
            int best = 0;
            for (int s = 0; s < r.N; s++) {
                p[s] = r.sp(s, h.hier);
                if (h.hier) {
                    for (int j = 0; j < 3; j++) {
                        VX_CHECK((int)c.alpha_h[j].size() == r.N, "%s: alpha_h", who);
                        VX_NEAR(c.alpha_h[j][s], r.a[j][s], 1e-6, 1e-12, "%s: forward probability %d of state %d", who, j, s);
                    }
                } else {
                    VX_CHECK((int)c.alpha.size() == r.N, "%s: alpha", who);
                    VX_NEAR(c.alpha[s], r.p[s], 1e-6, 1e-12, "%s: probability of state %d", who, s);
                }
                if (p[s] > p[best]) best = s;
                hs.addf((float)p[s]);
            }
            int ls = c.results.likeliest_state;
            VX_CHECK(ls >= 0 && ls < r.N && p[ls] >= p[best] * (1 - 1e-6), "%s: likeliest state %d is not the most probable one (%d)", who, ls, best);
            int lo = std::max(0, ls - r.N / 2), hi = std::min(r.N, std::max(ls + r.N / 2, ls + 1));
            double mass = 0, prog = 0;
            for (int s = lo; s < hi; s++) mass += p[s], prog += s * p[s];
            if (mass > 1e-100) {
                VX_NEAR(c.results.progress, prog / mass / std::max(1, r.N - 1), 1e-5, 1e-9, "%s: progress", who);
            } else {
                VX_CHECK(c.results.progress >= 0 && c.results.progress <= 1, "%s: progress is %g", who, c.results.progress);
            }
            if (h.hier) {
                near_lik(c.results.exit_likelihood, r.exitlik, "exit likelihood");
                VX_NEAR(c.results.exit_ratio, r.inst > 0 ? r.exitlik / r.inst : 0, 1e-6, 1e-9, "%s: exit ratio", who);
            }
            if (sh.bi) {
                if (mass > 1e-100 || r.est == 2) {
                    preds.push_back(predict_hmm(r, p, ls, x));
                    near_pred(c.results.output_values, c.results.output_covariance, preds.back(), who);
                } else {  // no state of the window has a noticeable probability
                    Pred q;
                    q.full = r.full;
                    q.val.assign(c.results.output_values.begin(), c.results.output_values.end());
                    q.cov.assign(c.results.output_covariance.begin(), c.results.output_covariance.end());
                    preds.push_back(q);
                }
            }
        }
        check_results(m->results, lab, inst, smo);
        if (sh.bi) {
            if (mixture)
                near_pred(m->results.output_values, m->results.output_covariance,
                          combine(preds, m->results.smoothed_normalized_likelihoods, full), "mixture of the classes");
            else
                for (size_t i = 0; i < lab.size(); i++)
                    if (lab[i] == m->results.likeliest)
                        near_pred(m->results.output_values, m->results.output_covariance, preds[i], "output of the likeliest class");
        }
        vx::state(hs.h);
    }
};
V default_exits(int N) {
    V e(N, 0);
    e[N - 1] = xmm::SingleClassHMM::DEFAULT_EXITPROBABILITY_LAST_STATE();
    return e;
}
void basic(HierarchicalHMM& m, int N, int comps, bool diag, bool erg, int est, bool hier) {
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.configuration.states.set(N);
    m.configuration.gaussians.set(comps);
    m.configuration.covariance_mode.set(covmode(diag));
    m.configuration.transition_mode.set(erg ? xmm::HMM::TransitionMode::Ergodic : xmm::HMM::TransitionMode::LeftRight);
    m.configuration.regression_estimator.set((xmm::HMM::RegressionEstimator)est);
    m.configuration.hierarchical.set(hier);
    m.shared_parameters->em_algorithm_min_iterations.set(1);
    m.shared_parameters->em_algorithm_max_iterations.set(1);
}
void class_transitions(HierarchicalHMM& m, int v) {
    size_t K = m.size();
    static const double P[] = {0.5, 0.125, 0.375}, T[][3] = {{0.25, 0.5, 0.25}, {0.125, 0.375, 0.5}, {0.5, 0.25, 0.25}};
    double sp = 0;
    for (size_t i = 0; i < K; i++) sp += P[(i + v) % 3];
    for (size_t i = 0; i < K; i++) {
        m.prior[i] = P[(i + v) % 3] / sp;
        m.exit_transition[i] = v == 1 ? 0.1 + 0.3 * i : v == 2 ? (double)(i % 2) : 0.5;
        double s = 0;
        for (size_t j = 0; j < K; j++) s += T[(i + v) % 3][j];
        for (size_t j = 0; j < K; j++) m.transition[i][j] = T[(i + v) % 3][j] / s;
    }
}
}  // namespace

// parameters of a grid: unimodal and bimodal, both topologies, exit points and class transitions
VX_SCENARIO_SPLIT(grid, 4) {
    Check c;
    bool hier = vx::pick(2) == 0;
    int ncls = 1 + vx::pick(3), N = 1 + vx::pick(3);
    c.sh = shapes()[vx::pick(vx::tier(2, 3)) * 2];  // 1, 2/1, 3/2
    bool erg = vx::pick(2);
    int g = vx::pick(vx::tier(2, 6));
    int est = c.sh.bi ? vx::pick(3) : 0;
    c.mixture = c.sh.bi && ncls > 1 && vx::pick(2);
    bool mixed = ncls > 1 && vx::pick(2);  // class b has the other topology, covariance mode, and another number of states
    int ex = hier ? vx::pick(3) : 0;       // exit probabilities
    int ct = hier && ncls > 1 ? vx::pick(vx::tier(2, 3)) : 0;
    bool diag = (g + est) % 2;
    int comps = 1 + g % 2;
    c.full = !diag;
    c.window = 1 + (g & 1);
    c.lab = labels(ncls);
    vx::note("%s, %d classes of %d states, %s%s, dimension %d/%d, estimator %d/%s, grid %d, exits %d, class transitions %d",
             hier ? "hierarchical" : "not hierarchical", ncls, N, erg ? "ergodic" : "left-right", mixed ? " (b differs)" : "", c.sh.dim, c.sh.din, est,
             c.mixture ? "mixture" : "likeliest", g, ex, ct);
    Set s(c.sh.bi, c.sh.dim, c.sh.din);
    fill(s, c.lab);
    HierarchicalHMM m(c.sh.bi);
    basic(m, N, comps, diag, erg, est, hier);
    m.configuration.multiClass_regression_estimator =
        c.mixture ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
    m.shared_parameters->likelihood_window.set(c.window);
    std::vector<int> n(ncls, N);
    if (mixed) {
        auto& p = m.configuration["b"];
        n[1] = N % 3 + 1;
        p.states.set(n[1]);
        p.covariance_mode.set(covmode(!diag));
        p.gaussians.set(3 - comps);
        p.transition_mode.set(erg ? xmm::HMM::TransitionMode::LeftRight : xmm::HMM::TransitionMode::Ergodic);
        p.regression_estimator.set((xmm::HMM::RegressionEstimator)((est + 1) % 3));
    }
    m.train(&s);
    int i = 0;
    for (auto& x : m.models) set_hmm(x.second, g, i++);
    m.reset();
    for (int k = 0; k < ncls; k++) {
        c.exits.push_back(default_exits(n[k]));
        if (ex == 1) c.exits[k][0] = 0.25;
        if (ex == 2) c.exits[k][n[k] - 1] = k == 1 ? 1 : 0.5;
    }
    if (ex == 1) m.addExitPoint(0, 0.25f);
    if (ex == 2)
        for (int k = 0; k < ncls; k++) m.models[c.lab[k]].addExitPoint(n[k] - 1, k == 1 ? 1.f : 0.5f);
    if (ct)
        class_transitions(m, ct);
    else
        for (int k = 0; k < ncls; k++) {
            VX_NEAR(m.prior[k], 1. / ncls, 1e-9, 0, "initial class prior");
            for (int l = 0; l < ncls; l++) VX_NEAR(m.transition[k][l], 1. / ncls, 1e-9, 0, "initial class transition");
        }
    c.m = &m;
    c.begin(hier);
    for (int t = 0; t < vx::tier(3, 4); t++) c.frame(vx::pick(3) + (t > 0));
}

// trained parameters; retraining, mode switches, copies and reloads between frames
VX_SCENARIO_SPLIT(trained, 4) {
    Check c;
    bool hier = vx::pick(2) == 0;
    int ncls = 1 + vx::pick(3), N = 1 + vx::pick(3);
    c.sh = shapes()[vx::pick(3)];
    bool erg = vx::pick(2);
    int est = c.sh.bi ? vx::pick(3) : 0;
    bool diag = vx::pick(2);
    c.mixture = false;
    c.full = !diag;
    c.lab = labels(ncls);
    Set s(c.sh.bi, c.sh.dim, c.sh.din);
    fill(s, c.lab, 6);
    HierarchicalHMM m(c.sh.bi);
    basic(m, N, 1, diag, erg, est, hier);
    m.shared_parameters->em_algorithm_max_iterations.set(3);
    m.train(&s);
    vx::note("%s, %d trained classes of %d states, %s, dimension %d/%d", hier ? "hierarchical" : "not hierarchical", ncls, N,
             erg ? "ergodic" : "left-right", c.sh.dim, c.sh.din);
    c.exits.assign(ncls, default_exits(N));
    c.m = &m;
    c.begin(hier);
    c.frame(vx::pick(2));
    c.frame(vx::pick(2) + 1);
    int act = vx::pick(7);
    std::unique_ptr<HierarchicalHMM> other;
    if (act == 1) {
        vx::note("retrain with one more state and the other topology");
        m.configuration.states.set(N + 1);
        m.configuration.transition_mode.set(erg ? xmm::HMM::TransitionMode::LeftRight : xmm::HMM::TransitionMode::Ergodic);
        m.train(&s);
        c.exits.assign(ncls, default_exits(N + 1));
        c.begin(hier);
    } else if (act == 2) {
        vx::note("switch the hierarchical mode and reset");
        m.configuration.hierarchical.set(!hier);
        m.reset();
        hier = !hier;
        c.begin(hier);
    } else if (act == 3) {
        vx::note("copy");
        other.reset(new HierarchicalHMM(m));
        c.m = other.get();
    } else if (act == 4) {
        vx::note("reload");
        other.reset(new HierarchicalHMM(c.sh.bi));
        other->fromJson(m.toJson());
        c.m = other.get();
        c.begin(hier);
    } else if (act == 5 && ncls > 1) {
        vx::note("remove b");
        m.removeClass("b");
        c.lab.erase(c.lab.begin() + 1);
        c.exits.pop_back();
        c.begin(hier);
    } else if (act == 6) {
        vx::note("assign");
        other.reset(new HierarchicalHMM(c.sh.bi));
        *other = m;
        other->reset();
        c.m = other.get();
        c.begin(hier);
    }
    vx::step();
    for (int t = 0; t < vx::tier(2, 3); t++) c.frame(vx::pick(3));
}

// more classes and states, over long sequences
VX_SCENARIO_SPLIT(wide, 4) {
    Check c;
    bool hier = vx::pick(2) == 0;
    static const int CLS[] = {1, 2, 4, 5}, STATES[] = {4, 5, 8, 6, 10};
    int ncls = CLS[vx::pick(4)], N = STATES[vx::pick(vx::tier(3, 5))];
    c.sh = wide_shapes()[vx::pick(vx::tier(4, 6))];
    bool erg = vx::pick(2), diag = vx::pick(2), over = ncls > 1 && vx::pick(2);
    int est = c.sh.bi ? vx::pick(3) : 0;
    c.mixture = c.sh.bi && est == 1;
    c.full = !diag;
    c.window = over ? 5 : 1;
    int pat = vx::pick(vx::tier(2, 4)), comps = 1 + (N + pat) % 2, ex = hier ? vx::pick(2) : 0;
    c.lab = labels(ncls);
    vx::note("%s, %d classes of %d states, %s%s, dimension %d/%d, estimator %d/%s, exits %d, pattern %d", hier ? "hierarchical" : "not hierarchical", ncls, N,
             erg ? "ergodic" : "left-right", over ? " (b differs)" : "", c.sh.dim, c.sh.din, est, c.mixture ? "mixture" : "likeliest", ex, pat);
    Set s(c.sh.bi, c.sh.dim, c.sh.din);
    fill(s, c.lab, 24);
    fill(s, c.lab, 17);
    HierarchicalHMM m(c.sh.bi);
    basic(m, N, comps, diag, erg, est, hier);
    m.configuration.multiClass_regression_estimator =
        c.mixture ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
    m.shared_parameters->likelihood_window.set(c.window);
    m.shared_parameters->em_algorithm_max_iterations.set(2);
    m.configuration.absolute_regularization.set(0.2);
    std::vector<int> n(ncls, N);
    if (over) {
        auto& p = m.configuration["b"];
        n[1] = N - 1;
        p.states.set(n[1]);
        p.transition_mode.set(erg ? xmm::HMM::TransitionMode::LeftRight : xmm::HMM::TransitionMode::Ergodic);
        p.regression_estimator.set((xmm::HMM::RegressionEstimator)((est + 1) % 3));
    }
    m.train(&s);
    m.reset();
    for (int k = 0; k < ncls; k++) {
        c.exits.push_back(default_exits(n[k]));
        if (ex) {
            m.models[c.lab[k]].addExitPoint(1, 0.5f), c.exits[k][1] = 0.5;
            m.models[c.lab[k]].addExitPoint(n[k] - 2, 0.125f), c.exits[k][n[k] - 2] = 0.125;
        }
    }
    if (ex && ncls > 1) {
        double sp = 0;
        for (int i = 0; i < ncls; i++) sp += m.prior[i] = 1 + i % 3;
        for (int i = 0; i < ncls; i++) {
            m.prior[i] /= sp;
            m.exit_transition[i] = 0.125 * (i + 1);
            double st = 0;
            for (int j = 0; j < ncls; j++) st += m.transition[i][j] = 1 + (i * 2 + j) % 4;
            for (int j = 0; j < ncls; j++) m.transition[i][j] /= st;
        }
    }
    c.m = &m;
    c.begin(hier);
    for (int t = 0; t < 14; t++) c.frame(pattern(pat, t));
}
