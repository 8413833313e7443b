// C13: recognition and regression of gaussian mixture models
#include "model_build.hpp"
using xmm::GMM;
using namespace ref;

namespace {
struct Check {
    GMM* m;
    Shape sh;
    std::vector<std::string> lab;
    std::vector<Mix> mix;
    std::vector<Smooth> sm;
    bool mixture, full;
    int window;

    void begin() {
        mix.clear();
        sm.assign(lab.size(), Smooth());
        VX_CHECK(m->size() == lab.size(), "the model has %u classes", m->size());
        for (auto& l : lab) {
            VX_CHECK(m->models.count(l) == 1, "class %s is missing", l.c_str());
            mix.push_back(read_mix(m->models[l], sh.bi, sh.din));
        }
    }
    void frame(int k) {
        auto f = ref::frame(sh, k);
        V x = todouble(f);
        vx::note("filter frame %d", k);
        m->filter(f);
        vx::step();
        V inst, smo;
        std::vector<Pred> preds;
        vx::Hash hs;
        for (size_t i = 0; i < lab.size(); i++) {
            auto& c = m->models[lab[i]];
            double p = mix[i].prob(x);
            inst.push_back(p);
            sm[i].push(p);
            smo.push_back(sm[i].mean(window));
            near_lik(c.results.instant_likelihood, p, "instantaneous likelihood of a class");
            VX_NEAR(c.results.log_likelihood, smo[i], 1e-6, 1e-6, "smoothed log-likelihood of a class");
            V b = mix[i].beta(x);
            VX_CHECK(c.beta.size() == b.size(), "%zu responsibilities for %zu components", c.beta.size(), b.size());
            for (size_t j = 0; j < b.size(); j++) VX_NEAR(c.beta[j], b[j], 1e-6, 1e-9, "responsibility of component %zu of %s", j, lab[i].c_str());
            if (sh.bi) {
                preds.push_back(mix[i].predict(x));
                near_pred(c.results.output_values, c.results.output_covariance, preds.back(), lab[i].c_str());
            }
            hs.addf(p).addf(smo[i]);
        }
        check_results(m->results, lab, inst, smo);
        if (sh.bi) {
            if (mixture) {
                near_pred(m->results.output_values, m->results.output_covariance,
                          combine(preds, m->results.smoothed_normalized_likelihoods, full), "mixture of the classes");
            } else {
                for (size_t i = 0; i < lab.size(); i++)
                    if (lab[i] == m->results.likeliest)
                        near_pred(m->results.output_values, m->results.output_covariance, preds[i], "output of the likeliest class");
            }
        }
        vx::state(hs.h);
    }
};
}  // namespace

// parameters of a grid, in every configuration
VX_SCENARIO_SPLIT(grid, 3) {
    Check c;
    int ncls = 1 + vx::pick(3);
    c.sh = shapes()[vx::pick(vx::tier(5, 7))];
    c.lab = labels(ncls);
    bool diag = vx::pick(2), override_ = ncls > 1 && vx::pick(2);
    int comps = 1 + vx::pick(vx::tier(2, 3));
    c.mixture = vx::pick(2);
    c.full = !diag;
    int g = vx::pick(vx::tier(4, 11));
    c.window = 1 + vx::pick(2);
    int depth = vx::tier(3, 4), alphabet = 4;
    vx::note("%d classes, dimension %d/%d, %s covariance%s, %d components, %s estimator, grid %d, window %d", ncls, c.sh.dim, c.sh.din,
             diag ? "diagonal" : "full", override_ ? " (b: the other mode, one more component)" : "", comps, c.mixture ? "mixture" : "likeliest", g, c.window);
    Set s(c.sh.bi, c.sh.dim, c.sh.din);
    fill(s, c.lab);
    GMM m(c.sh.bi);
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.configuration.multiClass_regression_estimator =
        c.mixture ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
    m.configuration.gaussians.set(comps);
    m.configuration.covariance_mode.set(covmode(diag));
    if (override_) {
        m.configuration["b"].covariance_mode.set(covmode(!diag));
        m.configuration["b"].gaussians.set(comps < 3 ? comps + 1 : 1);
    }
    m.shared_parameters->em_algorithm_min_iterations.set(1);
    m.shared_parameters->em_algorithm_max_iterations.set(1);
    m.shared_parameters->likelihood_window.set(c.window);
    m.train(&s);
    int i = 0;
    for (auto& x : m.models) set_mix(x.second, g, i++);
    m.reset();
    c.m = &m;
    c.begin();
    for (int t = 0; t < depth; t++) c.frame(vx::pick(alphabet));
}

// trained parameters; the model is retrained, reconfigured, copied or reloaded between frames
VX_SCENARIO_SPLIT(trained, 3) {
    Check c;
    int ncls = 1 + vx::pick(3);
    c.sh = shapes()[vx::pick(5)];
    c.lab = labels(ncls);
    bool diag = vx::pick(2);
    c.mixture = vx::pick(2);
    c.full = !diag;
    c.window = 1;
    int comps = 1 + vx::pick(2), iter = vx::pick(2) ? 3 : 10;
    Set s(c.sh.bi, c.sh.dim, c.sh.din);
    fill(s, c.lab, 5);
    GMM m(c.sh.bi);
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.configuration.gaussians.set(comps);
    m.configuration.covariance_mode.set(covmode(diag));
    m.shared_parameters->em_algorithm_min_iterations.set(iter);
    m.shared_parameters->em_algorithm_max_iterations.set(iter);
    m.train(&s);
    vx::note("trained %d classes, dimension %d/%d, %s covariance, %d components", ncls, c.sh.dim, c.sh.din, diag ? "diagonal" : "full", comps);
    m.configuration.multiClass_regression_estimator =
        c.mixture ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
    c.m = &m;
    c.begin();
    c.frame(vx::pick(3));
    int act = vx::pick(6);
    std::unique_ptr<GMM> other;
    if (act == 1) {
        vx::note("retrain with other numbers of components and the other covariance mode");
        m.configuration.gaussians.set(3 - comps);
        m.configuration.covariance_mode.set(covmode(!diag));
        c.full = diag;
        m.train(&s);
        c.begin();
    } else if (act == 2) {
        vx::note("change the configuration without retraining, then reset");
        m.configuration.gaussians.set(3 - comps);
        m.reset();
        c.begin();
    } else if (act == 3) {
        vx::note("copy");
        other.reset(new GMM(m));
        c.m = other.get();
    } else if (act == 4) {
        vx::note("reload");
        other.reset(new GMM(c.sh.bi));
        other->fromJson(m.toJson());
        c.m = other.get();
        c.begin();
    } else if (act == 5 && ncls > 1) {
        vx::note("remove b");
        m.removeClass("b");
        c.lab.erase(c.lab.begin() + 1);
        c.begin();
    }
    vx::step();
    for (int t = 0; t < vx::tier(1, 2); t++) c.frame(vx::pick(4));
}

// more classes, components and dimensions, over long sequences
VX_SCENARIO_SPLIT(wide, 3) {
    Check c;
    int ncls = vx::pick(3);
    ncls = ncls == 0 ? 1 : ncls + 3;
    c.sh = wide_shapes()[vx::pick(6)];
    c.lab = labels(ncls);
    bool diag = vx::pick(2), over = ncls > 1 && vx::pick(2);
    int comps = 3 + 2 * vx::pick(vx::tier(2, 3)), trained = vx::pick(2), pat = vx::pick(4);
    c.mixture = vx::pick(2);
    c.full = !diag;
    c.window = vx::pick(2) ? 1 : 5;
    vx::note("%d classes, dimension %d/%d, %s covariance%s, %d components, %s estimator, window %d, %s, pattern %d", ncls, c.sh.dim, c.sh.din,
             diag ? "diagonal" : "full", over ? " (d: the other mode)" : "", comps, c.mixture ? "mixture" : "likeliest", c.window,
             trained ? "trained" : "grid", pat);
    Set s(c.sh.bi, c.sh.dim, c.sh.din);
    fill(s, c.lab, 14);
    fill(s, c.lab, 9);
    GMM m(c.sh.bi);
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.configuration.multiClass_regression_estimator =
        c.mixture ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
    m.configuration.gaussians.set(comps);
    m.configuration.covariance_mode.set(covmode(diag));
    if (over) m.configuration["d"].covariance_mode.set(covmode(!diag)), m.configuration["d"].gaussians.set(comps - 1);
    m.shared_parameters->em_algorithm_min_iterations.set(1);
    m.shared_parameters->em_algorithm_max_iterations.set(trained ? 4 : 1);
    m.shared_parameters->likelihood_window.set(c.window);
    m.train(&s);
    if (!trained) {
        int i = 0;
        for (auto& x : m.models) {
            int g = 0;
            for (auto& d : x.second.components) set_gauss(d, x.second.parameters.covariance_mode.get() == GD::CovarianceMode::Diagonal, i, g++);
            float w = 0;
            for (auto& y : x.second.mixture_coeffs) w += y = 1 + (&y - &x.second.mixture_coeffs[0] + i) % 3;
            for (auto& y : x.second.mixture_coeffs) y /= w;
            i++;
        }
    }
    m.reset();
    c.m = &m;
    c.begin();
    for (int t = 0; t < 12; t++) c.frame(pattern(pat, t));
}
