// C08: models, classes, parameters and gaussians written to JSON and read back
#include "model_history.hpp"
using namespace ref;

namespace {
Json::Value through(Json::Value const& v, int way) {
    Json::Value r;
    Json::Reader reader;
    switch (way) {
        case 0: return v;
        case 1: VX_CHECK(reader.parse(v.toStyledString(), r), "the styled text is not JSON"); break;
        case 2: {
            Json::FastWriter w;
            VX_CHECK(reader.parse(w.write(v), r), "the compact text is not JSON");
        }
    }
    return r;
}
const char* WAY[] = {"directly", "through styled text", "through compact text"};
const std::vector<Classes> SETS = {{{"b", 0}, {"a", 1}}, {{"z", 2}, {"b", 3}, {"Zed \"quoted\"\n\xc3\xa9", 1}}, {{"b", 2}}};
xmm::TrainingSet* training_set(int set, Shape const& sh) {
    static std::map<std::array<int, 4>, std::unique_ptr<Set>> cache;
    auto& s = cache[{set, sh.dim, sh.bi, sh.din}];
    if (!s) {
        s = build_set(SETS[set], sh);
        std::vector<std::string> names;
        for (int d = 0; d < sh.dim; d++) names.push_back("column " + std::to_string(d));
        if (set == 1) s->ts->column_names.set(names);
    }
    return s->ts.get();
}
// variations of the configuration, one bit each
const int NVAR = 7;
void vary_class(xmm::ClassParameters<xmm::GMM>& p, int v) {
    if (v & 1) p.gaussians.set(3), p.relative_regularization.set(0.1 / 3);
    if (v & 2) p.absolute_regularization.set(1. / 7000), p.covariance_mode.set(covmode(p.covariance_mode.get() == GD::CovarianceMode::Full));
}
void vary_class(xmm::ClassParameters<xmm::HMM>& p, int v) {
    if (v & 1) p.states.set(3), p.relative_regularization.set(0.1 / 3), p.gaussians.set(2);
    if (v & 2) {
        p.absolute_regularization.set(1. / 7000), p.covariance_mode.set(covmode(p.covariance_mode.get() == GD::CovarianceMode::Full));
        p.transition_mode.set(p.transition_mode.get() == xmm::HMM::TransitionMode::Ergodic ? xmm::HMM::TransitionMode::LeftRight
                                                                                           : xmm::HMM::TransitionMode::Ergodic);
        p.regression_estimator.set((xmm::HMM::RegressionEstimator)(((int)p.regression_estimator.get() + 1) % 3));
    }
}
template <class M>
void vary(M& m, int v) {
    if (v & 1) vary_class(m.configuration, 1);
    if (v & 2) vary_class(m.configuration["b"], 2);
    if (v & 4) m.shared_parameters->likelihood_window.set(3);
    if (v & 8)
        m.configuration.multiClass_regression_estimator = m.configuration.multiClass_regression_estimator == xmm::MultiClassRegressionEstimator::Mixture
                                                              ? xmm::MultiClassRegressionEstimator::Likeliest
                                                              : xmm::MultiClassRegressionEstimator::Mixture;
    if (v & 16) vary_class(m.configuration["absent"], 3);
    if (v & 32) {
        m.shared_parameters->em_algorithm_min_iterations.set(1);
        m.shared_parameters->em_algorithm_max_iterations.set(3);
        m.shared_parameters->em_algorithm_percent_chg.set(1. / 3);
    }
    if (v & 64) m.configuration.multithreading = v & 1 ? xmm::MultithreadingMode::Parallel : xmm::MultithreadingMode::Background;
}
template <class M>
void train(M& m, xmm::TrainingSet* s) {
    m.train(s);
    wait_trained(m);
    m.cancelTraining();
}
const std::vector<std::string> LABELS = {"a", "b", "z", "Zed \"quoted\"\n\xc3\xa9", "absent"};
template <class M>
void same_model(M& m, M& e, const char* who) {
    equal(params(m), params(e), who, 1e-6);
    equal(configuration(m, LABELS), configuration(e, LABELS), who, 1e-6);
    VX_CHECK(m.shared_parameters->column_names.get() == e.shared_parameters->column_names.get(), "%s: column names", who);
    Classes c;
    for (auto& x : e.models) c[x.first] = 0;
    check_classes(m, c, who);
    vx::state(hash(params(m)));
}
// results; a unimodal model has no outputs
template <class M>
Snap outputs(M const& m, Shape const& sh) {
    Snap a = results(m), s;
    if (sh.bi) return a;
    s.likeliest = a.likeliest;
    for (size_t i = 0; i < a.v.size(); i++)
        if (!strstr(a.name[i].c_str(), "output_")) s.add(a.name[i], a.v[i]);
    return s;
}
template <class M>
void same_outputs(M& m, M& e, Shape const& sh, std::vector<int> const& frames, const char* who) {
    m.reset(), e.reset();
    if (!e.size()) {
        VX_CHECK(vx::throws([&] { m.filter(frame(sh, 0)); }), "%s: a model without classes filters", who);
        return;
    }
    for (int f : frames) {
        m.filter(frame(sh, f)), e.filter(frame(sh, f));
        vx::step();
        equal(outputs(m, sh), outputs(e, sh), who, 2e-4, 1e-9);
    }
}
template <class M>
std::unique_ptr<M> make(Kind const& k, int variation, bool late, int set) {
    Shape sh = shape(k);
    std::unique_ptr<M> m(new M(sh.bi));
    configure_all(*m, k, 2);
    if (!late) vary(*m, variation);
    if (set >= 0) train(*m, training_set(set, sh));
    if (late) vary(*m, variation), m->reset();
    if (variation & 16) class_structure(*m, variation);
    return m;
}
template <class M>
std::unique_ptr<M> target(Kind const& k, int t) {
    Shape sh = shape(k);
    switch (t) {
        case 0: return std::unique_ptr<M>(new M(sh.bi));
        case 1: return std::unique_ptr<M>(new M(!sh.bi));
        default: {  // another trained model, in use
            for (auto& o : kinds())
                if (o.gmm == k.gmm && (o.bi != k.bi) == (t == 2) && name(o) != name(k)) {
                    auto m = make<M>(o, t == 2 ? 7 : 24, false, 1);
                    m->filter(frame(shape(o), 0));
                    return m;
                }
            return std::unique_ptr<M>(new M(sh.bi));
        }
    }
}
const char* TARGET[] = {"a new model", "a new model of the other modality", "a used model of the other modality", "a used model"};

struct Done {
    int n = 0;
    void on(xmm::TrainingEvent& e) {
        if (e.status == xmm::TrainingEvent::Alldone) n++;
    }
};
template <class M>
void round_trip(Kind const& k, int variation, bool late, int set, int t, int way, int after) {
    auto m = make<M>(k, variation, late, set);
    Shape sh = shape(k);
    vx::note("%s, configuration %d %s training, set %d, %s into %s", name(k).c_str(), variation, late ? "after" : "before", set, WAY[way], TARGET[t]);
    if (after == 1 && set >= 0) m->filter(frame(sh, 1));  // saving does not depend on frames being filtered
    Json::Value doc = m->toJson(), read = through(doc, way);
    std::unique_ptr<M> r = target<M>(k, t);
    r->fromJson(read);
    vx::step(2);
    same_model(*r, *m, "the reloaded model");
    // written again, the document stays the same
    VX_CHECK(through(r->toJson(), 2) == through(m->toJson(), 2) || way, "the document changes when the model is saved again");
    same_outputs(*r, *m, sh, {0, 2, 1}, "outputs of the reloaded model");
    if (after == 1) {
        // a second generation
        M s(!sh.bi);
        Done done;
        s.training_events.addListener(&done, &Done::on);
        s.fromJson(through(r->toJson(), way));
        r.reset();
        same_model(s, *m, "the model reloaded twice");
        same_outputs(s, *m, sh, {1, 0}, "outputs of the model reloaded twice");
        if (set >= 0) {
            train(s, training_set(2 - set, sh)), train(*m, training_set(2 - set, sh));
            vx::step();
            VX_CHECK(done.n == 1, "a listener of the model receives %d completion events after reloading and training", done.n);
            same_model(s, *m, "the reloaded model, retrained");
            same_outputs(s, *m, sh, {2}, "outputs of the reloaded model, retrained");
            s.train(training_set(1, sh), "z"), m->train(training_set(1, sh), "z");
            wait_trained(s), wait_trained(*m);
            s.cancelTraining(), m->cancelTraining();
            same_model(s, *m, "the reloaded model, with one more class");
            s.removeClass("b"), m->removeClass("b");
            same_model(s, *m, "the reloaded model, with a class removed");
            same_outputs(s, *m, sh, {0, 1}, "outputs of the reloaded model, with a class removed");
        }
    }
    vx::outcome(set < 0 ? "untrained" : "trained");
}
}  // namespace

// every kind, target and way, with simple configurations
VX_SCENARIO_SPLIT(models, 4) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int t = vx::pick(4), way = vx::pick(3), set = vx::pick(3) - 1, after = vx::pick(2), late = vx::pick(2);
    static const int VAR[] = {0, 2, 7, 10, 33, 61, 63, 12};
    int v = VAR[vx::pick(vx::tier(6, 8))];
    with_kind(k, [&](auto* x) { round_trip<typename std::remove_pointer<decltype(x)>::type>(k, v, late, set, t, way, after); });
}
// every combination of settings
VX_SCENARIO_SPLIT(configurations, 4) {
    static const int SOME[] = {1, 5, 7, 0, 2, 3, 4, 6, 8, 9, 10, 11};
    Kind k = kinds()[SOME[vx::pick(vx::tier(6, 12))]];
    int v = vx::pick(1 << NVAR);
    int late = vx::pick(2), set = vx::pick(2), t = vx::pick(2) * 2, after = vx::tier(0, 1);
    with_kind(k, [&](auto* x) { round_trip<typename std::remove_pointer<decltype(x)>::type>(k, v, late, set, t, 1, after); });
}
// five classes, some with settings of their own, in up to six dimensions
VX_SCENARIO_SPLIT(wide, 4) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int i = vx::pick(2), v = vx::pick(vx::tier(3, 6)), way = vx::pick(3), t = vx::pick(2) * 3, p = vx::pick(vx::tier(2, 4));
    with_kind(k, [&](auto* x) {
        typedef typename std::remove_pointer<decltype(x)>::type M;
        Shape sh = big_shape(k, i);
        auto m = big_copy<M>(k, i, 5, v);
        vx::note("%s, dimension %d/%d, variant %d, %s into %s", name(k).c_str(), sh.dim, sh.din, v, WAY[way], TARGET[t]);
        std::unique_ptr<M> r = target<M>(k, t);
        r->fromJson(through(m->toJson(), way));
        same_model(*r, *m, "the reloaded model");
        equal(configuration(*r, labels(5)), configuration(*m, labels(5)), "the reloaded model", 1e-6);
        std::vector<int> f;
        for (int j = 0; j < 7; j++) f.push_back(pattern(p, j));
        same_outputs(*r, *m, sh, f, "outputs of the reloaded model");
        // further changes have the same outcome
        r->removeClass("c"), m->removeClass("c");
        same_model(*r, *m, "the reloaded model, with a class removed");
        Set s(sh.bi, sh.dim, sh.din);
        fill(s, {"b", "d"}, 9);
        r->configuration.multithreading = xmm::MultithreadingMode::Sequential;
        r->train(&s, "d"), m->train(&s, "d");
        same_model(*r, *m, "the reloaded model, with a class trained again");
        same_outputs(*r, *m, sh, f, "outputs of the reloaded model, with a class trained again");
    });
}
// every sequence of frames
VX_SCENARIO_SPLIT(sequences, 3) {
    Kind k = kinds()[vx::pick(kinds().size())];
    with_kind(k, [&](auto* x) {
        typedef typename std::remove_pointer<decltype(x)>::type M;
        Shape sh = shape(k);
        int n = 1 + vx::pick(vx::tier(4, 5));
        std::vector<int> f;
        for (int i = 0; i < n; i++) f.push_back(vx::pick(3));
        static std::map<std::string, std::array<std::unique_ptr<M>, 3>> cache;
        auto& c = cache[name(k)];
        if (!c[0]) {
            c[0] = make<M>(k, 4, false, 1);
            Json::Value doc = c[0]->toJson();
            c[1] = target<M>(k, 3);
            c[1]->fromJson(through(doc, 1));
            c[2].reset(new M(doc));
        }
        same_outputs(*c[1], *c[0], sh, f, "outputs of the reloaded model");
        same_outputs(*c[2], *c[0], sh, f, "outputs of the constructed model");
    });
}
// single classes
VX_SCENARIO_SPLIT(classes, 3) {
    Kind k = kinds()[vx::pick(kinds().size())];
    with_kind(k, [&](auto* x) {
        typedef typename std::remove_pointer<decltype(x)>::type M;
        typedef typename std::remove_reference<decltype(std::declval<M>().models.begin()->second)>::type C;
        Shape sh = shape(k);
        int v = vx::pick(8), way = vx::pick(3), t = vx::pick(5);
        auto m = make<M>(k, v, false, 1);
        C& c = m->models["b"];
        vx::note("%s, configuration %d, class %s into target %d", name(k).c_str(), v, WAY[way], t);
        Json::Value doc = through(c.toJson(), way);
        std::unique_ptr<M> other;
        std::unique_ptr<C> own;
        C* r = nullptr;
        auto shared = std::make_shared<xmm::SharedParameters>(*m->shared_parameters);
        switch (t) {
            case 0: own.reset(new C(shared)), own->fromJson(doc); break;
            case 1: own.reset(new C(shared, doc)); break;
            case 2: own.reset(new C(m->models["z"])), own->fromJson(doc); break;
            case 3:
                other = make<M>(k, 3, false, 0);
                r = &other->models["a"];
                other->filter(frame(sh, 0));
                r->fromJson(doc);
                break;
            case 4: r = &c, r->fromJson(doc); break;
        }
        if (!r) r = own.get();
        vx::step(2);
        auto fresh = make<M>(k, v, false, 1);
        C& e = fresh->models["b"];
        VX_CHECK(r->label == "b", "the class is labelled %s", r->label.c_str());
        equal(class_params(*r), class_params(e), "the reloaded class", 1e-6);
        VX_CHECK(through(r->toJson(), 2) == through(e.toJson(), 2) || way, "the document changes when the class is saved again");
        if (k.hier || (!k.gmm && t < 2)) return;  // a class of an HMM outside a model is not filtered
        r->reset(), e.reset();
        for (int i = 0; i < 3; i++) {
            VX_NEAR(r->filter(frame(sh, i)), e.filter(frame(sh, i)), 1e-5, 0, "likelihood of the reloaded class");
            VX_CHECK(r->results.output_values.size() == e.results.output_values.size(), "size of the output");
            for (size_t d = 0; d < e.results.output_values.size(); d++)
                VX_NEAR(r->results.output_values[d], e.results.output_values[d], 1e-4, 1e-6, "output %zu of the reloaded class", d);
        }
    });
}
// parameters
namespace {
template <class P>
Snap shot(P const& p) {
    Snap s;
    settings(s, p);
    return s;
}
}
VX_SCENARIO_SPLIT(parameters, 3) {
    int what = vx::pick(3), way = vx::pick(3), used = vx::pick(2);
    if (what == 0) {
        xmm::SharedParameters p, q;
        int bi = vx::pick(2);
        static const int D[] = {1, 2, 3, 40};
        int dim = D[vx::pick(4)];
        p.bimodal.set(bi);
        if (bi && dim < 2) throw vx::Prune();
        p.dimension.set(dim);
        if (bi) p.dimension_input.set(1 + vx::pick(std::min(dim - 1, 2)));
        static const int IT[] = {1, 10, 1000000};
        p.em_algorithm_min_iterations.set(IT[vx::pick(3)]);
        p.em_algorithm_max_iterations.set(IT[vx::pick(3)] - 1);
        static const double PC[] = {0, 1. / 3, 12345.678};
        p.em_algorithm_percent_chg.set(PC[vx::pick(3)]);
        static const int W[] = {1, 7, 100000};
        p.likelihood_window.set(W[vx::pick(3)]);
        if (vx::pick(2)) {
            std::vector<std::string> names(dim, "");
            names[0] = "x", names[dim - 1] += "\xe2\x82\xac \"y\"";
            p.column_names.set(names);
        }
        if (used) {
            q.bimodal.set(!bi);
            q.dimension.set(7);
            if (!bi) q.dimension_input.set(3);
            q.em_algorithm_min_iterations.set(99), q.em_algorithm_max_iterations.set(88), q.em_algorithm_percent_chg.set(0.5);
            q.likelihood_window.set(9), q.column_names.set(std::vector<std::string>(7, "q"), true);
        }
        vx::note("shared parameters, bimodal %d, dimension %d, %s, used target %d", bi, dim, WAY[way], used);
        q.fromJson(through(p.toJson(), way));
        equal(shot(q), shot(p), "shared parameters", 1e-6);
        VX_CHECK(q.column_names.get() == p.column_names.get(), "column names");
    } else if (what == 1) {
        xmm::ClassParameters<xmm::GMM> p, q;
        static const int G[] = {1, 4, 100000};
        static const double R[] = {1e-20, 1. / 3, 1e9};
        p.gaussians.set(G[vx::pick(3)]);
        p.relative_regularization.set(R[vx::pick(3)]);
        p.absolute_regularization.set(R[vx::pick(3)]);
        p.covariance_mode.set(covmode(vx::pick(2)));
        if (used) q.gaussians.set(2), q.relative_regularization.set(0.7), q.absolute_regularization.set(0.6), q.covariance_mode.set(covmode(1));
        vx::note("parameters of a GMM class, %s, used target %d", WAY[way], used);
        q.fromJson(through(p.toJson(), way));
        equal(shot(q), shot(p), "parameters of a GMM class", 1e-6);
    } else {
        xmm::ClassParameters<xmm::HMM> p, q;
        static const int N[] = {1, 5, 1000};
        static const double R[] = {1e-20, 1. / 3, 1e9};
        p.states.set(N[vx::pick(3)]);
        p.gaussians.set(N[vx::pick(3)]);
        p.relative_regularization.set(R[vx::pick(3)]);
        p.absolute_regularization.set(R[vx::pick(3)]);
        p.covariance_mode.set(covmode(vx::pick(2)));
        p.transition_mode.set((xmm::HMM::TransitionMode)vx::pick(2));
        p.regression_estimator.set((xmm::HMM::RegressionEstimator)vx::pick(3));
        p.hierarchical.set(vx::pick(2));
        if (used) {
            q.states.set(6), q.gaussians.set(2), q.relative_regularization.set(0.7), q.absolute_regularization.set(0.6), q.covariance_mode.set(covmode(1));
            q.transition_mode.set(xmm::HMM::TransitionMode::Ergodic), q.regression_estimator.set(xmm::HMM::RegressionEstimator::Likeliest), q.hierarchical.set(false);
        }
        vx::note("parameters of an HMM class, %s, used target %d", WAY[way], used);
        q.fromJson(through(p.toJson(), way));
        equal(shot(q), shot(p), "parameters of an HMM class", 1e-6);
    }
    vx::step(2);
}
// gaussian distributions
VX_SCENARIO_SPLIT(gaussians, 3) {
    int bi = vx::pick(2), dim = 1 + bi + vx::pick(3), diag = vx::pick(2), way = vx::pick(3), t = vx::pick(4), set = vx::pick(3);
    int din = bi ? 1 + vx::pick(dim - 1) : 0;
    GD g(bi, dim, din, covmode(diag));
    auto fillg = [](GD& x, int v) {
        int n = x.dimension.get();
        bool dg = x.covariance_mode.get() == GD::CovarianceMode::Diagonal;
        for (int i = 0; i < n; i++) x.mean[i] = (i + v) / 3. - 1;
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                double c = i == j ? 1.1 + i / 7. + v : 0.3 / (1 + i + j);
                if (!dg)
                    x.covariance[i * n + j] = c;
                else if (i == j)
                    x.covariance[i] = c;
            }
        x.updateInverseCovariance();
    };
    if (set) fillg(g, set - 1);
    vx::note("gaussian, bimodal %d, dimension %d (%d), diagonal %d, values %d, %s, target %d", bi, dim, din, diag, set, WAY[way], t);
    std::unique_ptr<GD> r;
    Json::Value doc = through(g.toJson(), way);
    switch (t) {
        case 0: r.reset(new GD()); break;
        case 1: r.reset(new GD(!bi, 5, bi ? 0 : 2, covmode(!diag))), fillg(*r, 3); break;
        case 2: r.reset(new GD(bi, dim, din, covmode(diag))), fillg(*r, 3); break;
        case 3: r.reset(new GD(doc)); break;
    }
    if (t < 3) r->fromJson(doc);
    vx::step(2);
    VX_CHECK(r->dimension.get() == g.dimension.get() && r->dimension_input.get() == g.dimension_input.get(), "dimensions");
    VX_CHECK(r->covariance_mode.get() == g.covariance_mode.get(), "covariance mode");
    auto samev = [](const char* n, std::vector<double> const& a, std::vector<double> const& b) {
        VX_CHECK(a.size() == b.size(), "%s: %zu values instead of %zu", n, a.size(), b.size());
        for (size_t i = 0; i < a.size(); i++) VX_NEAR(a[i], b[i], 1e-6, 0, "%s, value %zu", n, i);
    };
    samev("mean", r->mean, g.mean);
    samev("covariance", r->covariance, g.covariance);
    samev("output covariance", r->output_covariance, g.output_covariance);
    if (!set) return;
    std::vector<float> x(dim);
    for (int i = 0; i < 3; i++) {
        for (int d = 0; d < dim; d++) x[d] = i - 0.5f * d;
        VX_NEAR(r->likelihood(x.data()), g.likelihood(x.data()), 1e-6, 0, "likelihood");
        if (!bi) continue;
        VX_NEAR(r->likelihood_input(x.data()), g.likelihood_input(x.data()), 1e-6, 0, "likelihood of the input");
        VX_NEAR(r->likelihood_bimodal(x.data(), x.data() + din), g.likelihood_bimodal(x.data(), x.data() + din), 1e-6, 0, "joint likelihood");
        std::vector<float> in(x.begin(), x.begin() + din), a(dim - din), b(dim - din);
        r->regression(in, a), g.regression(in, b);
        for (int d = 0; d < dim - din; d++) VX_NEAR(a[d], b[d], 1e-5, 1e-6, "regression, output %d", d);
    }
    // still usable
    fillg(*r, 2), fillg(g, 2);
    VX_NEAR(r->likelihood(x.data()), g.likelihood(x.data()), 1e-6, 0, "likelihood after a change");
}
