// C16: training of hidden Markov models
#include "em_ref.hpp"
#include "model_build.hpp"
using namespace ref;

namespace {
struct Log {
    std::map<std::string, std::vector<xmm::TrainingEvent>> e;
    void on(xmm::TrainingEvent& ev) { e[ev.label].push_back(ev); }
};
std::vector<float> value(int dim, int v) {
    static const float A[][3] = {{0, 0.5f, -1}, {1, -1, 0.25f}, {2.5f, 0.25f, 2}, {-1.5f, 3, 1}, {5, 1, -3}};
    return std::vector<float>(A[v], A[v] + dim);
}
struct Mode {
    bool hier = true;
};
double entry(xmm::SingleClassHMM const& c, bool erg, int N, int i, int j) {
    if (erg) return c.transition[i * N + j];
    double v = 0;
    if (i == j) v += c.transition[2 * i];
    if (N > 1 && j == (i + 1) % N) v += c.transition[2 * i + 1];
    return v;
}
void judge(xmm::HierarchicalHMM& m, std::string const& label, Log& log, EmConfig const& c, Data const& data, bool hier, double tol) {
    const char* who = label.c_str();
    int N = c.states;
    Bw r(c, data);
    auto& ev = log.e[label];
    VX_CHECK(!ev.empty(), "no event for class %s", who);
    bool has = m.models.count(label) == 1;
    VX_CHECK(has == (ev.back().status == xmm::TrainingEvent::Done), "%s: class and terminal event do not agree", who);
    if (!has) {
        VX_CHECK(r.degenerate, "%s: training failed", who);
        vx::outcome("too short: error");
        return;
    }
    auto& h = m.models[label];
    VX_CHECK(h.label == label, "the class of %s is labelled %s", who, h.label.c_str());
    // a valid hidden Markov model
    VX_CHECK((int)h.states.size() == N && (int)h.parameters.states.get() == N, "%s: %zu states instead of %d", who, h.states.size(), N);
    VX_CHECK((int)h.transition.size() == (c.erg ? N * N : 2 * N) && (int)h.prior.size() == (c.erg ? N : 0), "%s: %zu transitions and %zu priors", who,
             h.transition.size(), h.prior.size());
    VX_CHECK((h.parameters.transition_mode.get() == xmm::HMM::TransitionMode::Ergodic) == c.erg, "%s: topology", who);
    bool cyclic = !hier && N > 1;
    for (int i = 0; i < N; i++) {
        double s = 0;
        int width = c.erg ? N : 2;
        for (int j = 0; j < width; j++) {
            double v = h.transition[i * width + j];
            VX_CHECK(v >= 0 && v <= 1 + 1e-5, "%s: transition %d,%d is %g", who, i, j, v);
            s += v;
        }
        if (!(cyclic && i == N - 1)) VX_NEAR(s, 1, 1e-4, 0, "%s: sum of the transitions of state %d", who, i);
        // the transition from the last state to the first is set to a constant
        if (cyclic && i == N - 1) {
            double v = h.transition[c.erg ? (N - 1) * N : 2 * N - 1];
            VX_CHECK(v > 0 && v <= 0.2, "%s: cyclic transition %g", who, v);
            VX_CHECK(s - v <= 1 + 1e-4, "%s: sum of the other transitions of the last state is %g", who, s - v);
        }
    }
    if (hier && !c.erg) VX_CHECK(h.transition[2 * N - 1] == 0, "%s: a left-right class leaves its last state", who);
    if (c.erg) {
        double s = 0;
        for (float v : h.prior) {
            VX_CHECK(v >= 0 && v <= 1 + 1e-5, "%s: prior %g", who, v);
            s += v;
        }
        VX_NEAR(s, 1, 1e-4, 0, "%s: sum of the priors", who);
    }
    V reg = regularization(c, data);
    for (auto& st : h.states) valid_mix(st, c, reg, who);
    Json::Value ex = h.toJson()["exitProbabilities"];
    if (hier || ex.size() > 0) {
        VX_CHECK((int)ex.size() == N, "%s: %u exit probabilities for %d states", who, ex.size(), N);
        for (int i = 0; i < N; i++) VX_CHECK(ex[i].asFloat() >= 0 && ex[i].asFloat() <= 1, "%s: exit probability %g", who, ex[i].asFloat());
    }
    int its = (int)ev.size() - 1;
    if (c.max >= c.min) {
        VX_CHECK(its == c.max, "%s: %d iterations instead of %d", who, its, c.max);
    } else {
        VX_CHECK(its >= c.min && its <= 1000, "%s: %d iterations, at least %d are required", who, its, c.min);
    }
    vx::Hash hs;
    for (auto& st : h.states)
        for (auto& g : st.components)
            for (double x : g.mean) hs.addf((float)x);
    for (float x : h.transition) hs.addf(x);
    vx::state(hs.h);
    if (r.degenerate) {
        vx::outcome("too short: validity only");
        return;
    }
    if (r.ambiguous) {
        vx::outcome("near tie: validity only");
        return;
    }
    VX_CHECK(its == (int)r.ll.size(), "%s: %d iterations instead of %zu", who, its, r.ll.size());
    for (int i = 0; i < its; i++) {
        VX_CHECK((int)ev[i].iterations == i + 1 && ev[i].status == xmm::TrainingEvent::Run, "%s: event %d reports iteration %d", who, i, (int)ev[i].iterations);
        VX_NEAR(ev[i].log_likelihood, r.ll[i], tol, tol, "%s: log-likelihood of iteration %d", who, i + 1);
    }
    for (int i = 0; i < N; i++) {
        char b[64];
        snprintf(b, sizeof b, "%s, state %d", who, i);
        near_mix(h.states[i], r.h.st[i], tol, b);
        if (c.erg) VX_NEAR(h.prior[i], r.h.prior[i], tol, tol, "%s: prior", b);
        for (int j = 0; j < N; j++) {
            if (cyclic && i == N - 1 && j == 0) continue;
            VX_NEAR(entry(h, c.erg, N, i, j), (double)r.T[i * N + j], tol, tol, "%s: transition to state %d", b, j);
        }
    }
    vx::outcome(std::string("compared") + (c.erg ? ", ergodic" : ", left-right") + (c.gaussians > 1 ? ", mixture" : ""));
}
void apply(xmm::HierarchicalHMM& m, EmConfig const& c, bool hier) {
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.configuration.states.set(c.states);
    m.configuration.gaussians.set(c.gaussians);
    m.configuration.absolute_regularization.set(c.abs);
    m.configuration.relative_regularization.set(c.rel);
    m.configuration.covariance_mode.set(covmode(c.diag));
    m.configuration.transition_mode.set(c.erg ? xmm::HMM::TransitionMode::Ergodic : xmm::HMM::TransitionMode::LeftRight);
    m.configuration.hierarchical.set(hier);
    m.shared_parameters->em_algorithm_min_iterations.set(c.min);
    m.shared_parameters->em_algorithm_max_iterations.set(c.max);
    m.shared_parameters->em_algorithm_percent_chg.set(c.pct);
}
void regular(EmConfig& c, int r) {
    c.abs = r == 0 ? 1e-2 : r == 1 ? 0.25 : 5e-2;
    c.rel = r == 0 ? 1e-1 : r == 1 ? 1e-3 : 0.5;
}
std::string describe(EmConfig const& c) {
    char b[200];
    snprintf(b, sizeof b, "dimension %d/%d, %d states, %s, %d gaussians, %s, regularisation %g/%g, %d..%d iterations, %g%%", c.dim, c.din, c.states,
             c.erg ? "ergodic" : "left-right", c.gaussians, c.diag ? "diagonal" : "full", c.abs, c.rel, c.min, c.max, c.pct);
    return b;
}
std::vector<Frames> frames(int dim, int n, int values, int parts) {
    std::vector<Frames> p(1);
    std::string txt;
    for (int i = 0; i < n; i++) {
        if (i > 0 && (int)p.size() < parts && vx::pick(2)) {
            p.emplace_back();
            txt += " |";
        }
        int v = vx::pick(values);
        p.back().push_back(value(dim, v));
        txt += " " + std::to_string(v);
    }
    vx::note("frames%s", txt.c_str());
    return p;
}
std::vector<Frames> other(int dim) {
    return {{value(dim, 3), value(dim, 4), value(dim, 0), value(dim, 3)}, {value(dim, 1), value(dim, 1), value(dim, 4)}};
}
void inputs(bool bi, int dim, int nmin, int nmax, int values, int parts) {
    EmConfig c;
    c.bi = bi;
    c.dim = dim;
    c.din = bi ? dim / 2 : 0;
    c.states = 1 + vx::pick(3);
    c.erg = vx::pick(2);
    int it = vx::pick(vx::tier(2, 3));
    c.diag = (it + c.states + c.erg) % 2;
    c.min = c.max = it == 0 ? 1 : 3;
    if (it == 1 && c.states == 2) c.min = 2, c.max = 0, c.pct = 5;
    bool hier = (c.states + it) % 3 != 0;
    regular(c, (c.states + it) % 3);
    vx::note("%s, %s", describe(c).c_str(), hier ? "hierarchical" : "not hierarchical");
    auto ph = frames(dim, nmin + vx::pick(nmax - nmin + 1), values, parts);
    Set s(bi, dim, c.din);
    s.add("b", other(dim)[0]);
    for (auto& p : ph) s.add("a", p);
    s.add("b", other(dim)[1]);
    xmm::HierarchicalHMM m(bi);
    apply(m, c, hier);
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&s);
    vx::step();
    judge(m, "a", log, c, todata(ph), hier, 2e-4);
    static std::map<std::string, bool> done;
    if (!done[describe(c)]) judge(m, "b", log, c, todata(other(dim)), hier, 2e-4), done[describe(c)] = true;
}
}  // namespace

VX_SCENARIO_SPLIT(one_dimension, 6) { inputs(false, 1, 1, vx::tier(6, 7), 3, 2); }
VX_SCENARIO_SPLIT(two_dimensions, 6) { inputs(false, 2, 2, vx::tier(5, 6), 4, 2); }
VX_SCENARIO_SPLIT(bimodal, 6) { inputs(true, 2, 2, vx::tier(5, 6), 3, vx::tier(2, 3)); }
VX_SCENARIO_SPLIT(three_phrases, 6) { inputs(false, 1, 3, vx::tier(6, 7), 2, 3); }

VX_SCENARIO_SPLIT(settings, 4) {
    static const int MM[][2] = {{1, 1}, {1, 4}, {3, 3}, {2, 0}, {1, 0}, {4, 2}, {5, 0}};
    static const double PCT[] = {0.01, 2, 20};
    EmConfig c;
    Shape sh = shapes()[vx::pick(vx::tier(3, 6))];
    c.bi = sh.bi;
    c.dim = sh.dim;
    c.din = sh.din;
    c.states = 1 + vx::pick(vx::tier(3, 4));
    c.erg = vx::pick(2);
    c.gaussians = 1 + vx::pick(vx::tier(2, 3));
    c.diag = vx::pick(2);
    bool hier = vx::pick(2) == 0;
    int mm = vx::pick(7);
    int r = vx::tier((mm + c.states) % 3, -1);
    if (r < 0) r = vx::pick(3);
    regular(c, r);
    c.min = MM[mm][0];
    c.max = MM[mm][1];
    c.pct = c.max < c.min ? PCT[vx::pick(3)] : 0.01;
    bool over = vx::pick(2);
    int data = vx::pick(vx::tier(2, 4));
    vx::note("%s, %s, data %d%s", describe(c).c_str(), hier ? "hierarchical" : "not hierarchical", data, over ? ", class b has its own settings" : "");
    std::vector<Frames> pa, pb;
    for (int p = 0; p < 3; p++) {
        Frames f;
        for (int t = 0; t < 8 - 2 * p + data; t++) {
            std::vector<float> x(c.dim);
            for (int d = 0; d < c.dim; d++)
                x[d] = (float)((t * t * (d + 2) + 3 * data + p * (d + 1)) % 7) * 0.5f + 0.125f * ((t + data * d) % 3) - d + 0.25f * t;
            f.push_back(x);
        }
        (p == 1 ? pb : pa).push_back(f);
    }
    Set s(c.bi, c.dim, c.din);
    s.add("a", pa[0]);
    s.add("b", pb[0]);
    s.add("a", pa[1]);
    xmm::HierarchicalHMM m(c.bi);
    apply(m, c, hier);
    EmConfig b = c;
    if (over) {
        b.states = c.states % 3 + 1;
        b.gaussians = c.gaussians % 2 + 1;
        b.diag = !c.diag;
        b.erg = !c.erg;
        regular(b, (r + 1) % 3);
        auto& q = m.configuration["b"];
        q.states.set(b.states);
        q.gaussians.set(b.gaussians);
        q.covariance_mode.set(covmode(b.diag));
        q.transition_mode.set(b.erg ? xmm::HMM::TransitionMode::Ergodic : xmm::HMM::TransitionMode::LeftRight);
        q.absolute_regularization.set(b.abs);
        q.relative_regularization.set(b.rel);
    }
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&s);
    vx::step();
    double tol = c.max < c.min || c.max > 4 ? 2e-3 : 2e-4;
    judge(m, "a", log, c, todata(pa), hier, tol);
    judge(m, "b", log, b, todata(pb), hier, tol);
}

// more states, gaussians, dimensions, phrases and frames
VX_SCENARIO_SPLIT(wide, 3) {
    static const int MM[][2] = {{1, 1}, {1, 5}, {3, 0}, {4, 2}};
    static const int STATES[] = {4, 7, 5, 10};
    EmConfig c;
    Shape sh = wide_shapes()[vx::pick(vx::tier(4, 6))];
    c.bi = sh.bi, c.dim = sh.dim, c.din = sh.din;
    c.states = STATES[vx::pick(vx::tier(2, 4))];
    c.erg = vx::pick(2);
    int mm = vx::pick(4), data = vx::pick(vx::tier(2, 4)), phrases = 1 + vx::pick(4);
    c.gaussians = 1 + (mm + phrases) % 2;
    c.diag = vx::pick(2);
    bool hier = (data + phrases) % 2;
    regular(c, (mm + data) % 3);
    c.min = MM[mm][0], c.max = MM[mm][1];
    c.pct = c.max < c.min ? 2 : 0.01;
    vx::note("%s, %s, data %d, %d phrases", describe(c).c_str(), hier ? "hierarchical" : "not hierarchical", data, phrases);
    static const int LEN[] = {31, 13, 22, 8};
    std::vector<Frames> pa;
    Set s(c.bi, c.dim, c.din);
    for (int p = 0; p < phrases; p++) {
        Frames f;
        for (int t = 0; t < LEN[(p + data) % 4]; t++) {
            std::vector<float> x(c.dim);
            for (int d = 0; d < c.dim; d++)
                x[d] = (float)((t * t * (d + 2) + 3 * data + p * (d + 1)) % 11) * 0.5f + 0.125f * ((t * 5 + data * d) % 7) - d + 0.25f * t;
            f.push_back(x);
        }
        pa.push_back(f);
        s.add("a", f);
        if (p < 2) s.add("b", f);
    }
    xmm::HierarchicalHMM m(c.bi);
    apply(m, c, hier);
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&s);
    vx::step();
    judge(m, "a", log, c, todata(pa), hier, 3e-3);
    pa.resize(std::min(phrases, 2));
    judge(m, "b", log, c, todata(pa), hier, 3e-3);
}
