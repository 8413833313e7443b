// C15: training of gaussian mixture models
#include "em_ref.hpp"
#include "model_build.hpp"
using namespace ref;

namespace {
struct Log {
    std::map<std::string, std::vector<xmm::TrainingEvent>> e;
    void on(xmm::TrainingEvent& ev) { e[ev.label].push_back(ev); }
};
std::vector<float> value(int dim, int v) {
    static const float A[][3] = {{0, 0.5f, -1}, {1, -1, 0.25f}, {2.5f, 0.25f, 2}, {-1.5f, 3, 1}, {5, 1, -3}};
    return std::vector<float>(A[v], A[v] + dim);
}
// compares a trained class with the reference
void judge(xmm::GMM& m, std::string const& label, Log& log, EmConfig const& c, Data const& data, double tol) {
    const char* who = label.c_str();
    Em r(c, data);
    auto& ev = log.e[label];
    VX_CHECK(!ev.empty(), "no event for class %s", who);
    bool has = m.models.count(label) == 1;
    if (r.degenerate) {  // fewer frames than components: a valid mixture, or an error
        VX_CHECK(has == (ev.back().status == xmm::TrainingEvent::Done), "%s: class and terminal event do not agree", who);
        vx::outcome(has ? "segments without frames: trained" : "segments without frames: error");
        if (!has) return;
        valid_mix(m.models[label], c, regularization(c, data), who);
        return;
    }
    VX_CHECK(has, "%s: training failed", who);
    auto& cls = m.models[label];
    VX_CHECK(cls.label == label, "the class of %s is labelled %s", who, cls.label.c_str());
    valid_mix(cls, c, regularization(c, data), who);
    VX_CHECK(ev.back().status == xmm::TrainingEvent::Done, "%s: last event is %d", who, (int)ev.back().status);
    int its = (int)ev.size() - 1;
    if (c.max >= c.min) {
        VX_CHECK(its == c.max, "%s: %d iterations instead of %d", who, its, c.max);
    } else {
        VX_CHECK(its >= c.min && its <= 1000, "%s: %d iterations, at least %d are required", who, its, c.min);
    }
    vx::Hash h;
    for (auto& g : cls.components)
        for (double x : g.mean) h.addf((float)x);
    vx::state(h.h);
    if (r.ambiguous) {
        vx::outcome("near tie: validity only");
        return;
    }
    VX_CHECK(its == (int)r.ll.size(), "%s: %d iterations instead of %zu", who, its, r.ll.size());
    for (int i = 0; i < its; i++) {
        VX_CHECK((int)ev[i].iterations == i + 1 && ev[i].status == xmm::TrainingEvent::Run, "%s: event %d reports iteration %d", who, i, (int)ev[i].iterations);
        VX_NEAR(ev[i].log_likelihood, r.ll[i], tol, tol, "%s: log-likelihood of iteration %d", who, i + 1);
    }
    near_mix(cls, r.m, tol, who);
    vx::outcome(its == c.min ? "compared, minimum" : "compared");
}
void apply(xmm::GMM& m, EmConfig const& c) {
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.configuration.gaussians.set(c.gaussians);
    m.configuration.absolute_regularization.set(c.abs);
    m.configuration.relative_regularization.set(c.rel);
    m.configuration.covariance_mode.set(covmode(c.diag));
    m.shared_parameters->em_algorithm_min_iterations.set(c.min);
    m.shared_parameters->em_algorithm_max_iterations.set(c.max);
    m.shared_parameters->em_algorithm_percent_chg.set(c.pct);
}
void regular(EmConfig& c, int r) {
    c.abs = r == 0 ? 1e-3 : r == 1 ? 0.25 : 1e-2;
    c.rel = r == 0 ? 1e-2 : r == 1 ? 1e-3 : 0.5;
}
std::string describe(EmConfig const& c) {
    char b[160];
    snprintf(b, sizeof b, "dimension %d/%d, %d gaussians, %s, regularisation %g/%g, %d..%d iterations, %g%%", c.dim, c.din, c.gaussians,
             c.diag ? "diagonal" : "full", c.abs, c.rel, c.min, c.max, c.pct);
    return b;
}
// n frames over the alphabet, divided into at most `parts` phrases
std::vector<Frames> frames(int dim, int n, int values, int parts) {
    std::vector<Frames> p(1);
    std::string txt;
    for (int i = 0; i < n; i++) {
        if (i > 0 && (int)p.size() < parts && vx::pick(2)) {
            p.emplace_back();
            txt += " |";
        }
        int v = vx::pick(values);
        p.back().push_back(value(dim, v));
        txt += " " + std::to_string(v);
    }
    vx::note("frames%s", txt.c_str());
    return p;
}
const std::vector<Frames> OTHER(int dim) {
    return {{value(dim, 3), value(dim, 4), value(dim, 0), value(dim, 3)}, {value(dim, 1), value(dim, 1), value(dim, 4)}};
}
// one class (and another one beside it) trained from the given phrases
void inputs(bool bi, int dim, int nmin, int nmax, int values, int parts) {
    EmConfig c;
    c.bi = bi;
    c.dim = dim;
    c.din = bi ? dim / 2 : 0;
    c.gaussians = 1 + vx::pick(3);
    c.diag = vx::pick(2);
    int it = vx::pick(3);
    c.min = c.max = it == 0 ? 1 : 3;
    if (it == 2) c.min = 2, c.max = 0, c.pct = 5;
    regular(c, (c.gaussians + it) % 3);
    vx::note("%s", describe(c).c_str());
    auto ph = frames(dim, nmin + vx::pick(nmax - nmin + 1), values, parts);
    Set s(bi, dim, c.din);
    s.add("b", OTHER(dim)[0]);
    for (auto& p : ph) s.add("a", p);
    s.add("b", OTHER(dim)[1]);
    xmm::GMM m(bi);
    apply(m, c);
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&s);
    vx::step();
    judge(m, "a", log, c, todata(ph), 1e-4);
    static std::map<std::string, bool> done;
    if (!done[describe(c)]) judge(m, "b", log, c, todata(OTHER(dim)), 1e-4), done[describe(c)] = true;
}
}  // namespace

VX_SCENARIO_SPLIT(one_dimension, 6) { inputs(false, 1, 1, vx::tier(5, 7), 3, 3); }
VX_SCENARIO_SPLIT(two_dimensions, 6) { inputs(false, 2, 2, vx::tier(5, 6), 4, 3); }
VX_SCENARIO_SPLIT(bimodal, 6) { inputs(true, 2, 2, vx::tier(5, 6), 3, 3); }
VX_SCENARIO_SPLIT(bimodal_three, 6) { inputs(true, 3, 3, vx::tier(5, 6), 3, vx::tier(1, 3)); }

// settings: number of gaussians, regularisation, stopping rule, per-class overrides
VX_SCENARIO_SPLIT(settings, 4) {
    static const int MM[][2] = {{1, 1}, {1, 4}, {3, 3}, {2, 0}, {1, 0}, {4, 2}, {5, 0}, {8, 12}, {3, 1}};
    static const double PCT[] = {0.01, 2, 20};
    EmConfig c;
    Shape sh = shapes()[vx::pick(vx::tier(4, 7))];
    c.bi = sh.bi;
    c.dim = sh.dim;
    c.din = sh.din;
    c.gaussians = 1 + vx::pick(vx::tier(3, 4));
    c.diag = vx::pick(2);
    int r = vx::pick(3), mm = vx::pick(9);
    regular(c, r);
    c.min = MM[mm][0];
    c.max = MM[mm][1];
    c.pct = c.max < c.min ? PCT[vx::pick(3)] : 0.01;
    bool over = vx::pick(2);
    int data = vx::pick(vx::tier(3, 5));
    vx::note("%s, data %d%s", describe(c).c_str(), data, over ? ", class b has its own settings" : "");
    std::vector<Frames> pa, pb;
    for (int p = 0; p < 3; p++) {
        Frames f;
        for (int t = 0; t < 4 + 2 * p; t++) {
            std::vector<float> x(c.dim);
            for (int d = 0; d < c.dim; d++)
                x[d] = (float)((t * t * (d + 2) + 3 * data + p * (d + 1)) % 7) * 0.5f + 0.125f * ((t + data * d) % 3) - d;
            f.push_back(x);
        }
        (p == 1 ? pb : pa).push_back(f);
    }
    Set s(c.bi, c.dim, c.din);
    s.add("a", pa[0]);
    s.add("b", pb[0]);
    s.add("a", pa[1]);
    xmm::GMM m(c.bi);
    apply(m, c);
    EmConfig b = c;
    if (over) {
        b.gaussians = c.gaussians % 3 + 1;
        b.diag = !c.diag;
        regular(b, (r + 1) % 3);
        auto& q = m.configuration["b"];
        q.gaussians.set(b.gaussians);
        q.covariance_mode.set(covmode(b.diag));
        q.absolute_regularization.set(b.abs);
        q.relative_regularization.set(b.rel);
    }
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&s);
    vx::step();
    double tol = c.max < c.min || c.max > 5 ? 2e-3 : 2e-4;
    judge(m, "a", log, c, todata(pa), tol);
    judge(m, "b", log, b, todata(pb), tol);
}

// more gaussians, dimensions, phrases and frames
VX_SCENARIO_SPLIT(wide, 3) {
    static const int MM[][2] = {{1, 1}, {1, 6}, {3, 0}, {4, 2}};
    EmConfig c;
    Shape sh = wide_shapes()[vx::pick(6)];
    c.bi = sh.bi, c.dim = sh.dim, c.din = sh.din;
    c.gaussians = 2 + vx::pick(vx::tier(4, 6));
    c.diag = vx::pick(2);
    int mm = vx::pick(4), data = vx::pick(vx::tier(3, 6)), phrases = 1 + vx::pick(4);
    regular(c, (mm + data) % 3);
    c.min = MM[mm][0], c.max = MM[mm][1];
    c.pct = c.max < c.min ? 2 : 0.01;
    vx::note("%s, data %d, %d phrases", describe(c).c_str(), data, phrases);
    static const int LEN[] = {29, 13, 22, 7};
    std::vector<Frames> pa;
    Set s(c.bi, c.dim, c.din);
    for (int p = 0; p < phrases; p++) {
        Frames f;
        for (int t = 0; t < LEN[(p + data) % 4]; t++) {
            std::vector<float> x(c.dim);
            for (int d = 0; d < c.dim; d++)
                x[d] = (float)((t * t * (d + 2) + 3 * data + p * (d + 1)) % 11) * 0.5f + 0.125f * ((t * 5 + data * d) % 7) - d + 0.0625f * t;
            f.push_back(x);
        }
        pa.push_back(f);
        s.add("a", f);
        if (p < 2) s.add("b", f);
    }
    xmm::GMM m(c.bi);
    apply(m, c);
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&s);
    vx::step();
    judge(m, "a", log, c, todata(pa), 3e-3);
    pa.resize(std::min(phrases, 2));
    judge(m, "b", log, c, todata(pa), 3e-3);
}
