// C24: classes whose training fails
#include <mutex>
#include "model_history.hpp"
using namespace ref;

namespace {
enum { GOOD0, GOOD1, EMPTY, NOTANUMBER, INFINITE, ONEFRAME, CONSTANT, PARTLY, HUGE_VALUES, NDATA,
       // the second phrase does not have the dimensions or modalities of the set
       WIDER = NDATA, NARROWER, OTHERSPLIT, OTHERMODALITY, LONGSPLIT, NFOREIGN };
const char* DATA[] = {"good data 0", "good data 1", "no frames", "a NaN", "an infinite value", "one frame", "constant frames", "an empty phrase", "huge values",
                      "a phrase of more dimensions", "a phrase of fewer dimensions", "a phrase of another input dimension", "a phrase of other modalities", "a long phrase of another input dimension"};
bool good(int d) { return d <= GOOD1; }
bool hopeless(int d) { return d == EMPTY || d == NOTANUMBER || d == INFINITE || d >= WIDER; }
std::vector<Frames> data(int d, int dim) {
    std::vector<Frames> f = class_data(d == GOOD1 ? 1 : 0, dim);
    switch (d) {
        case EMPTY: f = {{}, {}}; break;
        case NOTANUMBER: f[1][2][dim - 1] = NAN; break;
        case INFINITE: f[0][1][0] = INFINITY; break;
        case ONEFRAME: f = {{f[0][0]}}; break;
        case CONSTANT: f = {Frames(5, f[0][0]), Frames(4, f[0][0])}; break;
        case PARTLY: f[0].clear(); break;
        case HUGE_VALUES:
            for (auto& p : f)
                for (auto& x : p)
                    for (auto& v : x) v *= 1e15f;  // squares still representable
            break;
    }
    return f;
}
struct Log {
    std::mutex mx;
    std::vector<xmm::TrainingEvent> e;
    void on(xmm::TrainingEvent& ev) {
        std::lock_guard<std::mutex> l(mx);
        e.push_back(ev);
    }
};
// a phrase that does not match the set
bool foreign_shape(int d, Shape& o) {
    switch (d) {
        case WIDER: o.dim++; return true;
        case NARROWER:
            if (--o.dim < (o.bi ? 2 : 1)) return false;
            o.din = std::min(o.din, o.dim - 1);
            return true;
        case OTHERMODALITY:
            o.bi = !o.bi;
            o.din = o.bi ? 1 : 0;
            return o.dim > 1 || !o.bi;
        default:
            o.din = o.din == 1 ? 2 : 1;
            return o.bi && o.din < o.dim;
    }
}
int WAY = 0;  // copied, shared, or changed in the set
void add_foreign(xmm::TrainingSet& ts, std::string const& label, int d, Shape const& s) {
    Shape o = s;
    if (!foreign_shape(d, o)) throw vx::Prune();
    Frames f;
    for (int i = 0; i < (d == LONGSPLIT ? 256 : 7); i++) {
        std::vector<float> x;
        for (int j = 0; j < o.dim; j++) x.push_back(0.25f * ((i * (j + 3)) % 7) + j);
        f.push_back(x);
    }
    int index = 1000 + (int)ts.size();
    auto p = phrase(o.bi, o.dim, o.din, label, f);
    if (WAY == 0)
        ts.addPhrase(index, *p);
    else if (WAY == 1)
        ts.addPhrase(index, p);
    else {
        if (o.bi != s.bi) throw vx::Prune();
        ts.addPhrase(index, label);
        auto q = ts.getPhrase(index);
        q->dimension.set(o.dim);
        if (o.bi) q->dimension_input.set(o.din);
        for (auto& x : f) q->record(x);
    }
}
bool finite(Snap const& s) {
    for (double x : s.v)
        if (!std::isfinite(x)) return false;
    return true;
}
template <class C>
void valid_class(C const& c, const char* who);
template <>
void valid_class(xmm::SingleClassGMM const& c, const char* who) {
    double s = 0;
    for (double w : c.mixture_coeffs) s += w;
    VX_NEAR(s, 1, 1e-4, 0, "%s: sum of the mixture weights", who);
    for (auto& g : c.components) {
        size_t n = g.dimension.get();
        bool diag = g.covariance_mode.get() == GD::CovarianceMode::Diagonal;
        for (size_t d = 0; d < n; d++)
            VX_CHECK(g.covariance[diag ? d : d * n + d] > 0, "%s: variance %g", who, g.covariance[diag ? d : d * n + d]);
    }
}
template <>
void valid_class(xmm::SingleClassHMM const& c, const char* who) {
    for (auto& s : c.states) valid_class(s, who);
}
void tiny(xmm::ClassParameters<xmm::GMM>& p) { p.absolute_regularization.set(1e-20), p.relative_regularization.set(1e-20); }
void tiny(xmm::ClassParameters<xmm::HMM>& p) { p.absolute_regularization.set(1e-20), p.relative_regularization.set(1e-20); }

template <class M>
struct Run {
    Kind k;
    Shape sh;
    int mode;
    std::unique_ptr<M> m;
    Log log;
    bool small = false;  // class c is trained with hardly any regularisation

    void config(M& x) const {
        configure_all(x, k, 3);
        if (small) tiny(x.configuration["c"]);
    }
    std::unique_ptr<Set> set(std::map<std::string, int> const& cl, Shape const& s) {
        std::unique_ptr<Set> r(new Set(s.bi, s.dim, s.din));
        for (int p = 0; p < 2; p++)
            for (auto& c : cl) {
                auto d = data(c.second, s.dim);
                if (p == 1 && c.second >= WIDER)
                    add_foreign(*r->ts, c.first, c.second, s);
                else if (p < (int)d.size())
                    r->add(c.first, d[p]);
            }
        return r;
    }
    // terminal status of each class; every class has one terminal event, and the run one completion
    std::map<std::string, int> outcomes(std::map<std::string, int> const& cl) {
        std::map<std::string, int> r;
        VX_CHECK(!log.e.empty() && log.e.back().status == xmm::TrainingEvent::Alldone, "the last event is not the completion");
        for (size_t i = 0; i < log.e.size(); i++) {
            auto& e = log.e[i];
            if (e.status == xmm::TrainingEvent::Alldone) {
                VX_CHECK(i + 1 == log.e.size(), "two completion events");
                continue;
            }
            VX_CHECK(cl.count(e.label), "an event names class \"%s\"", e.label.c_str());
            VX_CHECK(!r.count(e.label), "an event of class %s follows its terminal event", e.label.c_str());
            if (e.status != xmm::TrainingEvent::Run) r[e.label] = e.status;
        }
        for (auto& c : cl) VX_CHECK(r.count(c.first), "class %s has no terminal event", c.first.c_str());
        log.e.clear();
        return r;
    }
    // trains and returns the classes expected afterwards
    void train(std::map<std::string, int> const& cl, const char* label = nullptr, std::map<std::string, int> keep = {}) {
        auto s = set(cl, sh);
        uint64_t h = set_hash(*s->ts);
        log.e.clear();
        if (label)
            m->train(s->ts.get(), label);
        else
            m->train(s->ts.get());
        wait_trained(*m);
        m->cancelTraining();  // the completion event is delivered
        vx::step();
        VX_CHECK(set_hash(*s->ts) == h, "training changed the training set");
        s.reset();
        std::map<std::string, int> now = cl;
        if (label) now = {{label, cl.at(label)}};
        auto out = outcomes(now);
        for (auto& c : now) {
            bool done = out[c.first] == xmm::TrainingEvent::Done;
            VX_CHECK(done || out[c.first] == xmm::TrainingEvent::Error, "class %s ends with event %d", c.first.c_str(), out[c.first]);
            VX_CHECK(!hopeless(c.second) || !done, "training class %s from %s ends without an error", c.first.c_str(), DATA[c.second]);
            VX_CHECK(!good(c.second) || done || (small && c.first == "c"), "training class %s from %s fails", c.first.c_str(), DATA[c.second]);
            vx::outcome(std::string(DATA[c.second]) + (done ? ": done" : ": error"));
            keep.erase(c.first);
            if (done) keep[c.first] = c.second;
        }
        classes = keep;
        check("after training");
    }
    std::map<std::string, int> classes;
    void check(const char* who) {
        Classes cl(classes.begin(), classes.end());
        check_classes(*m, cl, who);
        for (auto& c : classes) {
            auto& q = m->models[c.first];
            Snap p = class_params(q);
            VX_CHECK(finite(p), "%s: class %s trained from %s has parameters that are not finite", who, c.first.c_str(), DATA[c.second]);
            valid_class(q, who);
            if (good(c.second) && !(small && c.first == "c"))
                equal(p, standalone<M>(name(k), c.first, c.second, sh, [this](M& x) { configure_all(x, k, 3); }), who, 1e-5, 1e-6);
        }
    }
    void filter() {
        if (classes.empty()) {
            VX_CHECK(vx::throws([&] { m->filter(frame(sh, 0)); }), "a model without classes filters");
            return;
        }
        for (int i = 0; i < 2; i++) {
            m->filter(frame(sh, i));
            VX_CHECK(m->results.instant_likelihoods.size() == classes.size(), "%zu results", m->results.instant_likelihoods.size());
            for (double l : m->results.instant_likelihoods) VX_CHECK(l >= 0, "likelihood %g", l);
        }
    }
};
template <class M>
void failing(Kind const& k, int ncls, bool small, std::vector<int> const& choice, int followups) {
    Run<M> r;
    r.k = k;
    r.sh = shape(k);
    r.small = small;
    r.mode = vx::pick(3);
    std::map<std::string, int> cl;
    std::string txt;
    for (int i = 0; i < ncls; i++) {
        std::string l(1, "cbade"[i]);
        cl[l] = vx::oneof(choice);
        txt += ", " + l + ": " + DATA[cl[l]];
    }
    vx::note("%s, mode %d%s%s", name(k).c_str(), r.mode, txt.c_str(), small ? ", c hardly regularised" : "");
    r.m.reset(new M(r.sh.bi));
    r.config(*r.m);
    r.m->configuration.multithreading = (xmm::MultithreadingMode)r.mode;
    r.m->training_events.addListener(&r.log, &Log::on);
    r.train(cl);
    for (int f = 0; f < followups; f++) {
        switch (vx::pick(7)) {
            case 0:
                vx::note("filter");
                r.filter();
                break;
            case 1:
                vx::note("train good data");
                r.train({{"a", GOOD1}, {"d", GOOD0}});
                break;
            case 2:
                vx::note("train d from good data");
                r.train({{"d", GOOD1}}, "d", r.classes);
                break;
            case 3:
                vx::note("train a from no frames");
                r.train({{"a", EMPTY}, {"b", GOOD0}}, "a", r.classes);
                break;
            case 4: {
                vx::note("copy");
                std::unique_ptr<M> c(new M(*r.m));
                r.m = std::move(c);
                r.check("the copy");
                break;
            }
            case 5: {
                vx::note("reload");
                Json::Value doc = r.m->toJson();
                r.m->fromJson(doc);
                r.check("after reloading");
                break;
            }
            case 6:
                vx::note("reset, remove one");
                r.m->reset();
                if (!r.classes.empty()) {
                    std::string l = r.classes.begin()->first;
                    r.m->removeClass(l);
                    r.classes.erase(l);
                }
                r.check("after removal");
                break;
        }
    }
    r.m->reset();
    r.filter();
}
const int SOME[] = {0, 3, 5, 8, 2, 4, 6, 1};
}  // namespace

VX_SCENARIO_SPLIT(kinds_of_failure, 3) {
    Kind k = kinds()[vx::pick(kinds().size())];
    with_kind(k, [&](auto* t) {
        std::vector<int> all;
        for (int i = 0; i < NDATA; i++) all.push_back(i);
        bool small = vx::pick(2);
        failing<typename std::remove_pointer<decltype(t)>::type>(k, 1, small, all, 1);
    });
}
VX_SCENARIO_SPLIT(among_others, 4) {
    Kind k = kinds()[SOME[vx::pick(vx::tier(3, 8))]];
    with_kind(k, [&](auto* t) {
        std::vector<int> some = {GOOD0, EMPTY, NOTANUMBER, INFINITE, ONEFRAME, PARTLY};
        if (vx::thorough()) some = {GOOD0, GOOD1, EMPTY, NOTANUMBER, INFINITE, ONEFRAME, CONSTANT, PARTLY, HUGE_VALUES};
        failing<typename std::remove_pointer<decltype(t)>::type>(k, 3, false, some, 1);
    });
}
// five classes, any of which may fail
VX_SCENARIO_SPLIT(many_classes, 4) {
    Kind k = kinds()[SOME[vx::pick(8)]];
    with_kind(k, [&](auto* t) {
        failing<typename std::remove_pointer<decltype(t)>::type>(k, 5, false, vx::thorough() ? std::vector<int>{GOOD1, EMPTY, NOTANUMBER} : std::vector<int>{GOOD1, EMPTY}, 0);
    });
}
// a class with a phrase of other dimensions or modalities
VX_SCENARIO_SPLIT(foreign_phrases, 3) {
    Kind k = kinds()[vx::pick(kinds().size())];
    WAY = vx::pick(3);
    with_kind(k, [&](auto* t) {
        failing<typename std::remove_pointer<decltype(t)>::type>(k, 2, false, {GOOD1, WIDER, NARROWER, OTHERSPLIT, OTHERMODALITY, LONGSPLIT}, 0);
    });
}
VX_SCENARIO_SPLIT(follow_ups, 4) {
    Kind k = kinds()[SOME[vx::pick(vx::tier(4, 8))]];
    with_kind(k, [&](auto* t) {
        failing<typename std::remove_pointer<decltype(t)>::type>(k, 2, false, {GOOD1, EMPTY, NOTANUMBER}, vx::tier(3, 4));
    });
}
// training calls that are refused or that fail for every class
VX_SCENARIO_SPLIT(refused, 3) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int mode = vx::pick(3);
    bool trained = vx::pick(2), one = vx::pick(2);
    with_kind(k, [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        Run<M> r;
        r.k = k;
        r.sh = shape(k);
        r.mode = mode;
        r.m.reset(new M(r.sh.bi));
        r.config(*r.m);
        r.m->configuration.multithreading = (xmm::MultithreadingMode)mode;
        r.m->training_events.addListener(&r.log, &Log::on);
        vx::note("%s, mode %d, %s, %s", name(k).c_str(), mode, trained ? "trained" : "not trained", one ? "one class" : "whole set");
        if (trained) r.train({{"a", GOOD0}, {"b", GOOD1}});
        Snap before = params(*r.m), conf = configuration(*r.m, {"a", "b"});
        Shape o = r.sh;
        if (r.sh.bi) {
            o.bi = false, o.din = 0;
            auto s = r.set({{"a", GOOD1}, {"c", GOOD0}}, o);
            VX_CHECK(vx::throws([&] {
                         if (one)
                             r.m->train(s->ts.get(), "a");
                         else
                             r.m->train(s->ts.get());
                     }),
                     "training a bimodal model with a unimodal set is accepted");
            vx::step();
            VX_CHECK(r.log.e.empty(), "a refused training emits events");
            equal(params(*r.m), before, "after a refused training");
            equal(configuration(*r.m, {"a", "b"}), conf, "configuration after a refused training");
            r.check("after a refused training");
        } else if (!one) {
            o.bi = true, o.din = 1;
            auto s = r.set({{"a", GOOD1}, {"c", GOOD0}}, o);
            r.m->train(s->ts.get());
            wait_trained(*r.m);
            r.m->cancelTraining();
            vx::step();
            auto out = r.outcomes({{"a", 0}, {"c", 0}});
            for (auto& x : out) VX_CHECK(x.second == xmm::TrainingEvent::Error, "class %s ends with event %d", x.first.c_str(), x.second);
            r.classes.clear();
            r.check("after a training that fails for all classes");
        }
        r.train({{"b", GOOD1}, {"d", GOOD0}});
        r.filter();
    });
}
