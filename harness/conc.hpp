// Shared by the schedule-exploring harnesses: tiny models and training sets, the
// event recorder and the protocol that every training run has to follow.
#pragma once
#include "rt.hpp"
#include <unistd.h>
#include "model_snap.hpp"

namespace vx {  // what the reference headers use
bool thorough() { return rt::thorough(); }
int pick(int n) { return rt::choose(n); }
bool verbose() { return rt::verbose(); }
void step(unsigned) {}
bool state(uint64_t) { return true; }
void note(const char* fmt, ...) {
    char b[500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    rt::note("%s", b);
}
void fail(const char* fmt, ...) {
    char b[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    rt::fail("%s", b);
}
}  // namespace vx

namespace cc {
using ref::Frames;
using ref::Shape;
typedef xmm::TrainingEvent::Status St;

struct Conf {
    bool hmm, hier, bi;
    int iterations;
};
inline Conf gmm_conf(int it = 1) { return Conf{false, false, false, it}; }
inline Conf hmm_conf(bool hier, int it = 1) { return Conf{true, hier, false, it}; }

inline void params(xmm::GMM& m, Conf const&) {
    m.configuration.gaussians.set(1);
    m.configuration.covariance_mode.set(ref::covmode(true));
}
inline void params(xmm::HierarchicalHMM& m, Conf const& c) {
    m.configuration.states.set(2);
    m.configuration.gaussians.set(1);
    m.configuration.covariance_mode.set(ref::covmode(true));
    m.configuration.hierarchical.set(c.hier);
}
template <class M>
M* make(Conf const& c, xmm::MultithreadingMode mode) {
    M* m = new M(c.bi);
    params(*m, c);
    m->shared_parameters->em_algorithm_min_iterations.set(1);
    m->shared_parameters->em_algorithm_max_iterations.set(c.iterations);
    m->configuration.multithreading = mode;
    return m;
}
inline Frames data(Conf const& c, int k) {
    Frames f;
    for (int t = 0; t < 3; t++) {
        std::vector<float> x;
        x.push_back(0.5f * t + (k == 1 ? 2 : k == 2 ? -1 : 0) + (t == 1 ? 0.25f : 0));
        if (c.bi) x.push_back(1.f - 0.75f * t + k);
        f.push_back(x);
    }
    return f;
}
// kinds: per class, 'g' trains well, 'e' has no frame, 'n' has a frame that is not a number
inline ref::Set* make_set(Conf const& c, std::string const& kinds, int variant = 0) {
    ref::Set* s = new ref::Set(c.bi, c.bi ? 2 : 1, c.bi ? 1 : 0);
    for (size_t k = 0; k < kinds.size(); k++) {
        std::string l(1, (char)('a' + k));
        Frames f = kinds[k] == 'e' ? Frames() : data(c, (int)k);
        if (variant)
            for (auto& x : f) x[0] = x[0] * 1.5f + 0.125f;
        if (kinds[k] == 'n') f[1][0] = NAN;
        s->add(l, f);
    }
    return s;
}
struct Ev {
    std::string label;
    int status, iter;
    double progression;
    int thread;
    bool training;
};
inline const char* name(int s) {
    return s == (int)St::Run ? "run" : s == (int)St::Error ? "error" : s == (int)St::Cancel ? "cancel" : s == (int)St::Done ? "done"
           : s == (int)St::Alldone ? "alldone" : "?";
}
template <class M>
struct Rec {
    M* m;
    std::vector<Ev> ev;
    std::function<void(Ev const&)> hook;  // called after recording
    bool dead = false;
    std::atomic<int> completed{0};  // completion events whose delivery is over
    explicit Rec(M* model) : m(model) { listen(); }
    void listen() { m->training_events.addListener(this, &Rec::on); }
    void on(xmm::TrainingEvent& e) {
        if (dead) rt::fail("an event is delivered after the model was destroyed");
        // monitored reads of the event
        volatile size_t n = strlen(e.label.c_str());
        (void)n;
        Ev v;
        {
            rt::Ignore ig;
            v = Ev{e.label, (int)e.status, (int)e.iterations, e.progression, rt::self(), false};
        }
        if (e.model != (void*)m && e.status == St::Alldone) rt::fail("the completion event does not name its model");
        v.training = m->training();
        {
            rt::Ignore ig;
            ev.push_back(v);
            rt::note("[%d] EVENT %s '%s' iteration %d training %d", v.thread, name(v.status), v.label.c_str(), v.iter, v.training);
        }
        if (hook) hook(v);
        if (v.status == (int)St::Alldone) ++completed;
    }
    size_t count() {
        rt::Ignore ig;
        return ev.size();
    }
    bool has(St s) {
        rt::Ignore ig;
        for (auto& e : ev)
            if (e.status == (int)s) return true;
        return false;
    }
};
struct RunResult {
    std::map<std::string, St> term;
    size_t end;
};
// the events [from, end) of one run obey the protocol; returns the terminal status of each class
template <class M>
RunResult protocol(Rec<M>& r, size_t from, std::set<std::string> const& classes, bool last_run = true) {
    rt::Ignore ig;
    RunResult out;
    std::map<std::string, int> iter;
    size_t i = from;
    for (; i < r.ev.size(); i++) {
        Ev const& e = r.ev[i];
        if (e.status == (int)St::Alldone) break;
        RT_CHECK(classes.count(e.label), "event %s for class '%s', which does not train in this run", name(e.status), e.label.c_str());
        RT_CHECK(!out.term.count(e.label), "event %s of class '%s' after its terminal event", name(e.status), e.label.c_str());
        RT_CHECK(e.training, "the model does not report that it is training when class '%s' sends %s", e.label.c_str(), name(e.status));
        if (e.status == (int)St::Run) {
            RT_CHECK(e.iter == iter[e.label] + 1, "progress of class '%s': iteration %d follows %d", e.label.c_str(), e.iter, iter[e.label]);
            iter[e.label] = e.iter;
        } else {
            RT_CHECK(e.status == (int)St::Done || e.status == (int)St::Error || e.status == (int)St::Cancel, "status %d", e.status);
            out.term[e.label] = (St)e.status;
        }
    }
    RT_CHECK(i < r.ev.size(), "the training run ended without completion event");
    for (auto& c : classes) RT_CHECK(out.term.count(c), "the completion event comes before the terminal event of class '%s'", c.c_str());
    RT_CHECK(!r.ev[i].training, "the model reports that it is training when the completion event is delivered");
    RT_CHECK(r.ev[i].label.empty(), "the completion event names class '%s'", r.ev[i].label.c_str());
    out.end = i + 1;
    if (last_run) RT_CHECK(out.end == r.ev.size(), "event %s '%s' after the completion event", name(r.ev[out.end].status), r.ev[out.end].label.c_str());
    return out;
}
template <class M>
void poll(M* m) {
    while (m->training()) usleep(1000);
}
// waits until the run is over and its completion event is delivered
template <class M>
void wait_done(M* m, Rec<M>& r, int runs = 1) {
    poll(m);
    while (r.completed < runs) usleep(1000);
}
template <class M>
ref::Snap reference(Conf const& c, ref::Set* s) {
    std::unique_ptr<M> m(make<M>(c, xmm::MultithreadingMode::Sequential));
    m->train(&*s);
    rt::Ignore ig;
    return ref::params(*m);
}
// parameters of one class, in the same order as in ref::params
template <class M>
ref::Snap class_snap(M& m, std::string const& l) {
    ref::Snap s;
    auto it = m.models.find(l);
    if (it != m.models.end()) ref::param_class(s, ref::Name(l), it->second);
    return s;
}
inline void same(ref::Snap const& a, ref::Snap const& b, const char* what) {
    rt::Ignore ig;
    ref::equal(a, b, what);
}
// a model that is not training can do everything; the classes are those expected
template <class M>
void usable(M* m, Conf const& c, std::set<std::string> const& classes, const char* when) {
    RT_CHECK(!m->training(), "%s: the model reports that it is training", when);
    RT_CHECK(m->size() == classes.size(), "%s: the model has %u classes instead of %zu", when, m->size(), classes.size());
    for (auto& l : classes) RT_CHECK(m->hasClass(l), "%s: class '%s' is missing", when, l.c_str());
    RT_CHECK(m->trained() == !classes.empty(), "%s: trained() is wrong", when);
    if (classes.empty()) return;
    m->reset();
    m->filter(std::vector<float>(1, 0.25f));
    float sum = 0;
    {
        rt::Ignore ig;
        RT_CHECK(m->results.smoothed_normalized_likelihoods.size() == classes.size(), "%s: filtering gives %zu likelihoods for %zu classes", when,
                 m->results.smoothed_normalized_likelihoods.size(), classes.size());
        for (float x : m->results.smoothed_normalized_likelihoods) sum += x;
        RT_CHECK(std::fabs(sum - 1) < 1e-4, "%s: the normalized likelihoods sum to %g", when, sum);
        RT_CHECK(classes.count(m->results.likeliest), "%s: the likeliest class is '%s'", when, m->results.likeliest.c_str());
    }
}
template <class M>
struct Env {  // model, training set and listener, on the heap
    Conf c;
    ref::Set* set;
    M* m;
    Rec<M>* r;
    Env(Conf const& conf, xmm::MultithreadingMode mode, std::string const& kinds) : c(conf) {
        set = make_set(c, kinds);
        m = make<M>(c, mode);
        r = new Rec<M>(m);
    }
    void destroy_model() {
        delete m;
        m = nullptr;
        rt::Ignore ig;
        r->dead = true;
    }
    ~Env() {
        delete m;
        {
            rt::Ignore ig;
            r->dead = true;
        }
        delete r;
        delete set;
    }
};
inline std::set<std::string> labels_of(std::string const& kinds) {
    std::set<std::string> l;
    for (size_t k = 0; k < kinds.size(); k++) l.insert(std::string(1, (char)('a' + k)));
    return l;
}
}  // namespace cc
