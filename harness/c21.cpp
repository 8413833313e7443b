// C21: training events obey one protocol per run, on every schedule.
#include "conc.hpp"
using namespace cc;
typedef xmm::MultithreadingMode Mode;
static const Mode MODES[] = {Mode::Sequential, Mode::Parallel, Mode::Background};
static const char* const MN[] = {"sequential", "parallel", "background"};

// what the classes of a finished run must be
template <class M>
std::set<std::string> outcome_of(RunResult const& rr, std::string const& kinds, bool cancelled) {
    rt::Ignore ig;
    std::set<std::string> good;
    std::string s;
    for (size_t k = 0; k < kinds.size(); k++) {
        std::string l(1, (char)('a' + k));
        St t = rr.term.at(l);
        s += name((int)t);
        s += ' ';
        if (!cancelled) RT_CHECK(t == (kinds[k] == 'g' ? St::Done : St::Error), "class '%s' ends with %s", l.c_str(), name((int)t));
        if (kinds[k] != 'g') RT_CHECK(t != St::Done, "class '%s' cannot be trained but ends with done", l.c_str());
        if (kinds[k] == 'g') RT_CHECK(t != St::Error, "class '%s' ends with an error", l.c_str());
        if (t == St::Done) good.insert(l);
    }
    rt::outcome(s);
    return good;
}
// the classes that were trained equal those of a foreground run
template <class M>
void compare(M* m, Conf const& c, ref::Set* set, std::set<std::string> const& good) {
    std::unique_ptr<M> f(make<M>(c, Mode::Sequential));
    rt::Ignore ig;
    f->train(&*set);
    for (auto& l : good) same(class_snap(*m, l), class_snap(*f, l), "class after training");
}
static std::string describe(Conf const& c) { return c.hmm ? c.hier ? "hierarchical HMM" : "HMM" : "GMM"; }

// when the completion event is delivered the model is ready for filtering
template <class M>
void check_ready(M* m) {
    RT_CHECK(!m->training(), "the model is still training in its completion event");
    if (m->size() == 0) return;
    m->filter(std::vector<float>(1, 0.5f));
    rt::Ignore ig;
    RT_CHECK(m->results.smoothed_normalized_likelihoods.size() == m->models.size(), "the model is not ready in the completion event");
    for (auto const& c : m->models)
        RT_CHECK(!c.second.isTraining() && c.second.training_status.status == St::Done, "class '%s' is not in its final state in the completion event",
                 c.first.c_str());
}
enum Cancel { NoCancel, FromMain, FromThread };
template <class M>
void run(Conf c, std::vector<std::string> const& kinds, int mode, int cancel) {
    rt::note("%s, %s, classes %s, %zu runs, cancel %d", describe(c).c_str(), MN[mode], kinds[0].c_str(), kinds.size(), cancel);
    Env<M>* e = new Env<M>(c, MODES[mode], kinds[0]);
    M* m = e->m;
    e->r->hook = [m](Ev const& v) {
        if (v.status == (int)St::Alldone) check_ready(m);
    };
    size_t from = 0;
    for (size_t k = 0; k < kinds.size(); k++) {
        if (k) {
            delete e->set;
            e->set = make_set(c, kinds[k]);
        }
        std::thread* other = nullptr;
        bool had = m->size() > 0;
        if (cancel == FromThread) other = new std::thread([m]() { m->cancelTraining(); });
        m->train(&*e->set);
        if (mode == 2 && cancel == FromMain) {
            usleep(1);
            m->cancelTraining();
        }
        if (mode == 2)
            wait_done(m, *e->r, (int)k + 1);
        else
            RT_CHECK(!m->training(), "training() after a foreground run");
        if (other) {
            other->join();
            delete other;
        }
        (void)had;
        RunResult rr = protocol(*e->r, from, labels_of(kinds[k]), true);
        from = rr.end;
        std::set<std::string> good = outcome_of<M>(rr, kinds[k], cancel != 0);
        usable(m, c, good, "after the run");
        compare(m, c, e->set, good);
    }
    delete e;
}
// one class of a trained model is trained again
template <class M>
void run_one(Conf c, int mode, char again) {
    rt::note("%s, %s, class b trained again (%c)", describe(c).c_str(), MN[mode], again);
    Env<M>* e = new Env<M>(c, Mode::Sequential, "gg");
    M* m = e->m;
    m->train(&*e->set);
    size_t from = e->r->count();
    e->r->hook = [m](Ev const& v) {
        if (v.status == (int)St::Alldone) check_ready(m);
    };
    m->configuration.multithreading = MODES[mode];
    std::string k = std::string("g") + again;
    delete e->set;
    e->set = make_set(c, k);
    m->train(&*e->set, "b");
    if (mode == 2)
        wait_done(m, *e->r, 2);
    else
        RT_CHECK(!m->training(), "training() after a foreground run");
    RunResult rr = protocol(*e->r, from, {"b"}, true);
    std::set<std::string> good = {"a"};
    if (again == 'g') good.insert("b");
    RT_CHECK(rr.term["b"] == (again == 'g' ? St::Done : St::Error), "class 'b' ends with %s", name((int)rr.term["b"]));
    usable(m, c, good, "after the run");
    compare(m, c, e->set, good);
    delete e;
}
// the listener of the completion event starts the next run
template <class M>
void chained(Conf c, int mode, std::string const& first, std::string const& second) {
    rt::note("%s, %s, classes %s, then %s from the completion event", describe(c).c_str(), MN[mode], first.c_str(), second.c_str());
    Env<M>* e = new Env<M>(c, MODES[mode], first);
    M* m = e->m;
    ref::Set* next = make_set(c, second);
    int* n = new int(0);
    e->r->hook = [m, next, n](Ev const& v) {
        if (v.status != (int)St::Alldone) return;
        bool start;
        {
            rt::Ignore ig;
            start = (*n)++ == 0;
        }
        if (start)
            m->train(&*next);
        else
            check_ready(m);
    };
    m->train(&*e->set);
    while (e->r->completed < 2) usleep(1000);
    m->cancelTraining();
    RunResult r1 = protocol(*e->r, 0, labels_of(first), false);
    RunResult r2 = protocol(*e->r, r1.end, labels_of(second), true);
    outcome_of<M>(r1, first, false);
    std::set<std::string> good = outcome_of<M>(r2, second, false);
    usable(m, c, good, "after the second run");
    compare(m, c, next, good);
    delete e;
    delete next;
    delete n;
}
static const char* const K[] = {"g", "gg", "ge", "eg", "ng", "e"};
template <class M>
void fixed(Conf c) {
    int mode = rt::choose(3);
    run<M>(c, {K[rt::choose(6)]}, mode, NoCancel);
}
template <class M>
void consecutive(Conf c) {
    static const std::vector<std::string> P[] = {{"gg", "ge"}, {"eg", "gg"}, {"g", "gg"}};
    int mode = 1 + rt::choose(2);
    run<M>(c, P[rt::choose(3)], mode, NoCancel);
}
template <class M>
void cancelled(Conf c) {
    static const char* const KC[] = {"g", "ge", "gg"};
    int how = 1 + rt::choose(2);
    int mode = how == FromMain ? 2 : rt::choose(3);
    run<M>(c, {KC[rt::choose(rt::tier(how == FromMain ? 2 : 1, 3))]}, mode, how);
}
template <class M>
void one(Conf c) {
    int mode = rt::choose(3);
    run_one<M>(c, mode, "ge"[rt::choose(2)]);
}
template <class M>
void chain(Conf c) {
    int mode = rt::choose(3);
    int w = rt::choose(2);
    chained<M>(c, mode, w ? "gg" : "g", w ? "ge" : "gg");
}
typedef xmm::GMM G;
typedef xmm::HierarchicalHMM H;
RT_SCENARIO(gmm_run, 1, 2) { fixed<G>(gmm_conf(2)); }
RT_SCENARIO(hmm_run, 1, 2) { fixed<H>(hmm_conf(rt::choose(rt::tier(1, 2)) == 0, 2)); }
RT_SCENARIO(gmm_one_class, 1, 3) { one<G>(gmm_conf()); }
RT_SCENARIO(hmm_one_class, 1, 2) { one<H>(hmm_conf(true)); }
RT_SCENARIO(gmm_consecutive, 0, 1) { consecutive<G>(gmm_conf()); }
RT_SCENARIO(hmm_consecutive, 0, 1) { consecutive<H>(hmm_conf(true)); }
RT_SCENARIO(gmm_cancelled, 1, 2) { cancelled<G>(gmm_conf(rt::tier(1, 2))); }
RT_SCENARIO(hmm_cancelled, 0, 1) { cancelled<H>(hmm_conf(true)); }
RT_SCENARIO(gmm_chained, 0, 1) { chain<G>(gmm_conf()); }
RT_SCENARIO(hmm_chained, 0, 1) { chain<H>(hmm_conf(true)); }
RT_SCENARIO(gmm_three, 0, 1) { run<G>(gmm_conf(), {rt::choose(2) ? "ggg" : "geg"}, rt::choose(3), NoCancel); }
RT_SCENARIO(hmm_three, 0, 1) { run<H>(hmm_conf(true), {rt::choose(2) ? "ggg" : "geg"}, rt::choose(3), NoCancel); }
