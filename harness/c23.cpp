// C23: cancelling a training, or removing what is being trained, at any point.
#include "conc.hpp"
using namespace cc;
typedef xmm::MultithreadingMode Mode;
enum Op { CancelAll, CancelA, CancelB, CancelNone, RemoveA, RemoveB, Clear, Delete, CancelTwice, NOPS };
static const char* const ON[] = {"cancelTraining()", "cancelTraining(a)", "cancelTraining(b)", "cancelTraining(z)", "removeClass(a)",
                                 "removeClass(b)", "clear", "deletion", "cancelTraining(a) and cancelTraining()"};
template <class M>
bool ended(Rec<M>& r, size_t from, std::string const& l) {
    rt::Ignore ig;
    for (size_t i = from; i < r.ev.size(); i++)
        if (r.ev[i].label == l && r.ev[i].status != (int)St::Run) return true;
    return false;
}
template <class M>
void run(Conf c, std::string const& kinds, Op op, bool yield, bool pre, int follow) {
    rt::note("%s, classes %s%s, then %s%s%s", c.hmm ? "HMM" : "GMM", kinds.c_str(), pre ? " (trained, b trains again)" : "", yield ? "(pause) " : "",
             ON[op], follow == 1 ? ", then a new run" : follow == 2 ? ", then a trains again" : "");
    Env<M>* e = new Env<M>(c, Mode::Background, kinds);
    M* m = e->m;
    std::set<std::string> trains = labels_of(kinds), good;
    for (auto& l : trains)
        if (kinds[l[0] - 'a'] == 'g') good.insert(l);
    int before = 0;
    if (pre) {
        m->configuration.multithreading = Mode::Sequential;
        m->train(&*e->set);
        m->configuration.multithreading = Mode::Background;
        before = 1;
    }
    size_t from = e->r->count();
    if (pre) {
        m->train(&*e->set, "b");
        trains = {"b"};
    } else
        m->train(&*e->set);
    if (yield) usleep(1);
    std::set<std::string> cancelled;
    std::string removed;
    bool refused = false;
    switch (op) {
        case CancelAll:
            m->cancelTraining();
            cancelled = trains;
            break;
        case CancelA:
            m->cancelTraining("a");
            cancelled = {"a"};
            break;
        case CancelB:
            m->cancelTraining("b");
            cancelled = {"b"};
            break;
        case CancelNone: m->cancelTraining("z"); break;
        case RemoveA:
        case RemoveB:
            removed = op == RemoveA ? "a" : "b";
            try {
                m->removeClass(removed);
            } catch (std::exception const&) {
                refused = true;
            }
            if (good.count(removed)) RT_CHECK(!refused, "removing class '%s' is refused", removed.c_str());
            cancelled = {removed};
            break;
        case Clear:
            m->clear();
            RT_CHECK(!m->training(), "the model is training after clear()");
            RT_CHECK(m->size() == 0, "the model has classes after clear()");
            cancelled = trains;
            break;
        case Delete: {
            e->destroy_model();
            RunResult rr = protocol(*e->r, from, trains);
            std::string o;
            for (auto& t : rr.term) o += name((int)t.second);
            rt::outcome(o);
            delete e;
            return;
        }
        case CancelTwice:
            m->cancelTraining("a");
            m->cancelTraining();
            cancelled = trains;
            break;
        default: break;
    }
    if (!refused)
        for (auto& l : cancelled)
            if (trains.count(l)) RT_CHECK(ended(*e->r, from, l), "class '%s' is still running when %s returns", l.c_str(), ON[op]);
    wait_done(m, *e->r, before + 1);
    m->cancelTraining();  // returns when the last event is delivered
    RunResult rr = protocol(*e->r, from, trains);
    std::set<std::string> now;
    {
        rt::Ignore ig;
        std::string o;
        for (auto& l : labels_of(kinds)) {
            if (!trains.count(l)) {
                if (good.count(l)) now.insert(l);
                continue;
            }
            St t = rr.term.at(l);
            o += name((int)t);
            o += ' ';
            if (t == St::Done) now.insert(l);
            if (good.count(l))
                RT_CHECK(t == St::Done || (t == St::Cancel && cancelled.count(l)), "class '%s' ends with %s", l.c_str(), name((int)t));
            else
                RT_CHECK(t == St::Error || (t == St::Cancel && cancelled.count(l)), "class '%s' ends with %s", l.c_str(), name((int)t));
        }
        rt::outcome(o);
    }
    if (!refused) now.erase(removed);
    if (op == Clear) now.clear();
    usable(m, c, now, "afterwards");
    M* f = make<M>(c, Mode::Sequential);
    {
        rt::Ignore ig;
        f->train(&*e->set);
        for (auto& l : now) same(class_snap(*m, l), class_snap(*f, l), "class after training");
    }
    // a new run, after which everything is as in a foreground run
    if (follow) {
        from = e->r->count();
        std::set<std::string> again = labels_of(kinds);
        if (follow == 2) {
            again = {"a"};
            m->train(&*e->set, "a");
        } else
            m->train(&*e->set);
        wait_done(m, *e->r, before + 2);
        m->cancelTraining();
        rr = protocol(*e->r, from, again);
        if (follow == 1)
            now = good;
        else if (good.count("a"))
            now.insert("a");
        {
            rt::Ignore ig;
            for (auto& l : again)
                RT_CHECK(rr.term.at(l) == (good.count(l) ? St::Done : St::Error), "class '%s' of the next run ends with %s", l.c_str(),
                         name((int)rr.term.at(l)));
        }
        usable(m, c, now, "after the next run");
        rt::Ignore ig;
        for (auto& l : now) same(class_snap(*m, l), class_snap(*f, l), "class after the next run");
    }
    delete f;
    delete e;
}
// a class that still has iterations to run stops when it is cancelled: its
// listener holds it in the first iteration until the request has been made
template <class M>
void stops(Conf c, std::string const& kinds) {
    const int N = 5;
    int which = rt::choose((int)kinds.size() + 1);  // the class held in its first iteration, and cancelled; or all of them
    bool all = which == (int)kinds.size();
    std::string l(1, (char)('a' + (all ? 0 : which)));
    int how = all ? 0 : rt::choose(2);
    rt::note("%s, classes %s, %d iterations, %s while '%s' is in its first iteration", c.hmm ? "HMM" : "GMM", kinds.c_str(), N,
             how || !all ? ("cancelTraining(" + l + ")").c_str() : "cancelTraining()", l.c_str());
    if (all) how = 2;
    Env<M>* e = new Env<M>(c, Mode::Background, kinds);
    M* m = e->m;
    m->shared_parameters->em_algorithm_min_iterations.set(N);
    m->shared_parameters->em_algorithm_max_iterations.set(N);
    std::atomic<int>* gate = new std::atomic<int>(0);  // 1: held, 2: released
    e->r->hook = [gate, l](Ev const& v) {
        if (v.label != l || v.status != (int)St::Run || *gate) return;
        *gate = 1;
        while (*gate != 2) usleep(1000);
    };
    if (how == 1) {  // the class alone
        m->train(&*e->set, l);
    } else
        m->train(&*e->set);
    while (!*gate) usleep(1000);
    std::thread* t = new std::thread([m, all, l]() {
        if (all)
            m->cancelTraining();
        else
            m->cancelTraining(l);
    });
    rt::quiesce();  // the request is made
    *gate = 2;
    t->join();
    delete t;
    RT_CHECK(ended(*e->r, 0, l), "class '%s' is still running when it is cancelled", l.c_str());
    wait_done(m, *e->r, 1);
    m->cancelTraining();
    std::set<std::string> trains = how == 1 ? std::set<std::string>{l} : labels_of(kinds), now;
    RunResult rr = protocol(*e->r, 0, trains);
    {
        rt::Ignore ig;
        int n = 0;
        for (auto& v : e->r->ev) n += v.label == l && v.status == (int)St::Run;
        RT_CHECK(n <= 2, "class '%s' runs %d more iterations after it is cancelled", l.c_str(), n - 1);
        RT_CHECK(rr.term.at(l) == St::Cancel, "class '%s', cancelled in its first iteration of %d, ends with %s", l.c_str(), N,
                 name((int)rr.term.at(l)));
        std::string o;
        for (auto& x : rr.term) {
            RT_CHECK(x.first == l || all || x.second == St::Done, "class '%s', which is not cancelled, ends with %s", x.first.c_str(),
                     name((int)x.second));
            if (x.second == St::Done) now.insert(x.first);
            o += name((int)x.second);
        }
        rt::outcome(o);
    }
    usable(m, c, now, "afterwards");
    delete e;
    delete gate;
}
// two threads cancel, or one cancels while the other waits
template <class M>
void two_threads(Conf c) {
    int how = rt::choose(3);
    std::string kinds = rt::choose(rt::tier(1, 2)) ? "gg" : "g";
    rt::note("%s, classes %s, %s", c.hmm ? "HMM" : "GMM", kinds.c_str(),
             how == 0 ? "two threads cancel all" : how == 1 ? "one thread cancels a, the other all" : "one thread cancels, the other polls");
    Env<M>* e = new Env<M>(c, Mode::Background, kinds);
    M* m = e->m;
    m->train(&*e->set);
    std::thread* t = new std::thread([m, how]() {
        if (how == 1)
            m->cancelTraining("a");
        else
            m->cancelTraining();
    });
    if (how == 2)
        poll(m);
    else
        m->cancelTraining();
    t->join();
    delete t;
    wait_done(m, *e->r, 1);
    m->cancelTraining();
    RunResult rr = protocol(*e->r, 0, labels_of(kinds));
    std::set<std::string> now;
    for (auto& x : rr.term) {
        RT_CHECK(x.second == St::Done || x.second == St::Cancel, "class '%s' ends with %s", x.first.c_str(), name((int)x.second));
        if (x.second == St::Done) now.insert(x.first);
    }
    usable(m, c, now, "afterwards");
    delete e;
}
// the model is destroyed by the thread that learns from training() or from the
// completion event that the training is over
template <class M>
void destroy_when_done(Conf c) {
    int how = rt::choose(3);
    std::string kinds = rt::choose(rt::tier(1, 2)) ? "gg" : "g";
    rt::note("%s, classes %s, destroyed as soon as %s", c.hmm ? "HMM" : "GMM", kinds.c_str(),
             how == 0 ? "training() is false" : how == 1 ? "the completion event is recorded" : "a class is done");
    Env<M>* e = new Env<M>(c, Mode::Background, kinds);
    std::atomic<int>* seen = new std::atomic<int>(0);
    e->r->hook = [seen, how](Ev const& v) {
        if (v.status == (int)(how == 1 ? St::Alldone : St::Done)) ++*seen;
    };
    e->m->train(&*e->set);
    if (how == 0)
        poll(e->m);
    else
        while (!*seen) usleep(1000);
    e->destroy_model();
    protocol(*e->r, 0, labels_of(kinds));
    delete e;
    delete seen;
}
template <class M>
void all(Conf c, std::vector<std::string> const& kinds, int nfollow) {
    std::string k = kinds[rt::choose((int)kinds.size())];
    Op op = (Op)rt::choose(NOPS);
    if (k.size() == 1 && (op == CancelB || op == RemoveB)) return;
    bool y = !rt::choose(nfollow == 2 ? 1 : 2);
    int follow = op == Delete ? 0 : rt::choose(nfollow);
    run<M>(c, k, op, y, false, follow);
}
template <class M>
void trained(Conf c) {
    Op op = (Op)rt::choose(NOPS);
    bool y = rt::choose(2);
    int follow = op == Delete ? 0 : rt::choose(rt::tier(1, 3));
    run<M>(c, "gg", op, y, true, follow);
}
typedef xmm::GMM G;
typedef xmm::HierarchicalHMM H;
RT_SCENARIO(gmm_one, 1, 2) { all<G>(gmm_conf(2), {"g", "e"}, 3); }
RT_SCENARIO(gmm_two, 1, 2) { all<G>(gmm_conf(), {"gg"}, rt::tier(1, 3)); }
RT_SCENARIO(gmm_follow, 0, 1) { all<G>(gmm_conf(), {"gg", "ge"}, rt::tier(2, 3)); }
RT_SCENARIO(gmm_trained, 1, 2) { trained<G>(gmm_conf()); }
RT_SCENARIO(gmm_two_threads, 1, 2) { two_threads<G>(gmm_conf()); }
RT_SCENARIO(gmm_stops, 1, 2) { stops<G>(gmm_conf(), "g"); }
RT_SCENARIO(gmm_stops_two, 0, 1) { stops<G>(gmm_conf(), "gg"); }
RT_SCENARIO(gmm_destroy, 1, 2) { destroy_when_done<G>(gmm_conf()); }
RT_SCENARIO(hmm_one, 1, 2) { all<H>(hmm_conf(true), {"g"}, rt::tier(1, 3)); }
RT_SCENARIO(hmm_two, 0, 1) { all<H>(hmm_conf(true), {"gg", "eg"}, rt::tier(1, 3)); }
RT_SCENARIO(hmm_trained, 0, 1) { trained<H>(hmm_conf(true)); }
RT_SCENARIO(hmm_two_threads, 0, 1) { two_threads<H>(hmm_conf(true)); }
RT_SCENARIO(hmm_destroy, 1, 2) { destroy_when_done<H>(hmm_conf(true)); }
RT_SCENARIO(hmm_stops, 0, 1) { stops<H>(hmm_conf(true), "gg"); }
