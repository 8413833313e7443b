// C22: every public call on a model that trains in background completes
// correctly or is refused, on every schedule, and leaves the training intact.
#include "conc.hpp"
using namespace cc;
typedef xmm::MultithreadingMode Mode;

// the events [from, end) of a history with several (possibly overlapping)
// trainings: "trainings" counts how often each class is trained
struct History {
    std::map<std::string, std::vector<St>> term;  // terminal event of each training
    int runs;
};
template <class M>
History history(Rec<M>& r, size_t from, std::map<std::string, int> const& trainings, int min_runs, int max_runs) {
    rt::Ignore ig;
    History h;
    h.runs = 0;
    std::map<std::string, int> iter;
    std::set<std::string> open;  // classes with progress reports and no terminal event yet
    bool any = false;
    for (size_t i = from; i < r.ev.size(); i++) {
        Ev const& e = r.ev[i];
        if (e.status == (int)St::Alldone) {
            RT_CHECK(open.empty(), "the completion event comes before the terminal event of class '%s'", open.begin()->c_str());
            RT_CHECK(any, "a completion event without any training");
            RT_CHECK(!e.training, "the model reports that it is training when the completion event is delivered");
            h.runs++;
            any = false;
            continue;
        }
        any = true;
        RT_CHECK(trainings.count(e.label), "event %s for class '%s', which does not train", name(e.status), e.label.c_str());
        RT_CHECK((int)h.term[e.label].size() < trainings.at(e.label), "event %s of class '%s' after its last terminal event", name(e.status),
                 e.label.c_str());
        RT_CHECK(e.training, "the model does not report that it is training when class '%s' sends %s", e.label.c_str(), name(e.status));
        if (e.status == (int)St::Run) {
            RT_CHECK(e.iter == iter[e.label] + 1, "progress of class '%s': iteration %d follows %d", e.label.c_str(), e.iter, iter[e.label]);
            iter[e.label] = e.iter;
            open.insert(e.label);
        } else {
            iter[e.label] = 0;
            open.erase(e.label);
            h.term[e.label].push_back((St)e.status);
        }
    }
    RT_CHECK(!any, "the last training ended without completion event");
    for (auto& t : trainings)
        RT_CHECK((int)h.term[t.first].size() == t.second, "class '%s' sent %zu terminal events for %d trainings", t.first.c_str(), h.term[t.first].size(),
                 t.second);
    RT_CHECK(h.runs >= min_runs && h.runs <= max_runs, "%d completion events, %d to %d expected", h.runs, min_runs, max_runs);
    return h;
}
enum Op {
    Size,
    HasClass,
    GetIndex,
    Trained,
    Training,
    ToJson,
    Copy,
    AssignFrom,
    AssignTo,
    Filter,
    Reset,
    FromJson,
    Train,
    TrainOne,
    TrainNew,
    ExitPoint,
    SelfAssign,
    NOPS
};
static const char* const ON[] = {"size", "hasClass", "getIndex", "trained", "training", "toJson", "copy construction", "assignment from it",
                                 "assignment to it", "filter", "reset", "fromJson", "train", "train(class)", "train(new class)", "addExitPoint",
                                 "self assignment"};
inline void exit_point(xmm::GMM*) {}
inline void exit_point(xmm::HierarchicalHMM* m) { m->addExitPoint(0, 0.25f); }
struct Expect {
    std::map<std::string, int> trainings;   // of this history
    std::map<std::string, int> content;     // label -> set variant of the final parameters (-1: from the other model)
    int min_runs, max_runs;
    bool exits_changed;
};
// everything one scenario needs, on the heap
template <class M>
struct World {
    Env<M> e;
    ref::Set* second;                      // another training set
    std::set<std::string> second_labels;
    M* other;                              // another trained model with the classes x and y
    std::vector<ref::Snap> refs;           // per variant: parameters of a foreground run
    M* ref0;
    M* ref1;
    World(Conf const& c, std::string const& kinds, std::string const& kinds2) : e(c, Mode::Background, kinds) {
        second = make_set(c, kinds2, 1);
        second_labels = labels_of(kinds2);
        other = nullptr;
        ref0 = make<M>(c, Mode::Sequential);
        ref1 = make<M>(c, Mode::Sequential);
        rt::Ignore ig;
        ref0->train(&*e.set);
        ref1->train(&*second);
    }
    void need_other() {
        Conf c = e.c;
        rt::Ignore ig;
        other = make<M>(c, Mode::Sequential);
        ref::Set* s = new ref::Set(c.bi, c.bi ? 2 : 1, c.bi ? 1 : 0);
        s->add("x", data(c, 2));
        s->add("y", data(c, 0));
        other->train(&*s);
        delete s;
    }
    ~World() {
        delete second;
        delete other;
        delete ref0;
        delete ref1;
    }
};
// a model that says it is ready can be used: only the caller starts runs
template <class M>
void ready(M* m, const char* says) {
    RT_CHECK(!m->training(), "the model says that it is %s and then that it is training", says);
    bool refused = false;
    try {
        m->filter(std::vector<float>(1, 0.25f));
    } catch (std::exception const& e) {
        refused = true;
    }
    RT_CHECK(!refused, "the model says that it is %s but filtering is refused", says);
}
// the result of an operation that was accepted
template <class M>
void apply(World<M>* w, Op op, Expect& x, std::set<std::string> const& good, std::set<std::string> const& all, std::function<void(bool)>& later) {
    M* m = w->e.m;
    Conf c = w->e.c;
    switch (op) {
        case Size: {
            unsigned n = m->size();
            RT_CHECK(n == good.size() || (n >= good.size() && n <= all.size()), "size() is %u", n);
            break;
        }
        case HasClass: {
            bool a = m->hasClass("a"), z = m->hasClass("z");
            RT_CHECK(!z && a == (good.count("a") > 0), "hasClass() is wrong");
            break;
        }
        case GetIndex: {
            int i = m->getIndex("b"), e = -1, k = 0;
            for (auto& l : good) {
                if (l == "b") e = k;
                k++;
            }
            RT_CHECK(i == e, "getIndex() is %d instead of %d", i, e);
            break;
        }
        case Trained: {
            if (m->trained()) ready(m, "trained");
            break;
        }
        case Training: {
            if (!m->training() && !good.empty()) ready(m, "not training");
            break;
        }
        case ToJson: {
            Json::Value* v = new Json::Value(m->toJson());
            later = [v, m](bool) {
                RT_CHECK(*v == m->toJson(), "the JSON document differs from the one written after training");
                delete v;
            };
            break;
        }
        case Copy:
        case AssignFrom: {
            M* n;
            if (op == Copy)
                n = new M(*m);
            else {
                w->need_other();
                n = w->other;
                *n = *m;
            }
            later = [n, m, op, good](bool) {
                RT_CHECK(!n->training() && n->size() == good.size(), "the copy is training, or has %u classes", n->size());
                same(ref::params(*n), ref::params(*m), "copy during training");
                if (good.size()) n->filter(std::vector<float>(1, 0.25f));
                if (op == Copy) delete n;
            };
            break;
        }
        case AssignTo:
        case FromJson: {
            w->need_other();
            if (op == AssignTo) {
                *m = *w->other;
                w->e.r->listen();
                m->configuration.multithreading = Mode::Background;
            } else
                m->fromJson(w->other->toJson());
            x.content.clear();
            x.content["x"] = x.content["y"] = -1;
            break;
        }
        case SelfAssign: *m = *m; break;
        case Filter: m->filter(std::vector<float>(1, 0.25f)); break;
        case Reset: m->reset(); break;
        case Train:
            m->train(&*w->second);
            x.content.clear();
            for (auto& l : w->second_labels) {
                x.trainings[l]++;
                x.content[l] = 1;
            }
            x.max_runs++;
            x.min_runs++;
            break;
        case TrainOne:
            m->train(&*w->second, "a");
            x.trainings["a"]++;
            x.content["a"] = 1;
            x.max_runs++;
            break;
        case TrainNew:
            m->train(&*w->second, "c");
            x.trainings["c"]++;
            x.content["c"] = 1;
            x.max_runs++;
            break;
        case ExitPoint:
            exit_point(m);
            x.exits_changed = true;
            break;
        default: break;
    }
}
template <class M>
bool try_apply(World<M>* w, Op op, Expect& x, std::set<std::string> const& good, std::set<std::string> const& all, std::function<void(bool)>& later) {
    bool refused = false;
    Expect before = x;
    try {
        apply(w, op, x, good, all, later);
    } catch (std::exception const& e) {
        refused = true;
    }
    if (refused) x = before;
    rt::note("[%d] %s %s", rt::self(), ON[op], refused ? "refused" : "accepted");
    return !refused;
}
// pre: the classes are already trained when one of them is trained again
template <class M>
void world(Conf c, std::string const& kinds, std::vector<Op> const& ops, bool yield, bool pre) {
    std::string text;
    for (Op o : ops) text += std::string(ON[o]) + " ";
    rt::note("%s, classes %s%s, then %s%s", c.hmm ? "HMM" : "GMM", kinds.c_str(), pre ? " (trained, b trains again)" : "", yield ? "(pause) " : "",
             text.c_str());
    World<M>* w = new World<M>(c, kinds, kinds + (ops[0] == TrainNew || ops.back() == TrainNew ? std::string("ggg").substr(kinds.size()) : ""));
    M* m = w->e.m;
    Expect x;
    x.exits_changed = false;
    x.min_runs = x.max_runs = 1;
    std::set<std::string> all = labels_of(kinds), good;
    for (size_t k = 0; k < kinds.size(); k++)
        if (kinds[k] == 'g') good.insert(std::string(1, (char)('a' + k)));
    if (pre) {
        m->configuration.multithreading = Mode::Sequential;
        m->train(&*w->e.set);
        m->configuration.multithreading = Mode::Background;
    }
    size_t from = w->e.r->count();
    int before = pre ? 1 : 0;
    if (pre) {
        m->train(&*w->e.set, "b");
        x.trainings["b"] = 1;
    } else {
        m->train(&*w->e.set);
        for (auto& l : all) x.trainings[l] = 1;
    }
    for (auto& l : good) x.content[l] = 0;
    std::vector<std::function<void(bool)>> later(ops.size());
    std::string acc;
    for (size_t k = 0; k < ops.size(); k++) {
        if (yield) usleep(1);
        acc += try_apply(w, ops[k], x, good, all, later[k]) ? '+' : '-';
        if (x.content.size() != good.size() || (!x.content.empty() && !good.count(x.content.begin()->first))) {
            good.clear();
            for (auto& l : x.content) good.insert(l.first);
        }
    }
    rt::outcome(acc);
    // always ends
    poll(m);
    while (w->e.r->completed < before + x.min_runs) usleep(1000);
    m->cancelTraining();  // nothing to cancel: waits for the last completion event
    History h = history(*w->e.r, from, x.trainings, x.min_runs, x.max_runs);
    std::set<std::string> now;
    for (auto& l : x.content) now.insert(l.first);
    {
        rt::Ignore ig;
        for (auto& t : h.term)
            for (size_t i = 0; i < t.second.size(); i++) {
                bool last = i + 1 == t.second.size();
                bool bad = t.first[0] - 'a' < (int)kinds.size() && kinds[t.first[0] - 'a'] != 'g';
                RT_CHECK(bad ? t.second[i] != St::Done : t.second[i] != St::Error, "training %zu of class '%s' ends with %s", i, t.first.c_str(),
                         name((int)t.second[i]));
                RT_CHECK(t.second[i] != St::Cancel || !last || !x.content.count(t.first), "the last training of class '%s' is cancelled", t.first.c_str());
            }
        for (auto it = now.begin(); it != now.end();) {
            size_t k = (*it)[0] - 'a';
            if (k < kinds.size() && kinds[k] != 'g')
                it = now.erase(it);
            else
                ++it;
        }
    }
    // what was accepted is right
    for (auto& l : later)
        if (l && ops.size() == 1) l(true);
    usable(m, c, now, "after training");
    if (!x.exits_changed) {
        rt::Ignore ig;
        for (auto& l : now) {
            M* f = x.content[l] == 0 ? w->ref0 : x.content[l] == 1 ? w->ref1 : w->other;
            same(class_snap(*m, l), class_snap(*f, l), "class after training");
        }
    }
    // and everything works again
    m->configuration.multithreading = Mode::Sequential;
    {
        rt::Ignore ig;
        w->e.r->hook = nullptr;
    }
    if (rt::thorough()) {
        m->train(&*w->e.set);
        usable(m, c, kinds == "gg" || kinds == "g" ? all : std::set<std::string>{"a"}, "after another run");
    }
    delete w;
}
static const char* const K[] = {"g", "gg", "ge"};
template <class M>
void single(Conf c, Op first, Op last, std::vector<std::string> const& kinds) {
    Op op = (Op)(first + rt::choose(last - first + 1));
    std::string k = kinds[rt::choose((int)kinds.size())];
    bool y = rt::choose(2);
    world<M>(c, k, {op}, y, false);
}
template <class M>
void again(Conf c) {
    static const Op O[] = {ToJson, AssignTo, Train, TrainOne, TrainNew, ExitPoint, Copy, Filter, Size, HasClass, Reset};
    Op op = O[rt::choose(rt::tier(c.hmm ? 6 : 5, 11))];
    bool y = rt::choose(2);
    world<M>(c, "gg", {op}, y, true);
}
template <class M>
void pairs(Conf c) {
    static const Op O[] = {Train, TrainOne, AssignTo, TrainNew, Copy, ToJson, Filter, Reset, Size};
    int n = rt::tier(3, 9);
    Op a = O[rt::choose(n)], b = O[rt::choose(n)];
    bool y = !rt::choose(rt::tier(1, 2));
    world<M>(c, K[rt::choose(rt::tier(1, 2))], {a, b}, y, false);
}
// operations from the listener of the completion event
template <class M>
void listener(Conf c, Mode mode) {
    enum { LFilter, LJson, LCopy, LReset, LRemove, LClear, LCancel, LTrainOne, LAssign, LN };
    static const char* const LNAME[] = {"filter", "toJson", "copy", "reset", "removeClass", "clear", "cancelTraining", "train(class)", "assignment to it"};
    int op = rt::choose(LN);
    std::string kinds = K[rt::choose(rt::tier(c.hmm ? 2 : 1, 3))];
    rt::note("%s, classes %s, %s from the completion event", c.hmm ? "HMM" : "GMM", kinds.c_str(), LNAME[op]);
    World<M>* w = new World<M>(c, kinds, kinds);
    M* m = w->e.m;
    m->configuration.multithreading = mode;
    if (op == LAssign) w->need_other();
    int* n = new int(0);
    w->e.r->hook = [=](Ev const& v) {
        if (v.status != (int)St::Alldone) return;
        {
            rt::Ignore ig;
            if ((*n)++) return;
        }
        switch (op) {
            case LFilter: m->filter(std::vector<float>(1, 0.25f)); break;
            case LJson: RT_CHECK(m->toJson()["models"].size() == m->size(), "JSON document in the completion event"); break;
            case LCopy: {
                M* k = new M(*m);
                RT_CHECK(k->size() == m->size() && !k->training(), "copy in the completion event");
                delete k;
                break;
            }
            case LReset: m->reset(); break;
            case LRemove: m->removeClass("a"); break;
            case LClear: m->clear(); break;
            case LCancel: m->cancelTraining(); break;
            case LTrainOne: m->train(&*w->second, "a"); break;
            case LAssign: *m = *w->other; break;
        }
    };
    m->train(&*w->e.set);
    int runs = op == LTrainOne ? 2 : 1;
    while (w->e.r->completed < runs) usleep(1000);
    m->cancelTraining();
    std::map<std::string, int> tr;
    for (auto& l : labels_of(kinds)) tr[l] = 1;
    if (op == LTrainOne) tr["a"]++;
    history(*w->e.r, 0, tr, runs, runs);
    std::set<std::string> now = kinds == "gg" ? labels_of("gg") : labels_of("g");
    std::map<std::string, M*> src;
    for (auto& l : now) src[l] = w->ref0;
    if (op == LRemove) now.erase("a");
    if (op == LClear) now.clear();
    if (op == LTrainOne) src["a"] = w->ref1;
    if (op == LAssign) {
        now = {"x", "y"};
        src["x"] = src["y"] = w->other;
    }
    usable(m, c, now, "after training");
    {
        rt::Ignore ig;
        for (auto& l : now) same(class_snap(*m, l), class_snap(*src[l], l), "class after training");
    }
    delete w;
    delete n;
}
// two models share a training set and train at the same time; copies are independent
template <class M>
void two_models(Conf c) {
    bool copy = rt::choose(2);
    rt::note("%s, two models train at the same time%s", c.hmm ? "HMM" : "GMM", copy ? ", the second is a copy of the first" : "");
    std::string kinds = K[rt::choose(rt::tier(1, 2))];
    Env<M>* e = new Env<M>(c, Mode::Background, kinds);
    M* m2;
    if (copy) {
        e->m->configuration.multithreading = Mode::Sequential;
        e->m->train(&*e->set);
        e->m->configuration.multithreading = Mode::Background;
        m2 = new M(*e->m);
        m2->training_events.removeListeners();
    } else
        m2 = make<M>(c, Mode::Background);
    Rec<M>* r2 = new Rec<M>(m2);
    int runs = copy ? 1 : 0;
    if (copy) {
        e->m->train(&*e->set, "a");
        m2->train(&*e->set, "a");
    } else {
        e->m->train(&*e->set);
        m2->train(&*e->set);
    }
    wait_done(e->m, *e->r, runs + 1);
    wait_done(m2, *r2, 1);
    std::set<std::string> t = copy ? labels_of("g") : labels_of(kinds);
    protocol(*r2, 0, t);
    usable(e->m, c, labels_of(kinds), "first model");
    usable(m2, c, labels_of(kinds), "second model");
    {
        rt::Ignore ig;
        for (auto& l : labels_of(kinds)) same(class_snap(*m2, l), class_snap(*e->m, l), "models trained at the same time");
    }
    delete m2;
    r2->dead = true;
    delete e;
    delete r2;
}
typedef xmm::GMM G;
typedef xmm::HierarchicalHMM H;
// one class, at a higher bound; and two classes
RT_SCENARIO(gmm_queries, 1, 2) { single<G>(gmm_conf(), Size, Copy, {"g", "gg"}); }
RT_SCENARIO(gmm_changes, 1, 2) { single<G>(gmm_conf(), AssignFrom, FromJson, {"g", "gg"}); }
RT_SCENARIO(gmm_restart, 1, 2) { single<G>(gmm_conf(), Train, TrainNew, {"g"}); }
RT_SCENARIO(gmm_restart_two, 0, 1) { single<G>(gmm_conf(), Train, TrainNew, {"gg", "ge"}); }
RT_SCENARIO(hmm_queries, 1, 2) { single<H>(hmm_conf(true), Size, Copy, {"g"}); }
RT_SCENARIO(hmm_changes, 1, 2) { single<H>(hmm_conf(true), AssignFrom, FromJson, {"g"}); }
RT_SCENARIO(hmm_restart, 1, 2) { single<H>(hmm_conf(true), Train, ExitPoint, {"g"}); }
RT_SCENARIO(hmm_two, 0, 1) { single<H>(hmm_conf(true), ToJson, ExitPoint, {"gg"}); }
RT_SCENARIO(gmm_again, 1, 2) { again<G>(gmm_conf()); }
RT_SCENARIO(hmm_again, 0, 1) { again<H>(hmm_conf(true)); }
RT_SCENARIO(gmm_listener, 1, 2) { listener<G>(gmm_conf(), Mode::Background); }
RT_SCENARIO(hmm_listener, 0, 1) { listener<H>(hmm_conf(true), Mode::Background); }
RT_SCENARIO(gmm_two_models, 0, 1) { two_models<G>(gmm_conf()); }
RT_SCENARIO(hmm_two_models, 0, 1) { two_models<H>(hmm_conf(true)); }
RT_SCENARIO(gmm_pairs, 0, 1) { pairs<G>(gmm_conf()); }
RT_SCENARIO(hmm_pairs, 0, 1) { pairs<H>(hmm_conf(true)); }
