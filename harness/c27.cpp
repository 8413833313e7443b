// C27: every event reaches every listener exactly once, in any history of
// adding and removing listeners, also by the listeners themselves
#include "model_snap.hpp"

namespace {
struct E {
    int id, depth;
};
typedef xmm::EventGenerator<E> Gen;
const int NL = 3;
enum Script { Quiet, RemoveSelf, RemoveNext, RemoveAll, AddNext, ReAdd, SendAgain, NSCRIPTS };
const char* const SN[] = {"quiet", "removes itself", "removes the next", "removes all", "adds the next", "adds itself again", "sends another event"};
struct World;
struct Listener {
    World* w;
    int k, script;
    void on(E& e);
};
struct World {
    Gen* g;
    Listener l[NL];
    std::set<int> reg;                      // listeners registered now
    std::map<int, std::map<int, int>> got;  // event -> listener -> times
    std::map<int, std::set<int>> sent;      // event -> listeners registered when it was sent
    std::map<int, std::set<int>> doubt;     // event -> removed during its delivery, or added: need not hear it
    std::vector<int> open;                  // events being delivered
    int next = 0;
    void add(int k) {
        g->addListener(&l[k], &Listener::on);
        if (reg.insert(k).second)
            for (int e : open) doubt[e].insert(k);
    }
    void remove(int k) {
        g->removeListener(&l[k], &Listener::on);
        if (reg.erase(k))
            for (int e : open) doubt[e].insert(k);
    }
    void clear() {
        g->removeListeners();
        for (int k : reg)
            for (int e : open) doubt[e].insert(k);
        reg.clear();
    }
    void send(int depth) {
        int id = next++;
        sent[id] = reg;
        open.push_back(id);
        E e{id, depth};
        g->notifyListeners(e);
        open.pop_back();
        for (int k = 0; k < NL; k++) {
            int n = got[id][k];
            if (doubt[id].count(k)) {
                VX_CHECK(n <= 1, "listener %d hears event %d %d times", k, id, n);
            } else
                VX_CHECK(n == (sent[id].count(k) ? 1 : 0), "listener %d (%s) hears event %d %d times", k, sent[id].count(k) ? "registered" : "not registered",
                         id, n);
        }
        VX_CHECK(e.id == id && e.depth == depth, "the event is changed by its delivery");
    }
};
void Listener::on(E& e) {
    vx::note("  listener %d (%s) hears event %d", k, SN[script], e.id);
    VX_CHECK(!w->open.empty() && w->open.back() == e.id, "listener %d hears event %d, which is not being sent", k, e.id);
    VX_CHECK(w->reg.count(k) || (w->doubt[e.id].count(k) && !w->sent[e.id].count(k)), "listener %d hears event %d after it was removed", k, e.id);
    w->got[e.id][k]++;
    switch (script) {
        case RemoveSelf: w->remove(k); break;
        case RemoveNext: w->remove((k + 1) % NL); break;
        case RemoveAll: w->clear(); break;
        case AddNext: w->add((k + 1) % NL); break;
        case ReAdd: w->add(k); break;
        case SendAgain:
            if (e.depth == 0) w->send(1);
            break;
        default: break;
    }
}
}  // namespace

VX_SCENARIO_SPLIT(generator, 3) {
    World* w = new World;
    std::unique_ptr<World> own(w);
    Gen gens[2];
    w->g = &gens[0];
    for (int k = 0; k < NL; k++) {
        int s = vx::pick(NSCRIPTS);
        w->l[k] = Listener{w, k, s};
        vx::note("listener %d %s", k, SN[s]);
    }
    int depth = vx::tier(4, 5);
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(2 * NL + 4);
        vx::step();
        if (op < NL) {
            vx::note("add %d", op);
            w->add(op);
        } else if (op < 2 * NL) {
            vx::note("remove %d", op - NL);
            w->remove(op - NL);
        } else if (op == 2 * NL) {
            vx::note("remove all");
            w->clear();
        } else if (op == 2 * NL + 1) {
            vx::note("send");
            w->send(0);
        } else if (op == 2 * NL + 2) {
            vx::note("assign to another generator, which sends from now on");
            Gen* o = w->g == &gens[0] ? &gens[1] : &gens[0];
            *o = *w->g;
            w->g->removeListeners();
            w->g = o;
        } else {
            vx::note("send through a copy");
            Gen copy(*w->g), *o = w->g;
            w->g = &copy;
            std::set<int> before = w->reg;
            w->send(0);
            w->g = o;
            w->reg = before;
        }
        vx::Hash h;
        for (int k : w->reg) h.add(k);
        h.add(99);
        for (int k = 0; k < NL; k++) h.add(w->l[k].script);
        vx::state(h.h);
    }
    w->send(0);
}

namespace {
struct P : xmm::Phrase {  // a phrase whose event generator is accessible
    using xmm::Phrase::Phrase;
    using xmm::Phrase::events;
    P(xmm::Phrase const& o) : xmm::Phrase(o) {}
    void assign(xmm::Phrase const& o) { xmm::Phrase::operator=(o); }
};
struct Heard {
    std::vector<std::string> labels;
    P* p = nullptr;
    bool once = false;
    void on(xmm::PhraseEvent& e) {
        VX_CHECK(e.phrase == p, "the event names another phrase");
        VX_CHECK(e.type == xmm::PhraseEvent::Type::LabelChanged, "type of the event");
        labels.push_back(e.phrase->label.get());
        if (once) p->events.removeListener(this, &Heard::on);
    }
};
}  // namespace
// a phrase tells its listeners each change of its label, with the label in place, wherever it comes from
VX_SCENARIO_SPLIT(phrase, 3) {
    const char* L[] = {"", "a", "b"};
    bool bi = vx::pick(2);
    auto kind = bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal;
    xmm::Phrase q(xmm::MemoryMode::OwnMemory, kind);
    q.label.set("b");
    std::string label;
    std::unique_ptr<P> pp;
    static const char* const FROM[] = {"fresh", "copied", "read from JSON", "copy of a shared phrase"};
    int from = vx::pick(4);
    vx::note("%s, %s", bi ? "bimodal" : "unimodal", FROM[from]);
    if (from == 0)
        pp.reset(new P(xmm::MemoryMode::OwnMemory, kind));
    else if (from == 1)
        pp.reset(new P(q));
    else if (from == 2)
        pp.reset(new P(q.toJson()));
    else {
        xmm::Phrase sh(xmm::MemoryMode::SharedMemory, kind);
        sh.label.set("b");
        pp.reset(new P(sh));
    }
    P& p = *pp;
    if (from) label = "b";
    bool shared = from == 3;
    Heard h[2];
    bool reg[2] = {true, false};
    for (auto& x : h) x.p = &p;
    h[1].once = vx::pick(2);
    p.events.addListener(&h[0], &Heard::on);
    int depth = vx::tier(5, 6);
    for (int d = 0; d < depth; d++) {
        for (auto& x : h) x.labels.clear();
        int op = vx::pick(10);
        vx::step();
        std::string before = label;
        bool was[2] = {reg[0], reg[1]};
        bool maybe = false;
        switch (op) {
            case 0:
            case 1:
            case 2:
                vx::note("label.set(%s)", L[op]);
                p.label.set(L[op]);
                label = L[op];
                maybe = before == label;
                break;
            case 3:
                vx::note("assign a phrase with label b");
                p.assign(q);
                shared = false;
                label = "b";
                maybe = before == label;
                break;
            case 4: {
                vx::note("fromJson of a phrase with label a");
                q.label.set("a");
                p.fromJson(q.toJson());
                shared = false;
                q.label.set("b");
                label = "a";
                maybe = before == label;
                break;
            }
            case 5: {
                if (shared) throw vx::Prune();
                vx::note("record, clear");
                p.record(std::vector<float>(p.dimension.get(), 1));
                p.clear();
                break;
            }
            case 6: {
                vx::note("dimension");
                p.dimension.set(p.dimension.get() == 2 ? 3 : 2);
                break;
            }
            case 7:
                vx::note("a copy is relabelled");
                {
                    xmm::Phrase c(p);
                    c.label.set(L[1 + d % 2]);
                    c = q;
                }
                break;
            case 8:
                vx::note("second listener");
                p.events.addListener(&h[1], &Heard::on);
                reg[1] = was[1] = true;
                break;
            case 9:
                vx::note("remove first listener");
                p.events.removeListener(&h[0], &Heard::on);
                reg[0] = was[0] = false;
                break;
        }
        for (int k = 0; k < 2; k++) {
            size_t n = before != label && was[k] ? 1 : 0;
            VX_CHECK(h[k].labels.size() == n || (maybe && was[k] && h[k].labels.size() <= 1), "listener %d hears %zu label changes, expected %zu", k,
                     h[k].labels.size(), n);
            for (auto& l : h[k].labels) VX_CHECK(l == label, "the label is '%s' when the event is sent, then '%s'", l.c_str(), label.c_str());
            if (k == 1 && h[1].once && h[1].labels.size()) reg[1] = false;
        }
        vx::state(vx::Hash().adds(label).add(reg[0]).add(reg[1]).add(p.dimension.get()).h);
    }
}

namespace {
struct ModelListener {
    std::vector<std::string> heard;
    std::function<void(xmm::TrainingEvent&)> act;
    void on(xmm::TrainingEvent& e) {
        heard.push_back(e.label + ":" + std::to_string((int)e.status) + ":" + std::to_string(e.iterations));
        if (act) act(e);
    }
};
// listeners added to a model, to its classes, and moved by copies, in foreground runs
template <class M>
void model(ref::Kind const& k) {
    using namespace ref;
    Shape sh = shape(k);
    Set s(sh.bi, sh.dim, sh.din);
    fill(s, labels(2), 5);
    std::unique_ptr<M> m(new M(k.bi));
    configure_all(*m, k);
    m->shared_parameters->em_algorithm_min_iterations.set(2);
    m->shared_parameters->em_algorithm_max_iterations.set(2);
    m->configuration.multithreading = vx::pick(2) ? xmm::MultithreadingMode::Parallel : xmm::MultithreadingMode::Sequential;
    bool seq = m->configuration.multithreading == xmm::MultithreadingMode::Sequential;
    ModelListener a, b;
    m->training_events.addListener(&a, &ModelListener::on);
    int script = vx::pick(4);
    vx::note("%s, %s, listener script %d", name(k).c_str(), seq ? "sequential" : "parallel", script);
    M* mp = m.get();
    int removed_at = -1;
    if (seq && script == 1)  // removes itself at the first event
        a.act = [&](xmm::TrainingEvent&) {
            removed_at = (int)a.heard.size();
            mp->training_events.removeListener(&a, &ModelListener::on);
        };
    if (seq && script == 2)  // adds another at the first event
        a.act = [&](xmm::TrainingEvent&) { mp->training_events.addListener(&b, &ModelListener::on); };
    if (script == 3) m->training_events.addListener(&b, &ModelListener::on);
    auto expect = [&](ModelListener& l, bool whole, const char* what) {
        std::map<std::string, std::vector<std::string>> by;
        for (auto& x : l.heard) by[x.substr(0, x.find(':'))].push_back(x.substr(x.find(':')));
        if (!whole) return;
        int n = 0;
        for (auto& lab : labels(2)) {
            VX_CHECK(by[lab].size() == 3, "%s hears %zu events of class '%s' instead of 3", what, by[lab].size(), lab.c_str());
            n += 3;
        }
        VX_CHECK(l.heard.size() == (size_t)n + 1, "%s hears %zu events instead of %d", what, l.heard.size(), n + 1);
        VX_CHECK(l.heard.back()[0] == ':', "%s: the last event is %s", what, l.heard.back().c_str());
    };
    m->train(&s);
    vx::step();
    if (seq && script == 1)
        VX_CHECK(a.heard.size() == 1, "a listener that removes itself hears %zu events", a.heard.size());
    else
        expect(a, true, "listener");
    if (seq && script == 2) VX_CHECK(b.heard.size() == 6 || b.heard.size() == 7, "a listener added by another one hears %zu events", b.heard.size());
    if (script == 3) expect(b, true, "second listener");
    a.act = nullptr;
    // second round: on the model, a copy, a reloaded or an assigned one
    int how = vx::pick(5);
    bool has_a = !(seq && script == 1), has_b = script == 3 || (seq && script == 2);
    a.heard.clear();
    b.heard.clear();
    std::unique_ptr<M> other;
    switch (how) {
        case 0:
            vx::note("train again");
            m->train(&s);
            break;
        case 1:
            vx::note("a copy is trained");
            other.reset(new M(*m));
            other->train(&s);
            break;
        case 2:
            vx::note("assigned to another model, which is trained");
            other.reset(new M(k.bi));
            *other = *m;
            m.reset();
            other->train(&s);
            break;
        case 3:
            vx::note("reloaded and trained");
            m->fromJson(m->toJson());
            m->train(&s);
            break;
        case 4: {
            vx::note("a loaded model without listeners is trained");
            other.reset(new M(m->toJson()));
            other->configuration.multithreading = xmm::MultithreadingMode::Sequential;
            other->train(&s);
            has_a = has_b = false;
            break;
        }
    }
    vx::step();
    if (has_a)
        expect(a, true, "listener in the second run");
    else
        VX_CHECK(a.heard.empty(), "a listener that is not registered hears %zu events", a.heard.size());
    if (has_b)
        expect(b, true, "second listener in the second run");
    else
        VX_CHECK(b.heard.empty(), "a second listener that is not registered hears %zu events", b.heard.size());
    vx::state(vx::Hash().adds(name(k)).add(script).add(how).add(seq).h);
}
}  // namespace
VX_SCENARIO_SPLIT(models, 2) {
    ref::Kind k = ref::kinds()[vx::pick(ref::kinds().size())];
    ref::with_kind(k, [&](auto* t) { model<typename std::remove_pointer<decltype(t)>::type>(k); });
}
