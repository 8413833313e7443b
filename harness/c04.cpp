// C04: copies, assignments and destruction of training sets affect no other set
#include "ts_model.hpp"
using namespace tsm;
static const std::vector<std::string> L = {"a", "b"};

namespace {
struct Set {
    std::unique_ptr<xmm::TrainingSet> t;
    TModel m;
};
TModel deep(TModel const& s) {
    TModel d = s;
    for (auto& e : d.ph) e.second = std::make_shared<pm::Model>(*e.second);
    return d;
}
struct World {
    Set s[2];
    PP held;   // a phrase the user holds on to
    PM heldm;
    pm::Counter c;
    void check() {
        Ident id;
        for (int k = 0; k < 2; k++)
            if (s[k].t) compare(*s[k].t, s[k].m, id, k ? "set B" : "set A", L);
        if (held) {
            id.link(heldm.get(), held.get(), "held phrase");
            pm::compare(*held, *heldm, "held phrase", false, false);
        }
        uint64_t h = 7;
        for (int k = 0; k < 2; k++) h = h * 31 + (s[k].t ? s[k].m.hash() : 1);
        vx::state(h * 31 + (held ? heldm->hash() : 0));
    }
    void make(int k, int how, bool bi, bool own) {
        Set& x = s[k];
        x.m = TModel();
        x.m.own = own;
        x.t.reset(new xmm::TrainingSet(mm(own), mult(bi)));
        setup(*x.t, x.m, bi);
        if (how == 0) return;
        x.t->dimension.set(bi ? 3 : 2);
        x.m.dim = bi ? 3 : 2;
        x.m.cols = bi ? std::vector<std::string>{"x", "y", "z"}
                      : std::vector<std::string>{"x", "y"};
        x.t->column_names.set(x.m.cols);
        for (int i = 0; i < how + 1; i++) {
            std::string l = L[i == 1 ? 1 : 0];
            x.t->addPhrase(i, l);
            x.m.ph[i] = newmodel(x.m, l);
            if (own) pm::apply(*x.t->getPhrase(i), *x.m.ph[i], pm::REC, 0, c);
        }
    }
    void mutate(int k, int what) {
        Set& x = s[k];
        vx::step();
        switch (what) {
            case 0: {  // relabel first
                if (x.m.ph.empty()) throw vx::Prune();
                int i = x.m.ph.begin()->first;
                std::string l = x.m.ph[i]->label == "a" ? "b" : "a";
                vx::note("relabel phrase %d to '%s'", i, l.c_str());
                x.t->getPhrase(i)->label.set(l);
                x.m.ph[i]->label = l;
                break;
            }
            case 1: {  // record in last
                if (x.m.ph.empty()) throw vx::Prune();
                int i = x.m.ph.rbegin()->first;
                vx::note("record in phrase %d", i);
                pm::apply(*x.t->getPhrase(i), *x.m.ph[i], pm::REC, 0, c);
                break;
            }
            case 2:
                vx::note("addPhrase(1,'b')");
                x.t->addPhrase(1, "b");
                x.m.ph[1] = newmodel(x.m, "b");
                break;
            case 3: {
                if (x.m.ph.empty()) throw vx::Prune();
                int i = x.m.ph.begin()->first;
                vx::note("removePhrase(%d)", i);
                x.t->removePhrase(i);
                x.m.ph.erase(i);
                break;
            }
            case 4:
                vx::note("clear");
                x.t->clear();
                x.m.ph.clear();
                break;
            case 5: {
                bool other = false;
                for (auto& e : x.m.ph)
                    for (auto& f : s[1 - k].m.ph)
                        other |= s[1 - k].t && e.second == f.second;
                if (other) throw vx::Prune();  // would make the other set mixed
                if (held)
                    for (auto& e : x.m.ph)
                        if (e.second == heldm) other = true;
                if (held && !other) throw vx::Prune();
                unsigned v = x.m.dim == 3 ? 4 : 3;
                vx::note("dimension.set(%u)", v);
                x.t->dimension.set(v);
                x.m.dim = v;
                x.m.cols.resize(v);
                for (auto& e : x.m.ph) {
                    e.second->dim = v;
                    e.second->wipe();
                }
                break;
            }
            case 6: {
                vx::note("column_names changed");
                x.m.cols[0] += "q";
                x.t->column_names.set(x.m.cols);
                break;
            }
        }
    }
};
bool compatible(TModel const& a, pm::Model const& p) {
    return a.bimodal == p.bimodal && a.dim == p.dim && a.din == p.din &&
           a.own == p.own;
}
void body(int depth, bool wide) {
    World w;
    bool bi = wide ? vx::pick(2) : 0;
    int fb = vx::pick(2);
    bool ownb = wide ? !vx::pick(2) : true;
    vx::note("A: 3 phrases; B: %s %s %s", fb ? "2 phrases" : "empty",
             bi ? "bimodal" : "unimodal", ownb ? "own" : "shared memory");
    w.make(0, 2, bi, true);
    w.make(1, fb, wide && fb ? !bi : bi, ownb);
    w.check();
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(12);
        vx::step();
        int k = op & 1;
        Set &x = w.s[k], &y = w.s[1 - k];
        const char* nx = k ? "B" : "A";
        const char* ny = k ? "A" : "B";
        if (op < 2) {
            if (!y.t) throw vx::Prune();
            vx::note("%s copy-constructed from %s", nx, ny);
            x.t.reset(new xmm::TrainingSet(*y.t));
            x.m = deep(y.m);
        } else if (op < 4) {
            if (!x.t || !y.t) throw vx::Prune();
            vx::note("%s = %s", nx, ny);
            *x.t = *y.t;
            x.m = deep(y.m);
        } else if (op < 6) {
            if (!x.t) throw vx::Prune();
            vx::note("on %s:", nx);
            w.mutate(k, vx::pick(7));
        } else if (op < 8) {
            if (!x.t) throw vx::Prune();
            vx::note("destroy %s", nx);
            x.t.reset();
            x.m = TModel();
        } else if (op == 8) {
            int j = vx::pick(2);
            Set& z = w.s[j];
            if (!z.t || z.m.ph.empty()) throw vx::Prune();
            int i = z.m.ph.begin()->first;
            vx::note("user holds phrase %d of %s", i, j ? "B" : "A");
            w.held = z.t->getPhrase(i);
            w.heldm = z.m.ph[i];
        } else if (op == 9) {
            if (!w.held) throw vx::Prune();
            std::string l = w.heldm->label == "a" ? "b" : "a";
            vx::note("held phrase relabelled '%s'", l.c_str());
            w.held->label.set(l);
            w.heldm->label = l;
        } else if (op == 10) {
            int j = vx::pick(2);
            Set& z = w.s[j];
            if (!w.held || !z.t || !compatible(z.m, *w.heldm)) throw vx::Prune();
            int i = vx::pick(2);
            vx::note("%s.addPhrase(%d, held phrase)", j ? "B" : "A", i);
            z.t->addPhrase(i, w.held);
            z.m.ph[i] = w.heldm;
        } else {
            int j = vx::pick(2);
            int tgt = vx::pick(2);
            Set &z = w.s[j], &o = w.s[tgt];
            if (!z.t || !o.t) throw vx::Prune();
            std::string l = L[vx::pick(2)];
            xmm::TrainingSet* sub = z.t->getPhrasesOfClass(l);
            if (!sub) throw vx::Prune();
            vx::note("%s = subset '%s' of %s", tgt ? "B" : "A", l.c_str(),
                     j ? "B" : "A");
            TModel n = z.m;
            for (auto it = n.ph.begin(); it != n.ph.end();)
                if (it->second->label != l)
                    it = n.ph.erase(it);
                else
                    ++it;
            *o.t = *sub;
            o.m = deep(n);
        }
        w.check();
    }
    // destroy what is left in either order, using the survivors in between
    int k = vx::pick(2);
    vx::note("destroy %s first", k ? "B" : "A");
    w.s[k].t.reset();
    w.s[k].m = TModel();
    w.check();
    if (w.held) {
        w.held->label.set("a");
        w.heldm->label = "a";
        w.check();
    }
    Set& z = w.s[1 - k];
    if (z.t && !z.m.ph.empty()) {
        w.mutate(1 - k, 0);
        w.check();
    }
    z.t.reset();
    z.m = TModel();
    if (w.held) w.held->label.set("b");
}
}  // namespace
VX_SCENARIO_LEAK(two_sets) { body(vx::tier(3, 4), false); }
VX_SCENARIO_LEAK(two_sets_mixed_kinds) { body(vx::tier(3, 4), true); }
