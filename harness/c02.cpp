// C02: copies and assignments of phrases are equal and independent
#include "phrase_model.hpp"
using namespace pm;

namespace {
struct Obj {
    std::unique_ptr<xmm::Phrase> p;
    Model m;
};
std::vector<std::unique_ptr<float[]>>* g_bufs;
std::vector<std::pair<float*, std::vector<float>>>* g_shadow;
float* mk(unsigned n) {
    g_bufs->emplace_back(new float[n]);
    float* b = g_bufs->back().get();
    std::vector<float> v(n);
    for (unsigned i = 0; i < n; i++)
        b[i] = v[i] = 1000.f * g_bufs->size() + i;
    g_shadow->push_back({b, v});
    return b;
}
std::vector<Frame> rows(float* b, unsigned n, unsigned d) {
    std::vector<Frame> r;
    for (unsigned i = 0; i < n; i++)
        r.push_back(Frame(b + i * d, b + i * d + d));
    return r;
}
const char* kinds[] = {"unimodal own", "bimodal own", "unimodal shared",
                       "bimodal shared"};
void make(Obj& o, int kind) {
    bool bi = kind & 1, sh = kind & 2;
    o.m = Model();
    o.m.bimodal = bi;
    o.m.own = !sh;
    o.m.dim = bi ? 2 : 1;
    o.m.din = bi ? 1 : 0;
    o.p.reset(new xmm::Phrase(sh ? xmm::MemoryMode::SharedMemory
                                 : xmm::MemoryMode::OwnMemory,
                              bi ? xmm::Multimodality::Bimodal
                                 : xmm::Multimodality::Unimodal));
}
// put data (or not) into an object
void fill(Obj& o, int how, Counter& c) {
    if (how == 0) return;
    apply(*o.p, o.m, DIM, o.m.bimodal ? 3 : 2, c);
    if (o.m.bimodal && how == 2) apply(*o.p, o.m, DIN, 2, c);
    if (o.m.own) {
        apply(*o.p, o.m, REC, 0, c);
        if (o.m.bimodal && how == 1)
            apply(*o.p, o.m, REC_IN, 0, c);
        else
            apply(*o.p, o.m, REC, 0, c);
    } else {
        vx::note("connect(2)");
        float* a = mk(2 * o.m.indim());
        if (o.m.bimodal) {
            float* b = mk(2 * o.m.outdim());
            o.p->connect(a, b, 2);
            o.m.out = rows(b, 2, o.m.outdim());
        } else
            o.p->connect(a, 2);
        o.m.in = rows(a, 2, o.m.indim());
    }
    apply(*o.p, o.m, LABEL, how - 1, c);
}
void check(Obj* a, Obj* b) {
    if (a->p) compare(*a->p, a->m, "first", false, false);
    if (b->p) compare(*b->p, b->m, "second", false, false);
    for (auto& s : *g_shadow)
        for (size_t j = 0; j < s.second.size(); j++)
            VX_CHECK(s.first[j] == s.second[j], "user buffer modified");
}
void mutate(Obj& o, int k, Counter& c) {
    switch (k) {
        case 0: apply(*o.p, o.m, o.m.own ? REC : LABEL, 1, c); break;
        case 1: apply(*o.p, o.m, CLEAR, 0, c); break;
        case 2: apply(*o.p, o.m, DIM, o.m.dim == 3 ? 4 : 3, c); break;
        case 3:
            if (o.m.bimodal)
                apply(*o.p, o.m, DIN, o.m.din == 1 && o.m.dim > 2 ? 2 : 1, c);
            else
                apply(*o.p, o.m, DIM, 2, c);
            break;
        case 4: apply(*o.p, o.m, LABEL, o.m.label == "a" ? 1 : 0, c); break;
        case 5:
            vx::note("write through the data pointers");
            if (o.m.own && o.m.size() > 0) {
                if (o.m.bimodal) {
                    o.p->getPointer_input(0)[0] = -5;
                    o.m.in[0][0] = -5;
                    o.p->getPointer_output(0)[0] = -6;
                    o.m.out[0][0] = -6;
                } else {
                    o.p->getPointer(0)[0] = -5;
                    o.m.in[0][0] = -5;
                }
            } else if (!o.m.own) {
                o.p->disconnect();
                o.m.wipe();
            }
            break;
        case 6: apply(*o.p, o.m, o.m.bimodal ? REC_OUT : CLEAR_OUT, 0, c); break;
    }
    vx::step();
}
}  // namespace

// all histories over two phrases
VX_SCENARIO_LEAK(two_phrases) {
    std::vector<std::unique_ptr<float[]>> bufs;
    std::vector<std::pair<float*, std::vector<float>>> shadow;
    g_bufs = &bufs;
    g_shadow = &shadow;
    Obj o[2];
    Counter c;
    int ka = vx::pick(4), kb = vx::pick(4);
    make(o[0], ka);
    make(o[1], kb);
    vx::note("first: %s, second: %s", kinds[ka], kinds[kb]);
    vx::note("first:");
    fill(o[0], vx::pick(3), c);
    vx::note("second:");
    fill(o[1], vx::pick(2), c);
    check(&o[0], &o[1]);
    int depth = vx::tier(3, 4);
    for (int i = 0; i < depth; i++) {
        int op = vx::pick(9);
        int s = op & 1, d = 1 - s;
        if (op < 2) {
            vx::note("copy-construct %s from %s", d ? "second" : "first",
                     s ? "second" : "first");
            o[d].p.reset(new xmm::Phrase(*o[s].p));
            o[d].m = o[s].m;
        } else if (op < 4) {
            vx::note("%s = %s", d ? "second" : "first", s ? "second" : "first");
            *o[d].p = *o[s].p;
            o[d].m = o[s].m;
        } else if (op == 4) {
            vx::note("first = first");
            *o[0].p = *&*o[0].p;
        } else if (op < 7) {
            int w = op - 5;
            vx::note("on %s:", w ? "second" : "first");
            mutate(o[w], vx::pick(7), c);
        } else {
            int w = op - 7;
            vx::note("destroy %s and make it anew as a copy of the other",
                     w ? "second" : "first");
            o[w].p.reset();
            check(&o[0], &o[1]);
            o[w].p.reset(new xmm::Phrase(*o[1 - w].p));
            o[w].m = o[1 - w].m;
        }
        vx::step();
        check(&o[0], &o[1]);
        vx::state(vx::Hash().add(o[0].m.hash()).add(o[1].m.hash()).h);
    }
    // destroy in either order; the survivor must stay usable
    int w = vx::pick(2);
    vx::note("destroy %s, then use the other", w ? "second" : "first");
    o[w].p.reset();
    check(&o[0], &o[1]);
    mutate(o[1 - w], 0, c);
    mutate(o[1 - w], 2, c);
    if (o[1 - w].m.own) mutate(o[1 - w], 0, c);
    check(&o[0], &o[1]);
    o[1 - w].p.reset();
    check(&o[0], &o[1]);
}
// phrases held in standard containers (copies and assignments made by them)
VX_SCENARIO_LEAK(in_containers) {
    std::vector<std::unique_ptr<float[]>> bufs;
    std::vector<std::pair<float*, std::vector<float>>> shadow;
    g_bufs = &bufs;
    g_shadow = &shadow;
    int kind = vx::pick(4);
    vx::note("vector of %s phrases", kinds[kind]);
    std::vector<xmm::Phrase> v;
    std::vector<Model> vm;
    Counter c;
    int depth = vx::tier(4, 5);
    for (int i = 0; i < depth; i++) {
        int op = vx::pick(5);
        vx::step();
        if (op < 2) {
            Obj o;
            make(o, kind);
            fill(o, op + 1, c);
            vx::note("push_back");
            v.push_back(*o.p);
            vm.push_back(o.m);
        } else if (op == 2) {
            vx::note("erase first");
            if (!v.empty()) {
                v.erase(v.begin());
                vm.erase(vm.begin());
            }
        } else if (op == 3) {
            vx::note("insert copy of last in front");
            if (!v.empty()) {
                xmm::Phrase t(v.back());
                Model mt = vm.back();
                v.insert(v.begin(), t);
                vm.insert(vm.begin(), mt);
            }
        } else if (!v.empty()) {
            int k = vx::pick(3);
            Obj o;
            vx::note("mutate last");
            xmm::Phrase& p = v.back();
            Model& m = vm.back();
            apply(p, m, k == 0 ? (m.own ? REC : LABEL) : k == 1 ? DIM : LABEL,
                  k == 1 ? 4 : 1, c);
        }
        for (size_t j = 0; j < v.size(); j++) {
            compare(v[j], vm[j], "element", false, false);
        }
        vx::Hash h;
        for (auto& m : vm) h.add(m.hash());
        vx::state(h.h);
    }
    for (auto& s : shadow)
        for (size_t j = 0; j < s.second.size(); j++)
            VX_CHECK(s.first[j] == s.second[j], "user buffer modified");
}
