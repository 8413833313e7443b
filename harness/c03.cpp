// C03: labels and class subsets always match the phrases of the set
#include "ts_model.hpp"
using namespace tsm;

static const std::vector<std::string> L = {"a", "b", "c"};

static void add(xmm::TrainingSet& t, TModel& m, int i, std::string const& l) {
    t.addPhrase(i, l);
    m.ph[i] = newmodel(m, l);
}
static void history(bool bimodal, int start, int depth, bool full) {
    std::unique_ptr<xmm::TrainingSet> tp(
        new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, mult(bimodal)));
    xmm::TrainingSet& t = *tp;
    TModel m;
    setup(t, m, bimodal);
    pm::Counter c;
    // two phrases owned by the user
    PP ext[2];
    PM extm[2];
    for (int k = 0; k < 2; k++) {
        ext[k] = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory,
                                               mult(bimodal));
        extm[k] = newmodel(m, "");
    }
    vx::note("%s set, start %d", bimodal ? "bimodal" : "unimodal", start);
    if (start == 1) {
        add(t, m, 0, "a");
        add(t, m, 1, "a");
        add(t, m, 2, "b");
    } else if (start == 2) {
        add(t, m, 1, "b");
        t.addPhrase(0, ext[0]);
        m.ph[0] = extm[0];
    }
    const int NI = full ? 3 : 2, NL = full ? 3 : 2;
    for (int d = 0; d < depth; d++) {
        static const int few[] = {0, 1, 2, 3, 6, 7, 9, 11};
        int op = full ? vx::pick(14) : few[vx::pick(8)];
        vx::step();
        switch (op) {
            case 0: {
                int i = vx::pick(NI);
                std::string l = L[vx::pick(NL)];
                vx::note("addPhrase(%d,'%s')", i, l.c_str());
                add(t, m, i, l);
                break;
            }
            case 1: {
                int i = vx::pick(NI);
                std::string l = L[vx::pick(NL)];
                vx::note("label of phrase %d := '%s'", i, l.c_str());
                PP p = t.getPhrase(i);
                if (!p) throw vx::Prune();
                p->label.set(l);
                m.ph[i]->label = l;
                break;
            }
            case 2: {
                int i = vx::pick(NI);
                vx::note("removePhrase(%d)", i);
                if (m.ph.count(i)) {
                    t.removePhrase(i);
                    m.ph.erase(i);
                } else
                    vx::throws([&] { t.removePhrase(i); });
                break;
            }
            case 3: {
                std::string l = L[vx::pick(NL)];
                vx::note("removePhrasesOfClass('%s')", l.c_str());
                vx::throws([&] { t.removePhrasesOfClass(l); });
                for (auto it = m.ph.begin(); it != m.ph.end();)
                    if (it->second->label == l)
                        it = m.ph.erase(it);
                    else
                        ++it;
                break;
            }
            case 4: {
                vx::note("removePhrasesOfClass(first of labels())");
                if (m.ph.empty()) throw vx::Prune();
                std::string l = *t.labels().begin();
                t.removePhrasesOfClass(*t.labels().begin());
                for (auto it = m.ph.begin(); it != m.ph.end();)
                    if (it->second->label == l)
                        it = m.ph.erase(it);
                    else
                        ++it;
                break;
            }
            case 5:
                vx::note("clear");
                t.clear();
                m.ph.clear();
                break;
            case 6: {
                int i = vx::pick(2), k = vx::pick(2);
                vx::note("addPhrase(%d, user phrase %d)", i, k);
                t.addPhrase(i, ext[k]);
                m.ph[i] = extm[k];
                break;
            }
            case 7: {
                int k = vx::pick(2);
                std::string l = L[vx::pick(NL)];
                vx::note("label of user phrase %d := '%s'", k, l.c_str());
                ext[k]->label.set(l);
                extm[k]->label = l;
                break;
            }
            case 8: {
                int i = vx::pick(2);
                std::string l = L[vx::pick(2)];
                vx::note("addPhrase(%d, copy of a phrase labelled '%s')", i,
                         l.c_str());
                xmm::Phrase q(xmm::MemoryMode::OwnMemory, mult(bimodal));
                q.dimension.set(m.dim);
                if (bimodal) q.dimension_input.set(m.din);
                q.label.set(l);
                t.addPhrase(i, q);
                m.ph[i] = newmodel(m, l);
                // the copy is independent of its source
                q.label.set("c");
                break;
            }
            case 9: {
                int i = vx::pick(NI);
                std::string l = L[vx::pick(NL)];
                vx::note("phrase %d = a phrase labelled '%s'", i, l.c_str());
                PP p = t.getPhrase(i);
                if (!p) throw vx::Prune();
                xmm::Phrase q(*p);
                q.label.set(l);
                *p = q;
                m.ph[i]->label = l;
                break;
            }
            case 10: {
                int i = vx::pick(2);
                std::string l = L[vx::pick(2)];
                vx::note("phrase %d fromJson labelled '%s'", i, l.c_str());
                PP p = t.getPhrase(i);
                if (!p) throw vx::Prune();
                xmm::Phrase q(*p);
                q.label.set(l);
                p->fromJson(q.toJson());
                m.ph[i]->label = l;
                break;
            }
            case 11: {
                int i = vx::pick(2);
                vx::note("relabel phrase %d through its class subset", i);
                if (!m.ph.count(i)) throw vx::Prune();
                std::string o = m.ph[i]->label, l = o == "a" ? "b" : "a";
                PP p = t.getPhrasesOfClass(o)->getPhrase(i);
                p->label.set(l);
                m.ph[i]->label = l;
                break;
            }
            case 12: {
                vx::note("dimension.set(3)");
                t.dimension.set(3);
                m.dim = 3;
                m.cols.resize(3);
                for (auto& e : m.ph) {
                    e.second->dim = 3;
                    e.second->wipe();
                }
                for (int k = 0; k < 2; k++) {
                    bool in = false;
                    for (auto& e : m.ph) in |= e.second == extm[k];
                    if (!in) {
                        ext[k]->dimension.set(3);
                        extm[k]->dim = 3;
                        extm[k]->wipe();
                    }
                }
                break;
            }
            case 13: {
                int i = vx::pick(2);
                if (!m.ph.count(i)) throw vx::Prune();
                vx::note("record a frame in phrase %d", i);
                pm::Model& x = *m.ph[i];
                pm::apply(*t.getPhrase(i), x, pm::REC, 0, c);
                break;
            }
        }
        Ident id;
        compare(t, m, id, "set", L);
        for (int k = 0; k < 2; k++) {
            id.link(extm[k].get(), ext[k].get(), "user phrase");
            pm::compare(*ext[k], *extm[k], "user phrase", false, false);
        }
        vx::state(m.hash());
    }
}
VX_SCENARIO_LEAK(unimodal) {
    int start = vx::pick(3);
    history(false, start, vx::tier(3, 4), true);
}
VX_SCENARIO_LEAK(bimodal) {
    int start = vx::pick(2);
    history(true, start, vx::tier(3, 3), true);
}
VX_SCENARIO_LEAK(deep_two_labels) {
    history(false, vx::pick(2), vx::tier(4, 5), false);
}

// many phrases with scattered indices: every pair of operations
VX_SCENARIO(many_phrases) {
    static const int IDX[] = {-3, 0, 1, 2, 5, 12, 100, 7};
    static const std::vector<std::string> LL = {"a", "b", "c", "d", "", "a b"};
    bool bimodal = vx::pick(2);
    xmm::TrainingSet t(xmm::MemoryMode::OwnMemory, mult(bimodal));
    TModel m;
    setup(t, m, bimodal);
    int n = 4 + vx::pick(4);
    for (int i = 0; i < n; i++) add(t, m, IDX[i], LL[(i * 5 + i / 3) % 4]);
    vx::note("%s set of %d phrases", bimodal ? "bimodal" : "unimodal", n);
    auto check = [&] {
        Ident id;
        compare(t, m, id, "set", LL);
        vx::state(m.hash());
    };
    check();
    for (int d = 0; d < vx::tier(2, 3); d++) {
        int op = vx::pick(5);
        vx::step();
        switch (op) {
            case 0: {
                int i = vx::pick(8), l = vx::pick(6);
                vx::note("addPhrase(%d,'%s')", IDX[i], LL[l].c_str());
                add(t, m, IDX[i], LL[l]);
                break;
            }
            case 1: {
                int i = vx::pick(n), l = vx::pick(6);
                vx::note("label of phrase %d := '%s'", IDX[i], LL[l].c_str());
                if (!m.ph.count(IDX[i])) throw vx::Prune();
                t.getPhrase(IDX[i])->label.set(LL[l]);
                m.ph[IDX[i]]->label = LL[l];
                break;
            }
            case 2: {
                int i = vx::pick(n);
                vx::note("removePhrase(%d)", IDX[i]);
                if (!m.ph.count(IDX[i])) throw vx::Prune();
                t.removePhrase(IDX[i]);
                m.ph.erase(IDX[i]);
                break;
            }
            case 3: {
                int l = vx::pick(6);
                vx::note("removePhrasesOfClass('%s')", LL[l].c_str());
                vx::throws([&] { t.removePhrasesOfClass(LL[l]); });
                for (auto it = m.ph.begin(); it != m.ph.end();) it = it->second->label == LL[l] ? m.ph.erase(it) : std::next(it);
                break;
            }
            case 4:
                vx::note("clear");
                t.clear();
                m.ph.clear();
                break;
        }
        check();
    }
}
