// C07: phrases and training sets survive a JSON round trip
#include "ts_model.hpp"
using namespace tsm;
using namespace xmm;

namespace {
const std::vector<float> VALS = {0.f,     1.f,          -1.f,      0.1f,   -2.7182817f,
                                 1.0e-30f, -3.4028235e38f, 16777217.f, 1.1754944e-38f, 1e20f};
const std::vector<std::string> LABELS = {"", "a", "a b \"q\" \\ \n\t\xc3\xa9 / []{}", "1"};
struct Shape {
    bool bi;
    unsigned dim, din;
};
const std::vector<Shape> SHAPES = {{false, 1, 0}, {true, 2, 1}, {false, 3, 0}, {true, 3, 1}, {true, 3, 2}, {true, 5, 2}};

Json::Value through(Json::Value const& v, int how) {
    if (how == 0) return v;
    std::string text;
    if (how == 1) {
        Json::FastWriter w;
        text = w.write(v);
    } else {
        text = v.toStyledString();
    }
    Json::Value out;
    Json::Reader reader;
    VX_CHECK(reader.parse(text, out), "serialised text cannot be parsed: %s", text.c_str());
    return out;
}
struct Vals {
    unsigned k;
    Frame frame(unsigned n) {
        Frame f(n);
        for (auto& x : f) x = VALS[k++ % VALS.size()];
        return f;
    }
};
std::unique_ptr<Phrase> build(Shape const& s, pm::Model& m, bool shared, unsigned nin, unsigned nout, Vals& v,
                              std::vector<float>& bi, std::vector<float>& bo) {
    std::unique_ptr<Phrase> p(new Phrase(mm(!shared), mult(s.bi)));
    p->dimension.set(s.dim);
    if (s.bi) p->dimension_input.set(s.din);
    m.own = !shared;
    m.bimodal = s.bi;
    m.dim = s.dim;
    m.din = s.din;
    for (unsigned t = 0; t < nin; t++) m.in.push_back(v.frame(m.indim()));
    if (s.bi)
        for (unsigned t = 0; t < nout; t++) m.out.push_back(v.frame(m.outdim()));
    if (shared) {
        for (auto& f : m.in) bi.insert(bi.end(), f.begin(), f.end());
        for (auto& f : m.out) bo.insert(bo.end(), f.begin(), f.end());
        if (s.bi)
            p->connect(bi.data(), bo.data(), std::min(nin, nout));
        else
            p->connect(bi.data(), nin);
        if (s.bi) m.in.resize(std::min(nin, nout)), m.out.resize(std::min(nin, nout));
    } else if (s.bi) {
        for (auto& f : m.in) p->record_input(f);
        for (auto& f : m.out) p->record_output(f);
    } else
        for (auto& f : m.in) p->record(f);
    return p;
}
void cols_equal(std::vector<std::string> a, std::vector<std::string> b, unsigned dim, const char* who) {
    a.resize(dim);
    b.resize(dim);
    VX_CHECK(a == b, "%s: column names differ", who);
}
}  // namespace

VX_SCENARIO_LEAK(phrase) {
    Shape s = vx::oneof(SHAPES);
    bool shared = vx::pick(2);
    unsigned n = vx::pick(vx::tier(4, 5));
    unsigned extra = s.bi && !shared ? vx::pick(3) : 0;
    Vals v{(unsigned)vx::pick((int)VALS.size())};
    pm::Model m;
    std::vector<float> bi, bo;
    auto p = build(s, m, shared, n + (extra == 1), n + (extra == 2), v, bi, bo);
    m.label = vx::oneof(LABELS);
    p->label.set(m.label);
    if (vx::pick(2)) {
        m.cols.clear();
        for (unsigned i = 0; i < s.dim; i++) m.cols.push_back(i == 1 ? "" : "col " + std::to_string(i));
        p->column_names = m.cols;
    } else
        m.cols = p->column_names;
    int how = vx::pick(vx::tier(2, 3)), target = vx::pick(5);
    vx::note("%s %s dimension %u/%u, %u frames (+%u), label '%s', through %d, target %d", shared ? "shared" : "own",
             s.bi ? "bimodal" : "unimodal", s.dim, s.din, n, extra, m.label.c_str(), how, target);
    vx::state(m.hash(true));
    std::string before = p->toJson().toStyledString();
    Json::Value j = through(p->toJson(), how);
    std::unique_ptr<Phrase> q;
    std::vector<float> ub(40, 3.f);
    bool same_object = false;
    switch (target) {
        case 0: q.reset(new Phrase(j)); break;
        case 1:
            q.reset(new Phrase());
            q->fromJson(j);
            break;
        case 2:  // used, other kind
            q.reset(new Phrase(MemoryMode::OwnMemory, mult(!s.bi)));
            q->dimension.set(4);
            q->label.set("old");
            for (int i = 0; i < 3; i++) q->record(Frame(4, 9.f));
            q->fromJson(j);
            break;
        case 3:  // used, shared memory
            q.reset(new Phrase(MemoryMode::SharedMemory, mult(s.bi)));
            if (s.bi)
                q->connect(ub.data(), ub.data(), 2);
            else
                q->connect(ub.data(), 2);
            q->fromJson(j);
            break;
        case 4:  // the source itself
            same_object = true;
            p->fromJson(j);
            break;
    }
    vx::step(2);
    pm::Model m2 = m;  // what is reloaded owns its memory and holds whole frames only
    m2.own = true;
    if (s.bi) m2.in.resize(m.size()), m2.out.resize(m.size());
    Phrase& r = same_object ? *p : *q;
    pm::compare(r, m2, "reloaded phrase", false, false);
    cols_equal(r.column_names, m.cols, s.dim, "reloaded phrase");
    if (!same_object) {
        pm::compare(*p, m, "source phrase", false, false);
        VX_CHECK(p->toJson().toStyledString() == before, "writing to JSON changed the source");
    }
    VX_CHECK(r.toJson().toStyledString() == before, "the second document differs from the first");
    // further use
    int use = vx::pick(4);
    pm::Counter c;
    switch (use) {
        case 0: break;
        case 1:
            for (int i = 0; i < 2; i++) pm::apply(r, m2, pm::REC, 0, c);
            break;
        case 2:
            if (s.bi) {
                pm::apply(r, m2, pm::REC_OUT, 0, c);
                pm::apply(r, m2, pm::REC_IN, 0, c);
                pm::apply(r, m2, pm::REC_IN, 0, c);
            } else {
                pm::apply(r, m2, pm::CLEAR, 0, c);
                pm::apply(r, m2, pm::REC, 0, c);
            }
            break;
        case 3:
            pm::apply(r, m2, pm::DIM, s.dim + 1, c);
            pm::apply(r, m2, pm::REC, 0, c);
            pm::apply(r, m2, pm::LABEL, 1, c);
            break;
    }
    pm::compare(r, m2, "reloaded phrase, used", false, false);
    vx::outcome(before.substr(0, 40));
}

VX_SCENARIO_LEAK(training_set) {
    Shape s = vx::oneof(SHAPES);
    const std::vector<int> IDX = {0, 2, -1, 7};
    const std::vector<std::string> LB = {"a", "", "b\"\n"};
    int nph = vx::pick(4);
    bool cols = vx::pick(2);
    Vals v{3};
    TModel m;
    m.bimodal = s.bi;
    m.dim = s.dim;
    m.din = s.din;
    m.cols.assign(s.dim, "");
    std::unique_ptr<TrainingSet> t(new TrainingSet(MemoryMode::OwnMemory, mult(s.bi)));
    t->dimension.set(s.dim);
    if (s.bi) t->dimension_input.set(s.din);
    if (cols) {
        for (unsigned i = 0; i < s.dim; i++) m.cols[i] = "c" + std::to_string(i);
        t->column_names.set(m.cols);
    }
    int rot = vx::tier(nph == 3, nph > 0) ? vx::pick(2) : 0;
    const bool few = nph == 3 && !vx::thorough();
    for (int i = 0; i < nph; i++) {
        int idx = IDX[(i + 2 * rot) % 4];
        std::string l = few ? LB[vx::pick(2)] : vx::oneof(LB);
        unsigned n = few ? 2 * vx::pick(2) : vx::pick(3);
        t->addPhrase(idx, l);
        PM pmod = newmodel(m, l);
        for (unsigned k = 0; k < n; k++) {
            Frame f = v.frame(s.dim);
            t->getPhrase(idx)->record(f);
            if (s.bi) {
                pmod->in.push_back(Frame(f.begin(), f.begin() + s.din));
                pmod->out.push_back(Frame(f.begin() + s.din, f.end()));
            } else
                pmod->in.push_back(f);
        }
        m.ph[idx] = pmod;
        vx::note("phrase %d label '%s' %u frames", idx, l.c_str(), n);
    }
    int how = vx::pick(vx::tier(2, 3)), target = vx::pick(4);
    vx::note("%s set dimension %u/%u, through %d, target %d", s.bi ? "bimodal" : "unimodal", s.dim, s.din, how, target);
    vx::state(m.hash(true));
    std::string before = t->toJson().toStyledString();
    Json::Value j = through(t->toJson(), how);
    std::unique_ptr<TrainingSet> q;
    bool same_object = false;
    switch (target) {
        case 0: q.reset(new TrainingSet(j)); break;
        case 1:
            q.reset(new TrainingSet());
            q->fromJson(j);
            break;
        case 2:
            q.reset(new TrainingSet(MemoryMode::OwnMemory, mult(!s.bi)));
            q->addPhrase(5, "old");
            q->addPhrase(0, "a");
            q->getPhrase(0)->record(Frame(s.bi ? 1 : 2, 4.f));
            q->fromJson(j);
            break;
        case 3:
            same_object = true;
            t->fromJson(j);
            break;
    }
    vx::step(2);
    TrainingSet& r = same_object ? *t : *q;
    std::vector<std::string> uni = {"a", "", "b\"\n", "old", "new"};
    {
        Ident id;
        compare(r, m, id, "reloaded set", uni);
    }
    for (auto& e : m.ph) cols_equal(r.getPhrase(e.first)->column_names, m.cols, s.dim, "phrase of reloaded set");
    if (!same_object) {
        Ident id;
        compare(*t, m, id, "source set", uni);
    }
    VX_CHECK(r.toJson().toStyledString() == before, "the second document differs from the first");
    int use = vx::pick(5);
    pm::Counter c;
    switch (use) {
        case 0: break;
        case 1:
            if (m.ph.empty()) throw vx::Prune{};
            vx::note("relabel");
            r.getPhrase(m.ph.begin()->first)->label.set("new");
            m.ph.begin()->second->label = "new";
            break;
        case 2: {
            vx::note("add phrase 1");
            r.addPhrase(1, "new");
            m.ph[1] = newmodel(m, "new");
            pm::apply(*r.getPhrase(1), *m.ph[1], pm::REC, 0, c);
            break;
        }
        case 3:
            if (m.ph.empty()) throw vx::Prune{};
            vx::note("remove");
            r.removePhrasesOfClass(m.ph.begin()->second->label);
            {
                std::string l = m.ph.begin()->second->label;
                for (auto it = m.ph.begin(); it != m.ph.end();)
                    if (it->second->label == l)
                        it = m.ph.erase(it);
                    else
                        ++it;
            }
            break;
        case 4:
            if (m.ph.empty()) throw vx::Prune{};
            vx::note("record in last phrase");
            pm::apply(*r.getPhrase(m.ph.rbegin()->first), *m.ph.rbegin()->second, pm::REC, 0, c);
            break;
    }
    Ident id;
    compare(r, m, id, "reloaded set, used", uni);
}

// the reloaded set trains to the same model
VX_SCENARIO(training) {
    Shape s = SHAPES[vx::pick(5)];
    int nph = 1 + vx::pick(vx::tier(2, 3));
    TrainingSet t(MemoryMode::OwnMemory, mult(s.bi));
    t.dimension.set(s.dim);
    if (s.bi) t.dimension_input.set(s.din);
    const float vals[] = {0.1f, 1.f / 3, -0.7f, 2.3456789f, 1e-3f};
    unsigned k = vx::pick(vx::tier(2, 5));
    for (int i = 0; i < nph; i++) {
        t.addPhrase(i * 3 - 1, vx::pick(2) ? "a" : "b");
        unsigned n = 2 + vx::pick(3);
        for (unsigned f = 0; f < n; f++) {
            Frame fr(s.dim);
            for (auto& x : fr) x = vals[k++ % 5] * (1 + k % 3);
            t.getPhrase(i * 3 - 1)->record(fr);
        }
    }
    int how = vx::pick(vx::tier(2, 3));
    bool hmm = vx::pick(2);
    TrainingSet q(through(t.toJson(), how));
    std::string a, b;
    auto run = [&](TrainingSet& set) {
        vx::step();
        if (hmm) {
            HierarchicalHMM h(s.bi);
            h.configuration.states.set(2);
            h.configuration.multithreading = MultithreadingMode::Sequential;
            h.train(&set);
            return h.toJson().toStyledString();
        }
        GMM g(s.bi);
        g.configuration.gaussians.set(1);
        g.configuration.multithreading = MultithreadingMode::Sequential;
        g.train(&set);
        return g.toJson().toStyledString();
    };
    a = run(t);
    b = run(q);
    vx::note("%s on %d phrases", hmm ? "HMM" : "GMM", nph);
    VX_CHECK(a == b, "training on the reloaded set gives another model");
    vx::Hash h;
    h.adds(a);
    vx::state(h.h);
}
