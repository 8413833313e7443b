// Reference model of a training set: a map from index to (shared) phrase model.
#pragma once
#include "phrase_model.hpp"

namespace tsm {
using pm::Frame;
typedef std::shared_ptr<pm::Model> PM;
typedef std::shared_ptr<xmm::Phrase> PP;

struct Entry {
    PM m;
    const xmm::Phrase* id = nullptr;  // identity of the real object, once known
};
struct TModel {
    bool bimodal = false, own = true;
    unsigned dim = 1, din = 0;
    std::vector<std::string> cols = {""};
    std::map<int, PM> ph;
    uint64_t hash(bool values = false) const {
        vx::Hash h;
        h.add(bimodal).add(dim).add(din);
        std::map<pm::Model*, int> ids;
        for (auto& e : ph) {
            h.add(e.first).add(e.second->hash(values));
            int k = ids.insert({e.second.get(), (int)ids.size()}).first->second;
            h.add(k);
        }
        for (auto& c : cols) h.adds(c);
        return h.h;
    }
    std::set<std::string> labels() const {
        std::set<std::string> s;
        for (auto& e : ph) s.insert(e.second->label);
        return s;
    }
};
// identity map: model phrase <-> real phrase must be a bijection
struct Ident {
    std::map<const pm::Model*, const xmm::Phrase*> a;
    std::map<const xmm::Phrase*, const pm::Model*> b;
    void link(const pm::Model* m, const xmm::Phrase* p, const char* who) {
        auto x = a.insert({m, p});
        auto y = b.insert({p, m});
        VX_CHECK(x.first->second == p,
                 "%s: two entries that should share one phrase do not", who);
        VX_CHECK(y.first->second == m,
                 "%s: phrases that should be distinct are one object", who);
    }
};
inline void compare(xmm::TrainingSet& t, TModel const& m, Ident& id,
                    const char* who, std::vector<std::string> const& universe,
                    bool data = true) {
    VX_CHECK(t.size() == m.ph.size(), "%s: size() is %u, expected %zu", who,
             t.size(), m.ph.size());
    VX_CHECK(t.empty() == m.ph.empty(), "%s: empty() is %d", who,
             (int)t.empty());
    VX_CHECK(t.bimodal() == m.bimodal, "%s: bimodal()", who);
    VX_CHECK(t.ownMemory() == m.own, "%s: ownMemory()", who);
    VX_CHECK(t.dimension.get() == m.dim, "%s: dimension is %u, expected %u",
             who, t.dimension.get(), m.dim);
    VX_CHECK(t.dimension_input.get() == m.din,
             "%s: dimension_input is %u, expected %u", who,
             t.dimension_input.get(), m.din);
    VX_CHECK(t.column_names.get() == m.cols, "%s: column names differ", who);
    auto it = t.begin();
    auto ci = t.cbegin();
    for (auto& e : m.ph) {
        VX_CHECK(it != t.end() && it->first == e.first && ci->first == e.first,
                 "%s: iteration does not list index %d", who, e.first);
        VX_CHECK(it->second && it->second == t.getPhrase(e.first),
                 "%s: iteration and lookup of index %d differ", who, e.first);
        id.link(e.second.get(), it->second.get(), who);
        if (data)
            pm::compare(*it->second, *e.second, who, false, false);
        else
            VX_CHECK(it->second->label.get() == e.second->label,
                     "%s: label of phrase %d is '%s', expected '%s'", who,
                     e.first, it->second->label.get().c_str(),
                     e.second->label.c_str());
        ++it;
        ++ci;
    }
    VX_CHECK(it == t.end() && ci == t.cend(), "%s: iteration lists too much",
             who);
    for (int i = -1; i < 4; i++)
        if (!m.ph.count(i)) {
            PP p;
            try {
                p = t.getPhrase(i);
            } catch (std::out_of_range&) {
            }
            VX_CHECK(!p, "%s: lookup of absent index %d yields a phrase", who, i);
        }
    std::set<std::string> ls = m.labels();
    VX_CHECK(t.labels() == ls, "%s: label set differs (%zu labels, expected %zu)",
             who, t.labels().size(), ls.size());
    for (auto& l : universe) {
        xmm::TrainingSet* s = nullptr;
        try {
            s = t.getPhrasesOfClass(l);
        } catch (std::out_of_range&) {
        }
        VX_CHECK((s != nullptr) == (ls.count(l) > 0),
                 "%s: subset of label '%s' is %s", who, l.c_str(),
                 s ? "present" : "missing");
        if (!s) continue;
        unsigned n = 0;
        for (auto& e : m.ph)
            if (e.second->label == l) {
                n++;
                VX_CHECK(s->getPhrase(e.first).get() ==
                             t.getPhrase(e.first).get(),
                         "%s: subset '%s' lacks the phrase at index %d", who,
                         l.c_str(), e.first);
            }
        VX_CHECK(s->size() == n, "%s: subset '%s' has %u phrases, expected %u",
                 who, l.c_str(), s->size(), n);
        VX_CHECK(s->dimension.get() == m.dim && s->bimodal() == m.bimodal &&
                     s->dimension_input.get() == m.din,
                 "%s: subset '%s' has other dimensions", who, l.c_str());
        VX_CHECK(s->column_names.get() == m.cols,
                 "%s: subset '%s' has other column names", who, l.c_str());
    }
}
inline PM newmodel(TModel const& t, std::string const& label) {
    PM m = std::make_shared<pm::Model>();
    m->bimodal = t.bimodal;
    m->own = t.own;
    m->dim = t.dim;
    m->din = t.din;
    m->label = label;
    m->cols = t.cols;
    return m;
}
inline xmm::MemoryMode mm(bool own) {
    return own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory;
}
inline xmm::Multimodality mult(bool b) {
    return b ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal;
}
inline void setup(xmm::TrainingSet& t, TModel& m, bool bimodal) {
    m.bimodal = bimodal;
    m.dim = bimodal ? 2 : 1;
    m.din = bimodal ? 1 : 0;
    m.cols.assign(m.dim, "");
    (void)t;
}
}  // namespace tsm
