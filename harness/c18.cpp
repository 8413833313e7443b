// C18: the class set of a model
#include "model_history.hpp"
using namespace ref;

namespace {
const std::vector<Classes> SETS = {{{"a", 0}, {"b", 1}, {"c", 2}}, {{"b", 2}}, {{"c", 1}, {"a", 1}}};

template <class M>
struct Run {
    Kind k;
    Shape sh;
    std::unique_ptr<M> m;
    Classes cls;
    bool fresh = true;       // filtered nothing since the last reset
    int other_dim = 0;

    void config(M& x) const {
        configure_all(x, k, 1);
        x.shared_parameters->likelihood_window.set(2);
    }
    Snap alone(std::string const& l, int d) {
        return standalone<M>(name(k), l, d, sh, [this](M& x) { config(x); });
    }
    // the expected outputs of the classes after a reset, from a model that was trained with exactly these classes
    std::vector<Snap> expected(Classes const& c, int nframes) {
        static std::map<std::string, std::vector<Snap>> cache;
        std::string key = name(k) + std::to_string(nframes);
        for (auto& x : c) key += x.first + std::to_string(x.second);
        auto it = cache.find(key);
        if (it != cache.end()) return it->second;
        M x(sh.bi);
        config(x);
        auto s = build_set(c, sh);
        x.train(s->ts.get());
        std::vector<Snap> r;
        for (int i = 0; i < nframes; i++) {
            x.filter(frame(sh, i));
            r.push_back(results(x));
        }
        return cache[key] = r;
    }
    void check(const char* who) {
        check_classes(*m, cls, who);
        for (auto& c : cls) equal(class_params(m->models[c.first]), alone(c.first, c.second), who, 1e-5, 1e-6);
        vx::state(hash_classes(cls));
    }
    // filters frames: the model is in the reset state
    void filter() {
        VX_CHECK(fresh, "harness");
        if (cls.empty()) {
            VX_CHECK(vx::throws([&] { m->filter(frame(sh, 0)); }), "a model without classes filters");
            vx::outcome("refused: untrained");
            return;
        }
        std::vector<float> bad(sh.obs() + 1, 0.f);
        VX_CHECK(vx::throws([&] { m->filter(bad); }), "a frame of size %d is accepted", sh.obs() + 1);
        bad.clear();
        VX_CHECK(vx::throws([&] { m->filter(bad); }), "an empty frame is accepted");
        auto e = expected(cls, 2);
        for (int i = 0; i < 2; i++) {
            m->filter(frame(sh, i));
            vx::step();
            VX_CHECK(m->results.instant_likelihoods.size() == cls.size() && m->results.smoothed_log_likelihoods.size() == cls.size(),
                     "%zu results for %zu classes", m->results.instant_likelihoods.size(), cls.size());
            equal(results(*m), e[i], "results compared with a model of the same classes", 2e-4, 1e-6);
        }
        fresh = false;
        vx::outcome("filtered");
    }
    void refuse(const char* what, std::function<void()> f) {
        VX_CHECK(vx::throws(f), "%s is accepted", what);
    }
};
template <class M>
void history(Kind k, int depth) {
    Run<M> r;
    r.k = k;
    r.sh = shape(k);
    r.m.reset(new M(r.sh.bi));
    r.config(*r.m);
    int invalid = 0;
    vx::note("%s", name(k).c_str());
    M doc_model(r.sh.bi);
    r.config(doc_model);
    Classes doc_classes = {{"a", 2}, {"c", 0}};
    {
        auto s = build_set(doc_classes, r.sh);
        doc_model.train(s->ts.get());
    }
    const Json::Value doc = doc_model.toJson();
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(14);
        if (op >= 12 && ++invalid > vx::tier(1, 2)) throw vx::Prune();
        M& m = *r.m;
        vx::step();
        if (op < 3) {
            vx::note("train set %d", op);
            auto s = build_set(SETS[op], r.sh);
            m.train(s->ts.get());
            r.cls = SETS[op];
            r.fresh = true;
        } else if (op < 6) {
            static const std::pair<int, const char*> one[] = {{0, "c"}, {1, "b"}, {2, "a"}};
            auto& o = one[op - 3];
            vx::note("train %s from set %d", o.second, o.first);
            auto s = build_set(SETS[o.first], r.sh);
            m.train(s->ts.get(), o.second);
            r.cls[o.second] = SETS[o.first].at(o.second);
            r.fresh = true;
        } else if (op < 8) {
            std::string l = op == 6 ? "a" : "b";
            vx::note("remove %s", l.c_str());
            bool has = r.cls.count(l);
            if (has && d % 2)  // a reference to the stored label
                m.removeClass(m.models.find(l)->first);
            else
                VX_CHECK(vx::throws([&] { m.removeClass(l); }) == !has, "removing %s", l.c_str());
            r.cls.erase(l);
            if (has) r.fresh = true;
        } else if (op == 8) {
            vx::note("clear");
            m.clear();
            r.cls.clear();
            r.fresh = true;
        } else if (op == 9) {
            vx::note("reset");
            m.reset();
            r.fresh = true;
        } else if (op == 10) {
            vx::note("load a document");
            m.fromJson(doc);
            r.cls = doc_classes;
            r.fresh = true;
        } else if (op == 11) {
            vx::note("filter");
            if (!r.fresh) m.reset(), r.fresh = true;
            r.filter();
        } else if (op == 12) {
            vx::note("invalid calls");
            auto s = build_set(SETS[1], r.sh);
            r.refuse("removing an absent class", [&] { m.removeClass("zz"); });
            r.refuse("training an absent class", [&] { m.train(s->ts.get(), "zz"); });
            r.refuse("training an absent class", [&] { m.train(s->ts.get(), ""); });
            m.train((xmm::TrainingSet*)nullptr);
            m.train((xmm::TrainingSet*)nullptr, "a");
            xmm::TrainingSet empty(xmm::MemoryMode::OwnMemory, r.sh.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            empty.dimension.set(r.sh.dim);
            m.train(&empty);
            r.refuse("training a class of an empty set", [&] { m.train(&empty, "a"); });
            m.cancelTraining();
            m.cancelTraining("a");
            m.cancelTraining("zz");
        } else {
            vx::note("training sets of other dimensions");
            if (r.cls.empty()) throw vx::Prune();
            Shape o = r.sh;
            o.dim++;
            auto s = build_set(SETS[1], o);
            r.refuse("training one class in another dimension", [&] { m.train(s->ts.get(), "b"); });
            if (r.sh.bi) {
                o = {true, r.sh.dim + 1, r.sh.din};
                auto s2 = build_set(SETS[1], o);
                r.refuse("training one class in another dimension", [&] { m.train(s2->ts.get(), "b"); });
                Shape u = {false, r.sh.dim, 0};
                auto s3 = build_set(SETS[1], u);
                r.refuse("training a bimodal model with a unimodal set", [&] { m.train(s3->ts.get()); });
                r.refuse("training a bimodal model with a unimodal set", [&] { m.train(s3->ts.get(), "b"); });
            }
        }
        r.check("after the operation");
    }
    if (!r.fresh) r.m->reset(), r.fresh = true;
    r.filter();
    r.check("at the end");
}
}  // namespace

VX_SCENARIO_SPLIT(histories, 4) {
    static const int SOME[] = {0, 5, 6, 3, 1, 4};
    Kind k = kinds()[SOME[vx::pick(vx::tier(2, 6))]];
    with_kind(k, [&](auto* t) { history<typename std::remove_pointer<decltype(t)>::type>(k, vx::tier(4, 5)); });
}
VX_SCENARIO_SPLIT(more_kinds, 3) {
    static const int SOME[] = {3, 6, 2, 8, 10, 11};
    Kind k = kinds()[SOME[vx::pick(vx::tier(3, 6))]];
    with_kind(k, [&](auto* t) { history<typename std::remove_pointer<decltype(t)>::type>(k, vx::tier(3, 4)); });
}
VX_SCENARIO_SPLIT(all_kinds, 3) {
    Kind k = kinds()[vx::pick(kinds().size())];
    with_kind(k, [&](auto* t) { history<typename std::remove_pointer<decltype(t)>::type>(k, vx::tier(2, 3)); });
}
// histories of a model of five classes
VX_SCENARIO_SPLIT(wide, 3) {
    static const int SOME[] = {0, 5, 8, 3, 6, 1, 10, 11};
    Kind k = kinds()[SOME[vx::pick(vx::tier(4, 8))]];
    static const char* const L[] = {"", "B", "b", "bb", "\xc3\xa9 1"};
    with_kind(k, [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        Run<M> r;
        r.k = k;
        r.sh = shape(k);
        r.m.reset(new M(r.sh.bi));
        r.config(*r.m);
        vx::note("%s", name(k).c_str());
        Classes all;
        for (int i = 0; i < 5; i++) all[L[i]] = i % 3;
        {
            auto s = build_set(all, r.sh);
            r.m->train(s->ts.get());
        }
        r.cls = all;
        r.check("after training");
        int depth = vx::tier(3, 4);
        for (int d = 0; d < depth; d++) {
            int op = vx::pick(12);
            vx::step();
            if (op < 5) {
                vx::note("remove class %d", op);
                bool has = r.cls.count(L[op]);
                VX_CHECK(vx::throws([&] { r.m->removeClass(L[op]); }) == !has, "removing class %d", op);
                r.cls.erase(L[op]);
                if (has) r.fresh = true;
            } else if (op < 10) {
                vx::note("train class %d", op - 5);
                int data = (all[L[op - 5]] + 1 + d) % 3;
                auto s = build_set({{L[op - 5], data}, {"other", 0}}, r.sh);
                r.m->train(s->ts.get(), L[op - 5]);
                r.cls[L[op - 5]] = data;
                r.fresh = true;
            } else if (op == 10) {
                vx::note("filter");
                if (!r.fresh) r.m->reset(), r.fresh = true;
                r.filter();
            } else {
                vx::note("reload");
                Json::Value doc = r.m->toJson();
                r.m->fromJson(doc);
                r.fresh = true;
            }
            r.check("after the operation");
        }
        if (!r.fresh) r.m->reset(), r.fresh = true;
        r.filter();
    });
}
