// C17: trained parameters depend only on the class's data and configuration
#include "model_history.hpp"
using namespace ref;

namespace {
const std::vector<Classes> SETS = {{{"a", 0}, {"b", 1}}, {{"a", 0}}, {{"b", 2}, {"c", 1}}, {{"a", 2}, {"b", 0}, {"c", 1}}};
template <class M>
void own_settings(M& m);
template <>
void own_settings(xmm::GMM& m) {
    auto& p = m.configuration["b"];
    p.gaussians.set(3);
    p.covariance_mode.set(covmode(true));
    p.relative_regularization.set(0.1);
}
template <>
void own_settings(xmm::HierarchicalHMM& m) {
    auto& p = m.configuration["b"];
    p.states.set(3);
    p.covariance_mode.set(covmode(true));
    p.transition_mode.set(xmm::HMM::TransitionMode::LeftRight);
    p.absolute_regularization.set(0.1);
}
template <class M>
struct Run {
    Kind k;
    bool own;
    Shape sh;
    std::unique_ptr<M> m;
    Classes cls;
    int variant = 0;

    void config(M& x) const {
        configure_all(x, k, 3);
        if (own) own_settings(x);
    }
    std::string key() const { return name(k) + (own ? "/own" : ""); }
    void check(const char* who) {
        check_classes(*m, cls, who);
        for (auto& c : cls)
            equal(class_params(m->models[c.first]),
                  standalone<M>(key(), c.first, c.second, sh, [this](M& x) { config(x); }), who, 1e-6, 1e-9);
        vx::state(hash_classes(cls));
    }
    void train(int s) {
        vx::note("train set %d, order %d", s, variant);
        auto set = build_set(SETS[s], sh, variant);
        uint64_t h = set_hash(*set->ts);
        m->train(set->ts.get());
        wait_trained(*m);
        vx::step();
        VX_CHECK(set_hash(*set->ts) == h, "training changed the training set");
        set.reset();
        cls = SETS[s];
        check("after training a set");
    }
    void train(int s, std::string const& l) {
        vx::note("train %s from set %d, order %d", l.c_str(), s, variant);
        auto set = build_set(SETS[s], sh, variant);
        uint64_t h = set_hash(*set->ts);
        bool has = SETS[s].count(l);
        bool thrown = vx::throws([&] { m->train(set->ts.get(), l); });
        wait_trained(*m);
        vx::step();
        VX_CHECK(thrown == !has, "training an %s class %s", has ? "existing" : "absent", thrown ? "is refused" : "is accepted");
        VX_CHECK(set_hash(*set->ts) == h, "training changed the training set");
        set.reset();
        if (has) cls[l] = SETS[s].at(l);
        check("after training a class");
    }
};
template <class M>
void history(Kind k, int depth, bool modes) {
    Run<M> r;
    r.k = k;
    r.own = vx::pick(2);
    r.sh = shape(k);
    int mode = modes ? vx::pick(3) : 0;
    r.m.reset(new M(r.sh.bi));
    r.config(*r.m);
    r.m->configuration.multithreading = (xmm::MultithreadingMode)mode;
    vx::note("%s%s, mode %d", name(k).c_str(), r.own ? ", own settings for b" : "", mode);
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(4 + 4 + 3 + (modes ? 0 : 2));
        r.variant = (r.variant + op + d) % 3;
        static const std::pair<int, const char*> one[] = {{0, "b"}, {2, "b"}, {3, "a"}, {1, "c"}};
        if (op < 4)
            r.train(op);
        else if (op < 8)
            r.train(one[op - 4].first, one[op - 4].second);
        else if (op == 8) {
            vx::note("remove b");
            bool has = r.cls.count("b");
            VX_CHECK(vx::throws([&] { r.m->removeClass("b"); }) == !has, "removing b");
            r.cls.erase("b");
            r.check("after removing b");
        } else if (op == 9) {
            vx::note("clear");
            r.m->clear();
            r.cls.clear();
            r.check("after clearing");
        } else if (op == 10) {
            vx::note("filter some frames");
            if (r.cls.empty()) throw vx::Prune();
            for (int i = 0; i < 3; i++) r.m->filter(frame(r.sh, i));
            r.check("after filtering");
        } else if (op == 11) {
            vx::note("copy");
            std::unique_ptr<M> c(new M(*r.m));
            r.m = std::move(c);
            r.check("after a copy");
        } else {
            vx::note("reload");
            std::unique_ptr<M> c(new M(r.sh.bi));
            c->fromJson(r.m->toJson());
            r.m = std::move(c);
            // the class is equal up to serialisation: continue with exact values
            check_classes(*r.m, r.cls, "after a reload");
        }
    }
}
const int SOME[] = {0, 3, 5, 8, 1, 6, 4, 10};
}  // namespace

VX_SCENARIO_SPLIT(sequential, 4) {
    Kind k = kinds()[SOME[vx::pick(8)]];
    with_kind(k, [&](auto* t) { history<typename std::remove_pointer<decltype(t)>::type>(k, vx::tier(3, 4), false); });
}
VX_SCENARIO_SPLIT(threads, 4) {
    Kind k = kinds()[SOME[vx::pick(vx::tier(4, 8))]];
    with_kind(k, [&](auto* t) { history<typename std::remove_pointer<decltype(t)>::type>(k, vx::tier(3, 4), true); });
}
// every model kind: each class of each set, in every order of insertion, with every mode
VX_SCENARIO_SPLIT(once, 3) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int mode = vx::pick(3), set = vx::pick(SETS.size()), variant = vx::pick(3);
    bool own = vx::pick(2);
    with_kind(k, [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        Run<M> r;
        r.k = k;
        r.own = own;
        r.sh = shape(k);
        r.m.reset(new M(r.sh.bi));
        r.config(*r.m);
        r.m->configuration.multithreading = (xmm::MultithreadingMode)mode;
        r.variant = variant;
        vx::note("%s, mode %d", name(k).c_str(), mode);
        r.train(set);
        r.variant = (variant + 1) % 3;
        r.train(set);
    });
}
// five classes, with unusual labels, then one of them again, removed, or other classes
VX_SCENARIO_SPLIT(wide, 4) {
    Kind k = kinds()[SOME[vx::pick(8)]];
    int mode = vx::pick(3), variant = vx::pick(3), how = vx::pick(11);
    bool own = vx::pick(2);
    static const char* const L[] = {"", "B", "b", "bb", "\xc3\xa9 1"};
    with_kind(k, [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        Run<M> r;
        r.k = k;
        r.own = own;
        r.sh = shape(k);
        r.m.reset(new M(r.sh.bi));
        r.config(*r.m);
        r.m->configuration.multithreading = (xmm::MultithreadingMode)mode;
        vx::note("%s%s, mode %d, order %d", name(k).c_str(), own ? ", own settings for b" : "", mode, variant);
        auto train = [&](Classes const& c, const char* one) {
            auto set = build_set(c, r.sh, variant);
            uint64_t h = set_hash(*set->ts);
            if (one)
                r.m->train(set->ts.get(), one);
            else
                r.m->train(set->ts.get());
            wait_trained(*r.m);
            vx::step();
            VX_CHECK(set_hash(*set->ts) == h, "training changed the training set");
            set.reset();
            if (one)
                r.cls[one] = c.at(one);
            else
                r.cls = c;
            r.check("after training");
        };
        Classes all;
        for (int i = 0; i < 5; i++) all[L[i]] = (i * 2 + 1) % 4;
        train(all, nullptr);
        if (how < 5) {
            vx::note("class %d again with other data", how);
            Classes c = all;
            for (auto& x : c) x.second = 3 - x.second;
            train(c, L[how]);
        } else if (how < 10) {
            vx::note("class %d removed", how - 5);
            r.m->removeClass(L[how - 5]);
            r.cls.erase(L[how - 5]);
            r.check("after removing");
            Classes c = all;
            c[L[how - 5]] = 0;
            train(c, L[how - 5]);
        } else {
            vx::note("other classes");
            train({{"b", 0}, {"c", 1}, {"d", 2}, {"e", 3}}, nullptr);
        }
    });
}
