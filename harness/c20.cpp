// C20: reset forgets the frames filtered before
#include "model_history.hpp"
using namespace ref;

namespace {
template <class M>
void run(Kind const& k, int ncls, int depth, int nframes, bool reloads) {
    Shape sh = shape(k);
    auto lab = labels(ncls);
    Set s(sh.bi, sh.dim, sh.din);
    fill(s, lab, 5);
    M m(k.bi);
    configure_all(m, k);
    m.shared_parameters->likelihood_window.set(2);
    m.train(&s);
    vx::note("%s, %d classes, trained", name(k).c_str(), ncls);
    const Json::Value doc = m.toJson();
    Snap p0 = params(m);
    const M pristine(doc);
    std::unique_ptr<M> fresh(new M(pristine));  // has received the frames since the last reset
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(nframes + 2 + (reloads ? 2 : 0));
        vx::step();
        if (op < nframes) {
            vx::note("filter frame %d", op);
            m.filter(frame(sh, op));
            fresh->filter(frame(sh, op));
            Snap r = results(m);
            equal(r, results(*fresh), "results compared with a freshly loaded model", 1e-6, 1e-9);
            vx::state(hash(r));
        } else if (op == nframes) {
            vx::note("reset");
            m.reset();
            fresh.reset(new M(pristine));
        } else if (op == nframes + 1) {
            vx::note("reset twice");
            m.reset();
            m.reset();
            fresh.reset(new M(pristine));
        } else if (op == nframes + 2) {
            vx::note("train again");
            m.train(&s);
            fresh.reset(new M(pristine));
        } else {
            vx::note("load the document of the trained model");
            m.fromJson(doc);
            fresh.reset(new M(pristine));
        }
    }
    equal(params(m), p0, "parameters after filtering", 1e-9, 1e-12);
    // the same frames after a reset give identical results
    m.reset();
    Snap a[2];
    for (int r = 0; r < 2; r++) {
        for (int i = 0; i < 3; i++) m.filter(frame(sh, (i * 2 + 1) % 3));
        a[r] = results(m);
        m.reset();
    }
    equal(a[1], a[0], "results of the same frames after a reset");
    equal(params(m), p0, "parameters after filtering", 1e-9, 1e-12);
    Snap c0 = configuration(m, lab);
    M other(doc);
    equal(configuration(other, lab), c0, "configuration after filtering", 1e-12);
}
}  // namespace

VX_SCENARIO_SPLIT(filter_reset, 4) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int ncls = 1 + vx::pick(2);
    with_kind(k, [&](auto* t) { run<typename std::remove_pointer<decltype(t)>::type>(k, ncls, vx::tier(5, 7), 3, false); });
}
VX_SCENARIO_SPLIT(train_load, 4) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int ncls = 1 + vx::pick(3);
    with_kind(k, [&](auto* t) { run<typename std::remove_pointer<decltype(t)>::type>(k, ncls, vx::tier(4, 5), 2, true); });
}
// four or five classes in up to six dimensions, longer sequences and windows, a reset after any frame
VX_SCENARIO_SPLIT(wide, 4) {
    Kind k = kinds()[vx::pick(kinds().size())];
    int i = vx::pick(2), v = vx::pick(vx::tier(3, 6)), ncls = 5 - v % 2;
    int p = vx::pick(4), q = vx::pick(vx::tier(2, 4)), at = vx::pick(10), twice = vx::pick(2);
    with_kind(k, [&](auto* t) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        Shape sh = big_shape(k, i);
        auto m = big_copy<M>(k, i, ncls, v);
        vx::note("%s, dimension %d/%d, %d classes, variant %d, frames %d up to %d, then frames %d", name(k).c_str(), sh.dim, sh.din, ncls, v, p, at, q);
        static std::map<std::string, std::unique_ptr<const M>> cache;
        auto& pristine = cache[name(k) + std::to_string(i) + "/" + std::to_string(v)];
        if (!pristine) pristine.reset(new M(m->toJson()));
        M fresh(*pristine);
        Snap p0 = params(*m);
        m->reset();
        for (int f = 0; f < at; f++) m->filter(frame(sh, pattern(p, f))), vx::step();
        m->reset();
        if (twice) m->reset();
        for (int f = 0; f < 8; f++) {
            m->filter(frame(sh, pattern(q, f)));
            fresh.filter(frame(sh, pattern(q, f)));
            vx::step(2);
            Snap r = results(*m);
            equal(r, results(fresh), "results compared with a freshly loaded model", 1e-5, 1e-7);
            vx::state(hash(r));
        }
        equal(params(*m), p0, "parameters after filtering", 1e-9, 1e-12);
    });
}
