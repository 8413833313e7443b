// C12: smoothing of the likelihoods over the last frames since reset
#include "model_build.hpp"
using namespace ref;

namespace {
// frames received since the last reset, and the window lengths that may apply
struct Track {
    std::vector<std::string> lab;
    std::vector<Smooth> sm;
    std::vector<int> windows;
    void reset(int w) {
        sm.assign(lab.size(), Smooth());
        windows.assign(1, w);
    }
    double expected(size_t i, double got) const {
        double e = sm[i].mean(windows[0]);
        for (int w : windows)
            if (vx::near(got, sm[i].mean(w), 1e-9, 1e-9)) e = sm[i].mean(w);
        return e;
    }
};
template <class M>
void run(M& m, Shape sh, int ncls, int w) {
    Track t;
    t.lab = labels(ncls);
    t.reset(w);
    int depth = vx::tier(5, 6);
    int nwin = 4;
    for (int d = 0; d < depth; d++) {
        int op = vx::pick(3 + nwin);
        vx::step();
        if (op < 2) {
            vx::note("filter frame %d", op);
            m.filter(frame(sh, op));
            V inst, smo;
            vx::Hash hs;
            hs.add(t.windows[0]).add(t.windows.back());
            for (size_t i = 0; i < t.lab.size(); i++) {
                auto& r = m.models[t.lab[i]].results;
                VX_CHECK(std::isfinite(r.instant_likelihood) && r.instant_likelihood > 0, "instantaneous likelihood %g", r.instant_likelihood);
                t.sm[i].push(r.instant_likelihood);
                inst.push_back(r.instant_likelihood);
                smo.push_back(t.expected(i, r.log_likelihood));
                VX_NEAR(r.log_likelihood, smo.back(), 1e-9, 1e-9, "smoothed log-likelihood of %s over %zu frames, window %d", t.lab[i].c_str(),
                        t.sm[i].logs.size(), t.windows[0]);
                hs.addf(smo.back()).add(t.sm[i].logs.size());
            }
            check_results(m.results, t.lab, inst, smo);
            vx::state(hs.h);
        } else if (op == 2) {
            vx::note("reset");
            m.reset();
            t.reset(w);
        } else {
            w = op - 2;
            vx::note("set the window to %d", w);
            m.shared_parameters->likelihood_window.set(w);
            t.windows.push_back(w);
        }
    }
}
template <class M>
void small(M& m, Shape sh, int ncls, int w) {
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.shared_parameters->em_algorithm_min_iterations.set(1);
    m.shared_parameters->em_algorithm_max_iterations.set(1);
    m.shared_parameters->likelihood_window.set(w);
    Set s(sh.bi, sh.dim, sh.din);
    fill(s, labels(ncls));
    m.train(&s);
}
}  // namespace

VX_SCENARIO_SPLIT(gmm, 3) {
    int ncls = 1 + vx::pick(2), w = 1 + vx::pick(3);
    Shape sh = shapes()[0];
    vx::note("GMM, %d classes, window %d", ncls, w);
    xmm::GMM m;
    m.configuration.gaussians.set(1);
    small(m, sh, ncls, w);
    run(m, sh, ncls, w);
}
VX_SCENARIO_SPLIT(hmm, 3) {
    bool hier = vx::pick(2), erg = vx::pick(2);
    int ncls = 1 + vx::pick(2), w = vx::thorough() ? 1 + vx::pick(3) : 2;
    Shape sh = shapes()[0];
    vx::note("%s HMM, %d classes, window %d", hier ? "hierarchical" : "non-hierarchical", ncls, w);
    xmm::HierarchicalHMM m;
    m.configuration.states.set(2);
    m.configuration.hierarchical.set(hier);
    m.configuration.transition_mode.set(erg ? xmm::HMM::TransitionMode::Ergodic : xmm::HMM::TransitionMode::LeftRight);
    small(m, sh, ncls, w);
    run(m, sh, ncls, w);
}
// the mode of an HMM changes between resets, as does the window
VX_SCENARIO_SPLIT(mode, 3) {
    Shape sh = shapes()[vx::pick(2) * 2];
    bool hier = vx::pick(2);
    int w = 2, ncls = 2;
    xmm::HierarchicalHMM m(sh.bi);
    m.configuration.states.set(2);
    m.configuration.hierarchical.set(hier);
    small(m, sh, ncls, w);
    Track t;
    t.lab = labels(ncls);
    t.reset(w);
    for (int d = 0; d < vx::tier(6, 7); d++) {
        int op = vx::pick(5);
        vx::step();
        if (op < 2) {
            vx::note("filter frame %d", op);
            m.filter(frame(sh, op));
            V inst, smo;
            for (size_t i = 0; i < t.lab.size(); i++) {
                auto& r = m.models[t.lab[i]].results;
                t.sm[i].push(r.instant_likelihood);
                inst.push_back(r.instant_likelihood);
                smo.push_back(t.expected(i, r.log_likelihood));
                VX_NEAR(r.log_likelihood, smo.back(), 1e-9, 1e-9, "smoothed log-likelihood of %s over %zu frames, window %d", t.lab[i].c_str(),
                        t.sm[i].logs.size(), t.windows[0]);
            }
            check_results(m.results, t.lab, inst, smo);
        } else if (op == 2) {
            vx::note("reset");
            m.reset();
            t.reset(w);
        } else if (op == 3) {
            hier = !hier;
            vx::note("set hierarchical to %d", hier);
            m.configuration.hierarchical.set(hier);
        } else {
            w = 5 - w;
            vx::note("set the window to %d", w);
            m.shared_parameters->likelihood_window.set(w);
            t.windows.push_back(w);
        }
    }
}
// single classes filter by themselves
VX_SCENARIO_SPLIT(single, 3) {
    int kind = vx::pick(3), w = 1 + vx::pick(3);
    Shape sh = shapes()[vx::pick(2) * 2];
    vx::note("single class, kind %d, window %d", kind, w);
    xmm::GMM g(sh.bi);
    xmm::HierarchicalHMM h(sh.bi);
    g.configuration.gaussians.set(1);
    h.configuration.states.set(2);
    h.configuration.hierarchical.set(false);
    std::unique_ptr<xmm::SingleClassGMM> cg;
    std::unique_ptr<xmm::SingleClassHMM> ch;
    std::shared_ptr<xmm::SharedParameters> sp;
    if (kind != 1) {
        small(g, sh, 1, w);
        cg.reset(new xmm::SingleClassGMM(g.models["a"]));
        sp = cg->shared_parameters;
    } else {
        small(h, sh, 1, w);
        ch.reset(new xmm::SingleClassHMM(h.models["a"]));
        sp = ch->shared_parameters;
    }
    if (kind == 2) *cg = xmm::SingleClassGMM(*cg);
    Track t;
    t.lab = {"a"};
    t.reset(w);
    for (int d = 0; d < vx::tier(6, 7); d++) {
        int op = vx::pick(4);
        vx::step();
        if (op < 2) {
            vx::note("filter frame %d", op);
            double l = ch ? ch->filter(frame(sh, op)) : cg->filter(frame(sh, op));
            double inst = ch ? ch->results.instant_likelihood : cg->results.instant_likelihood;
            double got = ch ? ch->results.log_likelihood : cg->results.log_likelihood;
            VX_NEAR(l, inst, 1e-12, 0, "value returned by filter");
            t.sm[0].push(inst);
            VX_NEAR(got, t.expected(0, got), 1e-9, 1e-9, "smoothed log-likelihood over %zu frames, window %d", t.sm[0].logs.size(), t.windows[0]);
        } else if (op == 2) {
            vx::note("reset");
            ch ? ch->reset() : cg->reset();
            t.reset(w);
        } else {
            w = 5 - w;
            vx::note("set the window to %d", w);
            sp->likelihood_window.set(w);
            t.windows.push_back(w);
        }
    }
}

// long windows: every length up to 12 over every number of frames, twice
VX_SCENARIO_SPLIT(longwindow, 3) {
    int kind = vx::pick(3), w = 1 + vx::pick(12), w2 = 1 + vx::pick(12), pattern = vx::pick(3);
    Shape sh = shapes()[0];
    vx::note("kind %d, window %d then %d, pattern %d", kind, w, w2, pattern);
    xmm::GMM g;
    xmm::HierarchicalHMM h;
    g.configuration.gaussians.set(1);
    h.configuration.states.set(2);
    h.configuration.hierarchical.set(kind == 1);
    if (kind == 0)
        small(g, sh, 2, w);
    else
        small(h, sh, 2, w);
    Track t;
    t.lab = labels(2);
    for (int run = 0; run < 2; run++) {
        t.reset(run ? w2 : w);
        if (run) {
            if (kind == 0) {
                g.shared_parameters->likelihood_window.set(w2);
                g.reset();
            } else {
                h.shared_parameters->likelihood_window.set(w2);
                h.reset();
            }
        }
        for (int i = 0; i < 30; i++) {
            auto f = frame(sh, pattern == 0 ? i % 3 : pattern == 1 ? (i * i) % 5 % 3 : (i / 4) % 3);
            if (kind == 0)
                g.filter(f);
            else
                h.filter(f);
            vx::step();
            for (int k = 0; k < 2; k++) {
                double inst = kind == 0 ? g.models[t.lab[k]].results.instant_likelihood : h.models[t.lab[k]].results.instant_likelihood;
                double got = kind == 0 ? g.models[t.lab[k]].results.log_likelihood : h.models[t.lab[k]].results.log_likelihood;
                t.sm[k].push(inst);
                VX_NEAR(got, t.sm[k].mean(t.windows[0]), 1e-9, 1e-9, "smoothed log-likelihood after %d frames, window %d", i + 1, t.windows[0]);
            }
        }
    }
}

// the buffer that holds the window: all histories of pushes, clears, resizes and copies
namespace {
template <unsigned int N>
void circular() {
    typedef xmm::CircularBuffer<double, N> Buf;
    int len = 1 + vx::pick(3);
    Buf b = len == 1 && vx::pick(2) ? Buf() : Buf(len);
    std::vector<std::vector<double>> cur;  // what the buffer may hold, oldest first
    bool exact = true;                     // not since a change of the length
    size_t since = 0;
    int v = 0;
    auto check = [&](Buf const& x, const char* what) {
        VX_CHECK(x.size() == (unsigned)len, "%s: length %u for %d", what, x.size(), len);
        size_t n = x.size_t();
        VX_CHECK(n <= (size_t)len, "%s: holds %zu of %d elements", what, n, len);
        if (exact) VX_CHECK(n == cur.size(), "%s: holds %zu elements for %zu", what, n, cur.size());
        std::vector<std::vector<double>> got;
        for (size_t i = 0; i < n; i++) {
            std::vector<double> e;
            for (unsigned c = 0; c < N; c++) e.push_back(x(c, i));
            got.push_back(e);
        }
        auto want = cur;
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (exact)
            VX_CHECK(got == want, "%s: other elements than the last ones pushed", what);
        else {
            VX_CHECK(std::includes(want.begin(), want.end(), got.begin(), got.end()), "%s: an element that was not pushed or had left", what);
            for (size_t i = 0; i < since; i++) {
                auto& e = cur[cur.size() - 1 - i];
                VX_CHECK(std::find(got.begin(), got.end(), e) != got.end(), "%s: an element pushed since is missing", what);
            }
        }
        if (n) {
            auto mean = x.mean();
            VX_CHECK(mean.size() == N, "%s: %zu means", what, mean.size());
            for (unsigned c = 0; c < N; c++) {
                double s = 0;
                for (auto& e : got) s += e[c];
                VX_NEAR(mean[c], s / n, 1e-12, 1e-12, "%s: mean of channel %u", what, c);
            }
        }
        bool refused = false;
        try {
            x(0, n);
        } catch (std::out_of_range&) {
            refused = true;
        }
        VX_CHECK(refused, "%s: access beyond the %zu elements", what, n);
        refused = false;
        try {
            x(N, 0);
        } catch (std::out_of_range&) {
            refused = true;
        }
        VX_CHECK(refused, "%s: access to a missing channel", what);
    };
    check(b, "new buffer");
    for (int d = 0; d < vx::tier(6, 7); d++) {
        int op = vx::pick(6);
        vx::step();
        if (op == 0) {
            vx::note("push");
            std::vector<double> e;
            v++;
            for (unsigned c = 0; c < N; c++) e.push_back(v * v + 100. * c);
            if (N > 1) {
                bool refused = false;
                try {
                    b.push(e[0]);
                } catch (std::invalid_argument&) {
                    refused = true;
                }
                VX_CHECK(refused, "a single value pushed to %u channels", N);
                if (v % 2)
                    b.push(e);
                else
                    b.push(e.data());
            } else if (v % 3 == 0)
                b.push(e);
            else if (v % 3 == 1)
                b.push(e.data());
            else
                b.push(e[0]);
            cur.push_back(e);
            since++;
            if (since >= (size_t)len) exact = true;
            if (cur.size() > (size_t)len) {
                if (exact) cur.erase(cur.begin(), cur.end() - len);
            }
            since = std::min(since, (size_t)len);
        } else if (op == 1) {
            vx::note("clear");
            b.clear();
            cur.clear();
            since = 0;
            exact = true;
        } else if (op == 2) {
            vx::note("copy");
            Buf c(b);
            check(c, "copy");
            b.push(std::vector<double>(N, -1.));
            check(c, "copy after the original changed");
            b = c;
        } else {
            int l = op - 2;
            vx::note("resize to %d", l);
            if (l != len) {
                len = l;
                exact = false;
                since = 0;
            }
            b.resize(l);
        }
        check(b, "buffer");
        vx::Hash h;
        h.add(len).add(cur.size()).add(exact).add(since);
        vx::state(h.h);
    }
}
}  // namespace
VX_SCENARIO_SPLIT(circularbuffer1, 3) { circular<1>(); }
VX_SCENARIO_SPLIT(circularbuffer2, 3) { circular<2>(); }
