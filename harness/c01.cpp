// C01: a phrase is exactly the ordered frames recorded since its last clear
#include "phrase_model.hpp"
using namespace pm;

static void menu(std::vector<std::pair<Op, int>>& v, bool bimodal) {
    v = {{REC, 0}, {CLEAR, 0}, {CLEAR_IN, 0}, {CLEAR_OUT, 0}, {DIM, 3}, {DIM, 2},
         {REC_BAD, 1}, {LABEL, 0}};
    if (bimodal) {
        v.insert(v.begin() + 1, {REC_IN, 0});
        v.insert(v.begin() + 2, {REC_OUT, 0});
        v.push_back({DIN, 2});
        v.push_back({DIN, 1});
        v.push_back({RECIN_BAD, 1});
        v.push_back({RECOUT_BAD, 1});
    }
}
static std::unique_ptr<xmm::Phrase> fresh(Model& m, bool bimodal, bool shared) {
    m.bimodal = bimodal;
    m.own = !shared;
    m.dim = bimodal ? 2 : 1;
    m.din = bimodal ? 1 : 0;
    return std::unique_ptr<xmm::Phrase>(
        new xmm::Phrase(shared ? xmm::MemoryMode::SharedMemory
                               : xmm::MemoryMode::OwnMemory,
                        bimodal ? xmm::Multimodality::Bimodal
                                : xmm::Multimodality::Unimodal));
}

// every sequence of operations
VX_SCENARIO_LEAK(histories) {
    bool bimodal = vx::pick(2);
    Model m;
    auto p = fresh(m, bimodal, false);
    vx::note("phrase %s, own memory", bimodal ? "bimodal" : "unimodal");
    Counter c;
    std::vector<std::pair<Op, int>> ops;
    menu(ops, bimodal);
    compare(*p, m, "initial");
    int depth = bimodal ? vx::tier(5, 6) : vx::tier(6, 7);
    for (int i = 0; i < depth; i++) {
        auto o = ops[vx::pick((int)ops.size())];
        apply(*p, m, o.first, o.second, c);
        compare(*p, m, "phrase", false, i == depth - 1);
        vx::state(m.hash());
    }
}
// refusals from every short state
VX_SCENARIO(refusals) {
    bool bimodal = vx::pick(2), shared = vx::pick(2);
    Model m;
    auto p = fresh(m, bimodal, shared);
    Counter c;
    float buf[64] = {0};
    std::vector<std::pair<Op, int>> pre = {{REC, 0}, {REC_IN, 0}, {REC_OUT, 0},
                                           {DIM, 3}, {LABEL, 1}, {DIM, 2},
                                           {CLEAR_IN, 0}};
    if (shared && vx::pick(2)) {
        if (bimodal)
            p->connect(buf, buf + 20, 2);
        else
            p->connect(buf, 2);
        m.in.assign(2, Frame(m.indim(), 0.f));
        m.out.assign(2, Frame(m.outdim(), 0.f));
        vx::note("connected");
    }
    int n = vx::pick(vx::tier(4, 5));
    for (int i = 0; i < n; i++) {
        auto o = pre[vx::pick((int)pre.size())];
        apply(*p, m, o.first, o.second, c);
    }
    std::vector<std::pair<Op, int>> bad = {
        {REC_BAD, 1}, {REC_BAD, -1}, {RECIN_BAD, 1}, {RECOUT_BAD, 1},
        {RECIN_BAD, -1}, {DIM, 0}, {DIN, 0}, {DIN, 5}, {CONNECT_BAD, 0},
        {DIM, 1}, {DIN, 3}, {DIN, 2}};
    auto o = bad[vx::pick((int)bad.size())];
    apply(*p, m, o.first, o.second, c);
    compare(*p, m, "after refused call");
    if (shared) {  // wrong connect calls
        vx::note("connect of the other kind");
        if (bimodal)
            VX_CHECK(vx::throws([&] { p->connect(buf, 1); }), "connect(one)");
        else
            VX_CHECK(vx::throws([&] { p->connect(buf, buf, 1); }) &&
                         vx::throws([&] { p->connect_input(buf, 1); }) &&
                         vx::throws([&] { p->connect_output(buf, 1); }),
                     "connect(two)");
        compare(*p, m, "after refused connect");
    }
    vx::state(m.hash());
}
// growth: bulk recordings over the storage boundaries
VX_SCENARIO(growth) {
    bool bimodal = vx::pick(2);
    Model m;
    auto p = fresh(m, bimodal, false);
    Counter c;
    apply(*p, m, DIM, 2 + vx::pick(2), c);
    if (bimodal && m.dim == 3) apply(*p, m, DIN, 1 + vx::pick(2), c);
    static const int sizes[] = {1, 255, 256, 257, 513};
    int depth = vx::tier(3, 4);
    int nk = bimodal ? 5 : 3;
    for (int i = 0; i < depth; i++) {
        int k = vx::pick(nk);
        if (k == 1) {
            apply(*p, m, CLEAR, 0, c);
        } else if (k == 2) {
            apply(*p, m, CLEAR_IN, 0, c);
        } else {
            int n = sizes[vx::pick(5)];
            Op o = k == 0 ? REC : k == 3 ? REC_IN : REC_OUT;
            bool v = vx::verbose();
            vx::note("%d times:", n);
            for (int j = 0; j < n; j++) {
                if (v && j == 1) vx::note("...");
                apply(*p, m, o, 0, c);
            }
        }
        compare(*p, m, "phrase", true);
    }
    compare(*p, m, "phrase");
    vx::state(m.hash());
}
// shared memory: sizes and values follow the connected arrays
VX_SCENARIO_LEAK(shared_memory) {
    bool bimodal = vx::pick(2);
    Model m;
    auto p = fresh(m, bimodal, true);
    vx::note("shared phrase %s", bimodal ? "bimodal" : "unimodal");
    // exact-size user buffers; contents are absolute positions
    std::vector<std::unique_ptr<float[]>> bufs;
    std::vector<std::pair<float*, std::vector<float>>> shadow;
    auto mk = [&](unsigned n) {
        bufs.emplace_back(new float[n]);
        std::vector<float> v(n);
        for (unsigned i = 0; i < n; i++)
            bufs.back()[i] = v[i] = 100.f * bufs.size() + i;
        shadow.push_back({bufs.back().get(), v});
        return bufs.back().get();
    };
    auto rows = [](float* b, unsigned n, unsigned d) {
        std::vector<Frame> r;
        for (unsigned i = 0; i < n; i++) r.push_back(Frame(b + i * d, b + i * d + d));
        return r;
    };
    Counter c;
    int depth = vx::tier(4, 5);
    for (int i = 0; i < depth; i++) {
        int k = vx::pick(bimodal ? 8 : 6);
        switch (k) {
            case 0:
            case 6:
            case 7: {
                unsigned n = vx::pick(3);
                vx::step();
                if (!bimodal) {
                    float* b = mk(n * m.dim);
                    vx::note("connect(%u)", n);
                    p->connect(b, n);
                    m.in = rows(b, n, m.dim);
                } else if (k == 0) {
                    float *a = mk(n * m.din), *b = mk(n * m.outdim());
                    vx::note("connect(%u,%u)", n, n);
                    p->connect(a, b, n);
                    m.in = rows(a, n, m.din);
                    m.out = rows(b, n, m.outdim());
                } else if (k == 6) {
                    float* a = mk(n * m.din);
                    vx::note("connect_input(%u)", n);
                    p->connect_input(a, n);
                    m.in = rows(a, n, m.din);
                } else {
                    float* b = mk(n * m.outdim());
                    vx::note("connect_output(%u)", n);
                    p->connect_output(b, n);
                    m.out = rows(b, n, m.outdim());
                }
                break;
            }
            case 1:
                vx::note("disconnect");
                vx::step();
                p->disconnect();
                m.wipe();
                break;
            case 2: apply(*p, m, DIM, 3, c); break;
            case 3: apply(*p, m, DIM, 2, c); break;
            case 4: apply(*p, m, vx::pick(2) ? CLEAR : CLEAR_IN, 0, c); break;
            case 5:
                if (bimodal)
                    apply(*p, m, DIN, m.din == 1 && m.dim > 2 ? 2 : 1, c);
                else
                    apply(*p, m, REC, 0, c);
                break;
        }
        compare(*p, m, "shared phrase");
        for (auto& s : shadow)
            for (size_t j = 0; j < s.second.size(); j++)
                VX_CHECK(s.first[j] == s.second[j], "user buffer modified");
        vx::state(m.hash());
    }
    p.reset();
    for (auto& s : shadow)
        for (size_t j = 0; j < s.second.size(); j++)
            VX_CHECK(s.first[j] == s.second[j], "user buffer modified");
}
