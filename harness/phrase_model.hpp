// Reference model of a phrase: two plain lists of frames.
#pragma once
#include "explore.hpp"
#include "xmm.h"
#include <memory>

namespace pm {
typedef std::vector<float> Frame;

struct Model {
    bool own = true, bimodal = false;
    unsigned dim = 1, din = 0;
    std::vector<Frame> in, out;  // unimodal: in holds whole frames
    std::string label;
    std::vector<std::string> cols;
    // shared memory: user buffers (values are read through them)
    float *pin = nullptr, *pout = nullptr;

    unsigned isize() const { return (unsigned)in.size(); }
    unsigned osize() const { return bimodal ? (unsigned)out.size() : 0; }
    unsigned size() const {
        return bimodal ? std::min(isize(), osize()) : isize();
    }
    bool empty() const { return isize() == 0 && osize() == 0; }
    unsigned indim() const { return bimodal ? din : dim; }
    unsigned outdim() const { return bimodal ? dim - din : 0; }
    void wipe() {
        in.clear();
        out.clear();
    }
    uint64_t hash(bool values = false) const {
        vx::Hash h;
        h.add(own).add(bimodal).add(dim).add(din).add(isize()).add(osize());
        h.adds(label);
        for (auto& c : cols) h.adds(c);
        if (values) {
            for (auto& f : in)
                for (float x : f) h.addf(x);
            for (auto& f : out)
                for (float x : f) h.addf(x);
        }
        return h.h;
    }
};

inline bool same(float a, float b) {
    return a == b || (std::isnan(a) && std::isnan(b));
}

// complete observation of the real phrase against the model
inline void compare(xmm::Phrase const& p, Model const& m, const char* who,
                    bool strided = false, bool refuse = true) {
    VX_CHECK(p.ownMemory() == m.own, "%s: ownMemory() wrong", who);
    VX_CHECK(p.bimodal() == m.bimodal, "%s: bimodal() wrong", who);
    VX_CHECK(p.dimension.get() == m.dim, "%s: dimension %u, expected %u", who,
             p.dimension.get(), m.dim);
    VX_CHECK(p.dimension_input.get() == m.din,
             "%s: dimension_input %u, expected %u", who,
             p.dimension_input.get(), m.din);
    VX_CHECK(p.size() == m.size(), "%s: size() %u, expected %u", who, p.size(),
             m.size());
    VX_CHECK(p.inputSize() == m.isize(), "%s: inputSize() %u, expected %u", who,
             p.inputSize(), m.isize());
    VX_CHECK(p.outputSize() == m.osize(), "%s: outputSize() %u, expected %u",
             who, p.outputSize(), m.osize());
    VX_CHECK(p.empty() == m.empty(), "%s: empty() is %d", who, (int)p.empty());
    VX_CHECK(p.label.get() == m.label, "%s: label '%s', expected '%s'", who,
             p.label.get().c_str(), m.label.c_str());
    auto look = [&](unsigned i, unsigned d, unsigned rows, float want) {
        (void)rows;
        float g = p.getValue(i, d);
        VX_CHECK(same(g, want), "%s: value(%u,%u) is %g, expected %g", who, i,
                 d, g, want);
    };
    auto pick_row = [&](unsigned i, unsigned n) {
        return !strided || i < 2 || i + 2 >= n || (i % 128) < 2 ||
               (i % 128) > 125;
    };
    for (unsigned i = 0; i < m.isize(); i++)
        if (pick_row(i, m.isize()))
            for (unsigned d = 0; d < m.indim(); d++)
                look(i, d, m.isize(), m.in[i][d]);
    for (unsigned i = 0; i < m.osize(); i++)
        if (pick_row(i, m.osize()))
            for (unsigned d = 0; d < m.outdim(); d++)
                look(i, m.din + d, m.osize(), m.out[i][d]);
    for (unsigned i = 0; i < m.size(); i++) {
        if (!pick_row(i, m.size())) continue;
        if (m.bimodal) {
            float* a = p.getPointer_input(i);
            float* b = p.getPointer_output(i);
            for (unsigned d = 0; d < m.din; d++)
                VX_CHECK(same(a[d], m.in[i][d]), "%s: input pointer row %u", who,
                         i);
            for (unsigned d = 0; d < m.outdim(); d++)
                VX_CHECK(same(b[d], m.out[i][d]), "%s: output pointer row %u",
                         who, i);
        } else {
            float* a = p.getPointer(i);
            for (unsigned d = 0; d < m.dim; d++)
                VX_CHECK(same(a[d], m.in[i][d]), "%s: pointer row %u", who, i);
        }
    }
    if (!refuse) return;
    // refusals
    for (unsigned d = 0; d < m.dim; d++) {
        unsigned n = !m.bimodal || d < m.din ? m.isize() : m.osize();
        VX_CHECK(vx::throws([&] { p.getValue(n, d); }),
                 "%s: value(%u,%u) past the end is not refused", who, n, d);
    }
    VX_CHECK(vx::throws([&] { p.getValue(0, m.dim); }),
             "%s: column %u out of range is not refused", who, m.dim);
    VX_CHECK(vx::throws([&] { p.getPointer(m.size()); }) &&
                 vx::throws([&] { p.getPointer_input(m.size()); }) &&
                 vx::throws([&] { p.getPointer_output(m.size()); }),
             "%s: data pointer past the end is not refused", who);
    if (m.size() > 0) {
        if (m.bimodal)
            VX_CHECK(vx::throws([&] { p.getPointer(0); }),
                     "%s: getPointer on bimodal is not refused", who);
        else
            VX_CHECK(vx::throws([&] { p.getPointer_input(0); }) &&
                         vx::throws([&] { p.getPointer_output(0); }),
                     "%s: getPointer_input/output on unimodal not refused", who);
    }
}

struct Counter {
    float v = 0;
    Frame frame(unsigned n) {
        Frame f(n);
        for (auto& x : f) x = ++v + 0.25f;
        return f;
    }
};

enum Op {
    REC, REC_IN, REC_OUT, REC_BAD, RECIN_BAD, RECOUT_BAD, CLEAR, CLEAR_IN,
    CLEAR_OUT, DIM, DIN, LABEL, CONNECT_BAD, NOPS
};
// applies operation to both; returns a description through note
inline void apply(xmm::Phrase& p, Model& m, Op op, int arg, Counter& c) {
    vx::step();
    auto expect = [&](bool legal, const char* what, std::function<void()> f) {
        bool t = vx::throws(f);
        VX_CHECK(t == !legal, "%s %s", what,
                 legal ? "raised an exception" : "was not refused");
    };
    switch (op) {
        case REC: {
            Frame f = c.frame(m.dim);
            bool legal = m.own && (!m.bimodal || m.isize() == m.osize());
            vx::note("record(%u values)", m.dim);
            expect(legal, "record", [&] { p.record(f); });
            if (legal) {
                if (m.bimodal) {
                    m.in.push_back(Frame(f.begin(), f.begin() + m.din));
                    m.out.push_back(Frame(f.begin() + m.din, f.end()));
                } else
                    m.in.push_back(f);
            }
            break;
        }
        case REC_IN: {
            Frame f = c.frame(m.bimodal ? m.din : m.dim);
            bool legal = m.own && m.bimodal;
            vx::note("record_input");
            expect(legal, "record_input", [&] { p.record_input(f); });
            if (legal) m.in.push_back(f);
            break;
        }
        case REC_OUT: {
            Frame f = c.frame(m.bimodal ? m.outdim() : m.dim);
            bool legal = m.own && m.bimodal;
            vx::note("record_output");
            expect(legal, "record_output", [&] { p.record_output(f); });
            if (legal) m.out.push_back(f);
            break;
        }
        case REC_BAD:
            vx::note("record(wrong size %d)", (int)m.dim + arg);
            expect(false, "record with wrong size",
                   [&] { p.record(Frame((int)m.dim + arg, 7.f)); });
            break;
        case RECIN_BAD:
            vx::note("record_input(wrong size)");
            expect(false, "record_input with wrong size",
                   [&] { p.record_input(Frame((int)m.indim() + arg, 7.f)); });
            break;
        case RECOUT_BAD:
            vx::note("record_output(wrong size)");
            expect(false, "record_output with wrong size", [&] {
                p.record_output(Frame((int)m.outdim() + 1 + (arg > 0), 7.f));
            });
            break;
        case CLEAR:
            vx::note("clear");
            expect(m.own, "clear", [&] { p.clear(); });
            if (m.own) m.wipe();
            break;
        case CLEAR_IN:
            vx::note("clearInput");
            expect(m.own, "clearInput", [&] { p.clearInput(); });
            if (m.own) m.in.clear();
            break;
        case CLEAR_OUT:
            vx::note("clearOutput");
            expect(m.own, "clearOutput", [&] { p.clearOutput(); });
            if (m.own) {
                if (m.bimodal)
                    m.out.clear();
                else
                    m.in.clear();
            }
            break;
        case DIM: {
            unsigned v = arg;
            bool legal = v >= (m.bimodal ? 2u : 1u);
            vx::note("dimension.set(%u)", v);
            expect(legal, "dimension.set", [&] { p.dimension.set(v); });
            if (legal) {
                m.dim = v;
                if (m.bimodal && m.din > v - 1) m.din = v - 1;
                m.wipe();
                m.pin = m.pout = nullptr;
                m.cols.resize(v);
            }
            break;
        }
        case DIN: {
            unsigned v = arg;
            bool legal = m.bimodal ? (v >= 1 && v < m.dim) : v == 0;
            vx::note("dimension_input.set(%u)", v);
            expect(legal, "dimension_input.set",
                   [&] { p.dimension_input.set(v); });
            if (legal) {
                m.din = v;
                m.wipe();
                m.pin = m.pout = nullptr;
                m.cols.resize(m.dim);
            }
            break;
        }
        case LABEL: {
            std::string l = arg ? "b" : "a";
            vx::note("label.set(%s)", l.c_str());
            p.label.set(l);
            m.label = l;
            break;
        }
        case CONNECT_BAD: {
            float x[8] = {0};
            vx::note("connect on own memory");
            if (m.own) {
                expect(false, "connect", [&] { p.connect(x, 1); });
                expect(false, "connect", [&] { p.connect(x, x, 1); });
                expect(false, "connect_input", [&] { p.connect_input(x, 1); });
                expect(false, "connect_output",
                       [&] { p.connect_output(x, 1); });
                expect(false, "disconnect", [&] { p.disconnect(); });
            }
            break;
        }
        default:
            break;
    }
}
}  // namespace pm
