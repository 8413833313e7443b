// C06: statistics, rescaling and normalisation.
#include "explore.hpp"
#include "xmm.h"
using namespace xmm;

namespace {
const std::vector<float> ALPHA = {0.f, 1.f, -2.5f};
struct Shape {
    bool bi;
    int dim, din;
};
const std::vector<Shape> SHAPES = {{false, 1, 0}, {false, 2, 0}, {true, 2, 1},
                                   {true, 3, 1},  {true, 3, 2},  {false, 3, 0}};
struct Ref {
    Shape s;
    std::vector<std::vector<float>> in, out;  // unimodal: in only
    int size() const {
        return (int)(s.bi ? std::min(in.size(), out.size()) : in.size());
    }
    int in_dim() const { return s.bi ? s.din : s.dim; }
    float at(int t, int d) const {
        return d < (s.bi ? s.din : s.dim) ? in[t][d] : out[t][d - s.din];
    }
    float& at(int t, int d) {
        return d < (s.bi ? s.din : s.dim) ? in[t][d] : out[t][d - s.din];
    }
};
struct Stat {
    std::vector<double> mean, sd, mn, mx, amn, amx;
    int n = 0;
};
Stat stats(std::vector<const Ref*> const& v, int dim) {
    Stat r;
    r.mean.assign(dim, 0);
    r.sd.assign(dim, 0);
    r.mn.assign(dim, 1e300);
    r.mx.assign(dim, -1e300);
    for (auto p : v) r.n += p->size();
    for (int d = 0; d < dim; d++) {
        for (auto p : v)
            for (int t = 0; t < p->size(); t++) {
                r.mean[d] += p->at(t, d);
                r.mn[d] = std::min<double>(r.mn[d], p->at(t, d));
                r.mx[d] = std::max<double>(r.mx[d], p->at(t, d));
            }
        r.mean[d] /= r.n;
        for (auto p : v)
            for (int t = 0; t < p->size(); t++)
                r.sd[d] += (p->at(t, d) - r.mean[d]) * (p->at(t, d) - r.mean[d]);
        r.sd[d] = std::sqrt(r.sd[d] / r.n);
    }
    r.amn = r.mn, r.amx = r.mx;
    for (auto p : v)
        for (int d = 0; d < dim; d++)
            for (auto& f : d < p->in_dim() ? p->in : p->out) {
                double x = f[d < p->in_dim() ? d : d - p->in_dim()];
                r.amn[d] = std::min(r.amn[d], x);
                r.amx[d] = std::max(r.amx[d], x);
            }
    return r;
}
template <class O>
void check_stats(O const& o, Stat const& r, int dim, const char* who, bool mm = true) {
    std::vector<float> m = o.mean(), s = o.standardDeviation();
    auto x = o.minmax();
    vx::step(3);
    VX_CHECK((int)m.size() == dim && (int)s.size() == dim && (int)x.size() == dim,
             "%s: statistics have %zu,%zu,%zu columns, expected %d", who, m.size(),
             s.size(), x.size(), dim);
    for (int d = 0; d < dim; d++) {
        VX_NEAR(m[d], r.mean[d], 1e-5, 1e-5, "%s: mean of column %d", who, d);
        VX_NEAR(s[d], r.sd[d], 1e-5, 1e-5, "%s: standard deviation of column %d", who, d);
        if (mm) {
            // frames of one modality without their counterpart may count or not
            bool all = r.amn.size() && (vx::near(x[d].first, r.amn[d], 0, 1e-5) && vx::near(x[d].second, r.amx[d], 0, 1e-5));
            if (all) continue;
            VX_NEAR(x[d].first, r.mn[d], 0, 1e-5, "%s: minimum of column %d", who, d);
            VX_NEAR(x[d].second, r.mx[d], 0, 1e-5, "%s: maximum of column %d", who, d);
        }
    }
}
void check_values(Phrase const& p, Ref const& r, const char* who) {
    VX_CHECK((int)p.size() == r.size(), "%s: size is %u", who, p.size());
    for (int t = 0; t < r.size(); t++)
        for (int d = 0; d < r.s.dim; d++)
            VX_NEAR(p.getValue(t, d), r.at(t, d), 1e-5, 1e-5,
                    "%s: value of frame %d column %d", who, t, d);
}
// buffers of a shared phrase, with a guard zone
struct Buf {
    std::vector<float> in, out;
};
void fill(Phrase& p, Ref& r, Buf& b, int nin, int nout, bool shared) {
    int din = r.s.bi ? r.s.din : r.s.dim, dout = r.s.dim - din;
    for (int t = 0; t < nin; t++) {
        std::vector<float> f(din);
        for (auto& v : f) v = vx::oneof(ALPHA);
        r.in.push_back(f);
    }
    if (r.s.bi)
        for (int t = 0; t < nout; t++) {
            std::vector<float> f(dout);
            for (auto& v : f) v = vx::oneof(ALPHA);
            r.out.push_back(f);
        }
    if (shared) {
        for (auto& f : r.in) b.in.insert(b.in.end(), f.begin(), f.end());
        for (auto& f : r.out) b.out.insert(b.out.end(), f.begin(), f.end());
        b.in.push_back(77.f);
        b.out.push_back(77.f);
        if (r.s.bi) {
            p.connect_input(b.in.data(), nin);
            p.connect_output(b.out.data(), nout);
        } else
            p.connect(b.in.data(), nin);
    } else if (r.s.bi) {
        for (auto& f : r.in) p.record_input(f);
        for (auto& f : r.out) p.record_output(f);
    } else
        for (auto& f : r.in) p.record(f);
}
void rescale_ref(Ref& r, std::vector<float> const& off, std::vector<float> const& gain) {
    for (int t = 0; t < r.size(); t++)
        for (int d = 0; d < r.s.dim; d++) r.at(t, d) = (r.at(t, d) - off[d]) * gain[d];
}
void describe(Ref const& r, const char* n, bool shared) {
    if (!vx::verbose()) return;
    std::string s;
    char b[40];
    for (auto& f : r.in) {
        for (float v : f) snprintf(b, 40, "%g ", v), s += b;
        s += "; ";
    }
    if (r.s.bi) s += "| ";
    for (auto& f : r.out) {
        for (float v : f) snprintf(b, 40, "%g ", v), s += b;
        s += "; ";
    }
    vx::note("%s: %s %s dimension %d input %d, frames: %s", n,
             shared ? "shared" : "own", r.s.bi ? "bimodal" : "unimodal", r.s.dim,
             r.s.din, s.c_str());
}
std::unique_ptr<Phrase> make(Shape const& s, bool shared) {
    std::unique_ptr<Phrase> p(new Phrase(
        shared ? MemoryMode::SharedMemory : MemoryMode::OwnMemory,
        s.bi ? Multimodality::Bimodal : Multimodality::Unimodal));
    p->dimension.set(s.dim);
    if (s.bi) p->dimension_input.set(s.din);
    return p;
}
}  // namespace

VX_SCENARIO_SPLIT(phrase, 6) {
    Shape s = vx::oneof(SHAPES);
    bool shared = vx::pick(2);
    int n = 1 + vx::pick(vx::tier(s.dim == 3 ? 2 : 3, 3));
    int extra = s.bi ? vx::pick(3) : 0;  // surplus input / output frames
    if (extra && n * s.dim > 6) throw vx::Prune{};
    auto p = make(s, shared);
    Ref r;
    r.s = s;
    Buf b;
    fill(*p, r, b, n + (extra == 1), n + (extra == 2), shared);
    describe(r, "phrase", shared);
    vx::Hash h;
    for (auto& f : r.in)
        for (float v : f) h.addf(v);
    for (auto& f : r.out)
        for (float v : f) h.addf(v);
    h.add(s.bi).add(s.dim).add(s.din).add(n).add(extra).add(shared);
    vx::state(h.h);
    check_stats(*p, stats({&r}, s.dim), s.dim, "phrase");
    check_values(*p, r, "after statistics");
    // distinct offset and gain for every column
    std::vector<float> off = {0.5f, -1.f, 2.f}, gain = {2.f, -0.5f, 4.f};
    off.resize(s.dim);
    gain.resize(s.dim);
    Ref r0 = r;
    Buf b0 = b;
    p->rescale(off, gain);
    vx::step();
    rescale_ref(r, off, gain);
    check_values(*p, r, "after rescale");
    check_stats(*p, stats({&r}, s.dim), s.dim, "rescaled phrase");
    if (shared) {
        VX_CHECK(b.in.back() == 77.f && b.out.back() == 77.f,
                 "rescale wrote after the end of the shared buffer");
        int din = s.bi ? s.din : s.dim;
        for (size_t i = 0; i + 1 < b.in.size(); i++)
            if ((int)i < r.size() * din)
                VX_NEAR(b.in[i], r.in[i / din][i % din], 1e-5, 1e-5, "shared input buffer element %zu", i);
        for (size_t i = 0; i + 1 < b.out.size(); i++)
            if ((int)i < r.size() * (s.dim - din))
                VX_NEAR(b.out[i], r.out[i / (s.dim - din)][i % (s.dim - din)], 1e-5, 1e-5, "shared output buffer element %zu", i);
    }
}

VX_SCENARIO_SPLIT(training_set, 6) {
    std::vector<Shape> shapes = {{false, 1, 0}, {true, 2, 1}, {false, 2, 0}, {true, 3, 2}, {true, 3, 1}};
    int si = vx::pick((int)shapes.size());
    Shape s = shapes[si];
    int nph = 1 + vx::pick(3);
    int maxcells = vx::tier(6, 7), cells = 0;
    bool shared = vx::pick(2);
    int extra = s.bi ? vx::pick(3) : 0;  // surplus input / output frame in the first phrase
    int op = vx::pick(4);  // rescale, normalise, class rescale, normalise twice
    std::vector<Ref> refs(nph);
    std::vector<Buf> bufs(nph);
    std::vector<int> len(nph);
    for (int i = 0; i < nph; i++) {
        len[i] = vx::pick(4);
        cells += len[i] * s.dim;
    }
    if (cells == 0 || cells > maxcells - (extra ? 2 : 0)) throw vx::Prune{};
    TrainingSet ts(shared ? MemoryMode::SharedMemory : MemoryMode::OwnMemory,
                   s.bi ? Multimodality::Bimodal : Multimodality::Unimodal);
    ts.dimension.set(s.dim);
    if (s.bi) ts.dimension_input.set(s.din);
    for (int i = 0; i < nph; i++) {
        refs[i].s = s;
        ts.addPhrase(2 * i, i == 1 ? "b" : "a");
        fill(*ts.getPhrase(2 * i), refs[i], bufs[i], len[i] + (extra == 1 && i == 0), len[i] + (extra == 2 && i == 0), shared);
        describe(refs[i], "phrase", shared);
    }
    std::vector<const Ref*> all;
    vx::Hash h;
    for (auto& r : refs) {
        all.push_back(&r);
        h.add(r.size());
        for (auto& f : r.in)
            for (float v : f) h.addf(v);
        for (auto& f : r.out)
            for (float v : f) h.addf(v);
    }
    h.add(si).add(shared).add(op).add(extra);
    vx::state(h.h);
    Stat st = stats(all, s.dim);
    check_stats(ts, st, s.dim, "set");
    std::vector<float> off = {0.5f, -1.f, 2.f}, gain = {2.f, -0.5f, 4.f};
    off.resize(s.dim);
    gain.resize(s.dim);
    if (op == 0) {
        ts.rescale(off, gain);
        for (auto& r : refs) rescale_ref(r, off, gain);
    } else if (op == 2) {
        // the class subset refers to the same phrases
        TrainingSet* sub = ts.getPhrasesOfClass("a");
        std::vector<const Ref*> cls;
        int n = 0;
        for (int i = 0; i < nph; i++)
            if (i != 1) cls.push_back(&refs[i]), n += refs[i].size();
        if (n) check_stats(*sub, stats(cls, s.dim), s.dim, "class subset");
        sub->rescale(off, gain);
        for (int i = 0; i < nph; i++)
            if (i != 1) rescale_ref(refs[i], off, gain);
    } else {
        std::vector<bool> skip(s.dim);
        for (int d = 0; d < s.dim; d++) skip[d] = st.sd[d] < 1e-6;
        int times = op == 3 ? 2 : 1;
        for (int k = 0; k < times; k++) ts.normalize();
        vx::step(times);
        int judged = 0;
        for (int d = 0; d < s.dim; d++) {
            if (skip[d]) continue;
            judged++;
            for (int i = 0; i < nph; i++)
                for (int t = 0; t < refs[i].size(); t++) {
                    VX_NEAR(ts.getPhrase(2 * i)->getValue(t, d),
                            (refs[i].at(t, d) - st.mean[d]) / st.sd[d], 1e-4, 1e-4,
                            "normalised value of phrase %d frame %d column %d", 2 * i, t, d);
                }
        }
        vx::outcome(judged ? "normalised" : "constant");
        return;
    }
    vx::step();
    for (int i = 0; i < nph; i++) check_values(*ts.getPhrase(2 * i), refs[i], "rescaled set");
    check_stats(ts, stats(all, s.dim), s.dim, "rescaled set");
    vx::outcome("rescaled");
}

// columns whose values are large compared with how much they vary: the
// statistics of every combination of offset, step, pattern and length
VX_SCENARIO_SPLIT(large_values, 3) {
    static const float OFF[] = {0.f, 100.f, -300.f, 1000.f, -1000.3f};
    static const float STEP[] = {0.5f, 0.37f, 0.1f};
    static const int LEN[] = {3, 7, 32, 50, 200, 300};
    float off = OFF[vx::pick(5)], stp = STEP[vx::pick(3)];
    int len = LEN[vx::pick(vx::tier(5, 6))];
    bool bi = vx::pick(2);
    bool shared = vx::pick(2);
    int pat = vx::pick(5);  // alternating, ramp, mostly constant, two levels, zigzag of 5
    int nph = 1 + vx::pick(3);
    int op = vx::pick(3);   // statistics, rescale, normalise
    Shape s = bi ? Shape{true, 2, 1} : Shape{false, 2, 0};
    auto v = [&](int t, int i, int d) {
        double x = 0;
        switch (pat) {
            case 0: x = t % 2; break;
            case 1: x = (double)t / len * 2; break;
            case 2: x = t == len / 2 ? 1 : 0; break;
            case 3: x = t < len / 3 ? -1 : 1; break;
            default: x = (t * 3) % 5 - 2;
        }
        // the second column has the offset with the other sign
        return (float)(d ? -off * 0.5 + x * stp * 2 : off + (x + 0.25 * i) * stp);
    };
    TrainingSet ts(shared ? MemoryMode::SharedMemory : MemoryMode::OwnMemory,
                   bi ? Multimodality::Bimodal : Multimodality::Unimodal);
    ts.dimension.set(2);
    if (bi) ts.dimension_input.set(1);
    std::vector<Ref> refs(nph);
    std::vector<Buf> bufs(nph);
    std::vector<const Ref*> all;
    for (int i = 0; i < nph; i++) {
        Ref& r = refs[i];
        r.s = s;
        ts.addPhrase(i, "a");
        auto p = ts.getPhrase(i);
        int n = len - i;
        for (int t = 0; t < n; t++) {
            if (bi) {
                r.in.push_back({v(t, i, 0)});
                r.out.push_back({v(t, i, 1)});
            } else
                r.in.push_back({v(t, i, 0), v(t, i, 1)});
        }
        Buf& b = bufs[i];
        for (auto& f : r.in) b.in.insert(b.in.end(), f.begin(), f.end());
        for (auto& f : r.out) b.out.insert(b.out.end(), f.begin(), f.end());
        if (shared && bi) {
            p->connect_input(b.in.data(), n);
            p->connect_output(b.out.data(), n);
        } else if (shared)
            p->connect(b.in.data(), n);
        else
            for (int t = 0; t < n; t++) {
                if (bi) p->record_input(r.in[t]), p->record_output(r.out[t]);
                else p->record(r.in[t]);
            }
        all.push_back(&r);
    }
    vx::Hash h;
    h.addf(off).addf(stp).add(len).add(bi).add(shared).add(pat).add(nph).add(op);
    vx::state(h.h);
    // single precision: the mean of n values is off by a few units in the last
    // place of their sum
    auto judge = [&](std::vector<float> m, std::vector<float> sd, std::vector<std::pair<float, float>> mm, Stat const& st, const char* who) {
        vx::step(3);
        VX_CHECK(m.size() == 2 && sd.size() == 2 && mm.size() == 2, "%s: number of columns", who);
        for (int d = 0; d < 2; d++) {
            double big = std::max(std::fabs(st.mn[d]), std::fabs(st.mx[d])), tol = big * 3e-5 + 1e-5;
            VX_NEAR(m[d], st.mean[d], 0, tol, "%s: mean of column %d", who, d);
            VX_NEAR(sd[d], st.sd[d], 0.02, tol, "%s: standard deviation of column %d", who, d);
            VX_NEAR(mm[d].first, st.mn[d], 1e-6, 1e-6, "%s: minimum of column %d", who, d);
            VX_NEAR(mm[d].second, st.mx[d], 1e-6, 1e-6, "%s: maximum of column %d", who, d);
        }
    };
    Stat st = stats(all, 2);
    judge(ts.mean(), ts.standardDeviation(), ts.minmax(), st, "set");
    for (int i = 0; i < nph; i++) {
        auto p = ts.getPhrase(i);
        judge(p->mean(), p->standardDeviation(), p->minmax(), stats({&refs[i]}, 2), "phrase");
    }
    if (op == 0) return;
    if (op == 1) {
        std::vector<float> o = {(float)st.mean[0], (float)st.mn[1]}, g = {4.f, -0.5f};
        ts.rescale(o, g);
        for (auto& r : refs) rescale_ref(r, o, g);
    } else {
        ts.normalize();
        for (auto& r : refs)
            for (int t = 0; t < r.size(); t++)
                for (int d = 0; d < 2; d++) r.at(t, d) = (float)((r.at(t, d) - st.mean[d]) / st.sd[d]);
    }
    vx::step();
    for (int i = 0; i < nph; i++)
        for (int t = 0; t < refs[i].size(); t++)
            for (int d = 0; d < 2; d++) {
                // the error of the mean counts in units of the deviation
                double tol = op == 2 ? std::fabs(st.mean[d]) * 3e-5 / st.sd[d] + 0.02 : 4 * 2e-4;
                VX_NEAR(ts.getPhrase(i)->getValue(t, d), refs[i].at(t, d), 0.02, tol, "value of phrase %d frame %d column %d", i, t, d);
            }
    vx::outcome(op == 1 ? "rescaled" : "normalised");
}

// an offset or gain of another size is refused and changes nothing
VX_SCENARIO(wrong_sizes) {
    Shape s = SHAPES[vx::pick(SHAPES.size())];
    int n = 1 + vx::pick(3);
    bool shared = vx::pick(2);
    int no = vx::pick(6), ng = vx::pick(6), where = vx::pick(2);
    TrainingSet ts(shared ? MemoryMode::SharedMemory : MemoryMode::OwnMemory,
                   s.bi ? Multimodality::Bimodal : Multimodality::Unimodal);
    ts.dimension.set(s.dim);
    if (s.bi) ts.dimension_input.set(s.din);
    ts.addPhrase(0, "a");
    Ref r;
    r.s = s;
    Buf b;
    auto p = ts.getPhrase(0);
    int din = s.bi ? s.din : s.dim;
    for (int t = 0; t < n; t++) {
        std::vector<float> in, out;
        for (int d = 0; d < s.dim; d++) (d < din ? in : out).push_back(1.f + t + 4.f * d);
        r.in.push_back(in);
        if (s.bi) r.out.push_back(out);
    }
    for (auto& f : r.in) b.in.insert(b.in.end(), f.begin(), f.end());
    for (auto& f : r.out) b.out.insert(b.out.end(), f.begin(), f.end());
    if (shared && s.bi) p->connect_input(b.in.data(), n), p->connect_output(b.out.data(), n);
    else if (shared) p->connect(b.in.data(), n);
    else
        for (int t = 0; t < n; t++) {
            if (s.bi) p->record_input(r.in[t]), p->record_output(r.out[t]);
            else p->record(r.in[t]);
        }
    std::vector<float> off(no, 0.5f), gain(ng, 2.f);
    bool legal = no == s.dim && ng == s.dim;
    vx::step();
    vx::note("offset of size %d, gain of size %d, dimension %d", no, ng, s.dim);
    bool refused = vx::throws([&] { where ? ts.rescale(off, gain) : p->rescale(off, gain); });
    VX_CHECK(refused == !legal, "rescaling with an offset of size %d and a gain of size %d in dimension %d", no, ng, s.dim);
    if (legal) rescale_ref(r, off, gain);
    check_values(*p, r, "after rescaling");
    vx::Hash h;
    h.add(s.bi).add(s.dim).add(s.din).add(n).add(shared).add(no).add(ng).add(where);
    vx::state(h.h);
    vx::outcome(legal ? "rescaled" : "refused");
}
