// C25: k-means clustering
#include "em_ref.hpp"
using namespace ref;
using xmm::KMeans;

// the random initialisation takes its numbers from the explorer
static int random_left = 0;
extern "C" long random() {
    static const long v[] = {0, RAND_MAX / 4, RAND_MAX};
    if (random_left-- > 0) return v[vx::pick(3)];
    return RAND_MAX / 2;
}

namespace {
const std::vector<float> VAL = {0, 1, 3, -2.5f};
struct DataSet {
    bool bi;
    int dim, din;
    std::vector<Frames> ph;
    std::unique_ptr<Set> set;
    void build() {
        set.reset(new Set(bi, dim, din));
        for (size_t i = 0; i < ph.size(); i++) set->add(i % 2 ? "b" : "a", ph[i]);
    }
    Data data() const { return todata(ph); }
    size_t frames() const {
        size_t n = 0;
        for (auto& p : ph) n += p.size();
        return n;
    }
};
// every frame of the alphabet, every division into at most two phrases
DataSet dataset(bool bi, int dim, int n, int values) {
    DataSet s;
    s.bi = bi;
    s.dim = dim;
    s.din = bi ? 1 : 0;
    int cut = vx::pick(n + 1);
    s.ph.resize(cut < n ? 2 : 1);
    std::string txt;
    for (int i = 0; i < n; i++) {
        int v = vx::pick(values);
        std::vector<float> x(dim);
        for (int d = 0; d < dim; d++) x[d] = VAL[(v * (d + 1) + d) % 4];
        s.ph[i < cut || s.ph.size() == 1 ? 0 : 1].push_back(x);
        txt += (i == cut ? " |" : "") + std::string(" ") + std::to_string(v);
    }
    vx::note("frames%s, dimension %d", txt.c_str(), dim);
    s.build();
    return s;
}
std::vector<V> centers(KMeans const& k, int n, int dim) {
    VX_CHECK((int)k.centers.size() == n * dim, "%zu values for %d centres of dimension %d", k.centers.size(), n, dim);
    std::vector<V> c;
    for (int i = 0; i < n; i++) c.emplace_back(k.centers.begin() + i * dim, k.centers.begin() + (i + 1) * dim);
    for (auto& v : c)
        for (double x : v) VX_CHECK(std::isfinite(x), "a centre is %g", x);
    return c;
}
// each centre is the mean of the frames nearest to it (ties may go either way)
void check_fixed_point(std::vector<V> const& c, Data const& data, const char* who) {
    size_t K = c.size(), D = c[0].size();
    std::vector<V> sum(K, V(D, 0));
    V cnt(K, 0);
    std::vector<std::pair<V, std::vector<int>>> ties;
    for (auto& p : data)
        for (auto& x : p) {
            double best = 1e300;
            for (auto& k : c) best = std::min(best, distance(x, k));
            std::vector<int> near;
            for (size_t k = 0; k < K; k++)
                if (distance(x, c[k]) <= best + 1e-5) near.push_back(k);
            if (near.size() > 1) {
                ties.push_back({x, near});
                continue;
            }
            cnt[near[0]]++;
            for (size_t d = 0; d < D; d++) sum[near[0]][d] += x[d];
        }
    size_t total = 1;
    for (auto& t : ties) total *= t.second.size();
    for (size_t n = 0; n < total; n++) {
        auto s = sum;
        V m = cnt;
        size_t r = n;
        for (auto& t : ties) {
            int k = t.second[r % t.second.size()];
            r /= t.second.size();
            m[k]++;
            for (size_t d = 0; d < D; d++) s[k][d] += t.first[d];
        }
        bool ok = true;
        for (size_t k = 0; k < K; k++)
            for (size_t d = 0; d < D; d++)
                if (m[k] > 0 && !vx::near(s[k][d] / m[k], c[k][d], 1e-5, 1e-5)) ok = false;
        if (ok) return;
    }
    vx::fail("%s: the centres are not the means of the frames nearest to them", who);
}
void check_filter(KMeans& k, std::vector<V> const& c, int dim) {
    static const float X[][2] = {{0.5f, -1}, {2, 3}, {-10, 0.25f}};
    for (auto& row : X) {
        std::vector<float> x(row, row + dim);
        k.filter(x);
        vx::step();
        VX_CHECK(k.results.distances.size() == c.size(), "%zu distances for %zu clusters", k.results.distances.size(), c.size());
        double best = 1e300;
        for (size_t i = 0; i < c.size(); i++) {
            double d = distance(todouble(x), c[i]);
            VX_NEAR(k.results.distances[i], d, 1e-5, 1e-5, "distance to centre %zu", i);
            best = std::min(best, d);
        }
        VX_CHECK(k.results.likeliest < c.size() && distance(todouble(x), c[k.results.likeliest]) <= best + 1e-5,
                 "centre %u is not the nearest one", k.results.likeliest);
    }
    std::vector<float> bad(dim + 1, 0.f);
    VX_CHECK(vx::throws([&] { k.filter(bad); }), "a frame of size %d is accepted", dim + 1);
    if (dim > 1) {
        bad.resize(dim - 1);
        VX_CHECK(vx::throws([&] { k.filter(bad); }), "a frame of size %d is accepted", dim - 1);
    }
}
uint64_t hash(std::vector<V> const& c) {
    vx::Hash h;
    for (auto& v : c)
        for (double x : v) h.addf((float)x);
    return h.h;
}
void check_trained(KMeans& k, DataSet const& s, int n, int max_iterations, double threshold, bool biased, const char* who) {
    auto c = centers(k, n, s.dim);
    Data data = s.data();
    if (biased) {
        KM r;
        r.init(data[0], n, s.dim);
        r.run(data, max_iterations, threshold);
        if (!r.ambiguous) {
            for (int i = 0; i < n; i++)
                for (int d = 0; d < s.dim; d++)
                    VX_NEAR(c[i][d], r.c[i][d], 1e-5, 1e-5, "%s: centre %d after %d iterations", who, i, r.iterations);
            vx::outcome("compared with Lloyd");
        } else
            vx::outcome("near tie");
    }
    if (max_iterations >= 30 && threshold < 1e-10) check_fixed_point(c, data, who);
    check_filter(k, c, s.dim);
    vx::state(hash(c));
}
void inputs(bool bi, int dim, int nmax, int values) {
    int n = 1 + vx::pick(nmax);
    DataSet s = dataset(bi, dim, n, values);
    int k = 1 + vx::pick(3);
    KMeans km(k);
    km.initialization_mode = KMeans::InitializationMode::Biased;
    static const float TH[] = {1e-20f, 1e-20f, 0.2f};
    int mode = vx::pick(3);
    km.configuration.max_iterations.set(mode == 0 ? 50 : mode == 1 ? 1 + vx::pick(2) : 50);
    km.configuration.relative_distance_threshold.set(TH[mode]);
    int mi = km.configuration.max_iterations.get();
    vx::note("%d clusters, at most %d iterations, threshold %g", k, mi, TH[mode]);
    km.train(s.set->ts.get());
    check_trained(km, s, k, mi, TH[mode], true, "training");
}
}  // namespace

VX_SCENARIO_SPLIT(one_dimension, 4) { inputs(false, 1, vx::tier(6, 7), 4); }
VX_SCENARIO_SPLIT(two_dimensions, 4) { inputs(false, 2, vx::tier(5, 7), 4); }
VX_SCENARIO_SPLIT(bimodal, 4) { inputs(true, 2, vx::tier(5, 7), 3); }
VX_SCENARIO_SPLIT(random_start, 4) {
    int dim = 1 + vx::pick(2);
    DataSet s = dataset(false, dim, vx::tier(4, 5), 3);
    int k = 1 + vx::pick(3);
    random_left = std::min(k * dim, 4);
    KMeans km(k);
    vx::note("%d clusters, random start", k);
    km.train(s.set->ts.get());
    random_left = 0;
    check_trained(km, s, k, 50, 1e-20, false, "training from random centres");
}

// histories of two clusterings
VX_SCENARIO_SPLIT(histories, 4) {
    std::vector<DataSet> sets(3);
    sets[0].bi = false, sets[0].dim = 1, sets[0].din = 0, sets[0].ph = {{{0}, {1}, {3}, {4}}, {{10}, {11}}};
    sets[1].bi = false, sets[1].dim = 2, sets[1].din = 0, sets[1].ph = {{{0, 1}, {1, 0}, {5, 5}, {6, 7}, {9, -2}}};
    sets[2].bi = true, sets[2].dim = 2, sets[2].din = 1, sets[2].ph = {{{2, 2}, {3, 1}, {-4, 0}}, {{8, 8}}};
    for (auto& s : sets) s.build();
    xmm::TrainingSet none;
    struct Ref {
        int clusters = 1, set = -1, k = 0, max = 50;
        bool random = false;
        int tmax = 50;
        bool trandom = false;
    } r[2];
    std::unique_ptr<KMeans> km[2] = {std::unique_ptr<KMeans>(new KMeans(1)), std::unique_ptr<KMeans>(new KMeans(2))};
    r[1].clusters = 2;
    for (int i = 0; i < 2; i++) {
        km[i]->initialization_mode = KMeans::InitializationMode::Biased;
    }
    std::vector<float> before[2];
    int depth = vx::tier(4, 5);
    for (int d = 0; d < depth; d++) {
        int w = vx::pick(2), op = vx::pick(11);
        KMeans& k = *km[w];
        vx::step();
        for (int i = 0; i < 2; i++) before[i] = km[i]->centers;
        switch (op) {
            case 0: case 1: case 2:
                vx::note("%d: train with set %d", w, op);
                k.train(sets[op].set->ts.get());
                r[w].set = op;
                r[w].k = r[w].clusters;
                r[w].tmax = r[w].max;
                r[w].trandom = r[w].random;
                break;
            case 3: case 4:
                vx::note("%d: %s clusters", w, op == 3 ? "one" : "three");
                k.configuration.clusters.set(op == 3 ? 1 : 3);
                r[w].clusters = op == 3 ? 1 : 3;
                break;
            case 5:
                vx::note("%d: one iteration", w);
                k.configuration.max_iterations.set(1);
                r[w].max = 1;
                break;
            case 6:
                vx::note("%d = %d", w, 1 - w);
                k = *km[1 - w];
                r[w] = r[1 - w];
                break;
            case 7:
                vx::note("%d: copy, assigned to itself", w);
                km[w].reset(new KMeans(k));
                *km[w] = *km[w];
                break;
            case 8:
                if (r[w].set >= 0 && r[w].k != r[w].clusters) throw vx::Prune();
                vx::note("%d: reload", w);
                {
                    auto doc = k.toJson();
                    km[w].reset(new KMeans(5));
                    km[w]->fromJson(doc);
                }
                break;
            case 9:
                vx::note("%d: train with nothing", w);
                k.train(&none);
                k.train(nullptr);
                break;
            case 10:
                vx::note("%d: the other start", w);
                r[w].random = !r[w].random;
                k.initialization_mode = r[w].random ? KMeans::InitializationMode::Random : KMeans::InitializationMode::Biased;
                break;
        }
        for (int i = 0; i < 2; i++) {
            KMeans& q = *km[i];
            VX_CHECK((int)q.configuration.clusters.get() == r[i].clusters && (int)q.configuration.max_iterations.get() == r[i].max,
                     "clustering %d: settings changed", i);
            VX_CHECK((q.initialization_mode == KMeans::InitializationMode::Random) == r[i].random, "clustering %d: initialisation mode changed", i);
            if (r[i].set < 0) {
                VX_CHECK(q.centers.empty(), "an untrained clustering has centres");
                std::vector<float> x(q.shared_parameters->dimension.get(), 0.f);
                VX_CHECK(vx::throws([&] { q.filter(x); }), "an untrained clustering filters");
                continue;
            }
            DataSet const& s = sets[r[i].set];
            VX_CHECK((int)q.shared_parameters->dimension.get() == s.dim, "dimension");
            if (i != w) VX_CHECK(q.centers == before[i], "clustering %d changed", i);
            if (r[i].k != r[i].clusters) continue;  // number of clusters changed since
            check_trained(q, s, r[i].k, r[i].tmax, 1e-20, !r[i].trandom, "history");
        }
    }
}

// more clusters, dimensions and frames
VX_SCENARIO_SPLIT(wide, 3) {
    DataSet s;
    s.bi = vx::pick(2);
    s.dim = 2 + vx::pick(4);
    s.din = s.bi ? s.dim / 2 : 0;
    int k = 2 + vx::pick(vx::tier(5, 8)), phrases = 1 + vx::pick(4), data = vx::pick(vx::tier(4, 10)), mi = vx::pick(2) ? 60 : 3;
    static const int LEN[] = {31, 5, 17, 12};
    for (int p = 0; p < phrases; p++) {
        Frames f;
        for (int t = 0; t < LEN[p]; t++) {
            std::vector<float> x(s.dim);
            for (int d = 0; d < s.dim; d++)
                x[d] = (float)((t * t * (d + 2) + 3 * data + p * (d + 1)) % 11) * 0.5f + 0.125f * ((t * 5 + data * d) % 7) + 0.0625f * t * (d % 2 ? 1 : -1);
            f.push_back(x);
        }
        s.ph.push_back(f);
    }
    s.build();
    KMeans km(k);
    km.initialization_mode = KMeans::InitializationMode::Biased;
    km.configuration.max_iterations.set(mi);
    vx::note("%d clusters, dimension %d, %d phrases, data %d, at most %d iterations", k, s.dim, phrases, data, mi);
    km.train(s.set->ts.get());
    auto c = centers(km, k, s.dim);
    KM r;
    r.init(s.data()[0], k, s.dim);
    r.run(s.data(), mi, KMeans::DEFAULT_RELATIVE_VARIATION_THRESHOLD());
    if (!r.ambiguous)
        for (int i = 0; i < k; i++)
            for (int d = 0; d < s.dim; d++) VX_NEAR(c[i][d], r.c[i][d], 1e-4, 1e-4, "centre %d after %d iterations", i, r.iterations);
    vx::outcome(r.ambiguous ? "near tie" : "compared with Lloyd");
    vx::state(hash(c));
    // frames are attributed to the nearest centre
    for (auto& p : s.ph)
        for (size_t t = 0; t < p.size(); t += 3) {
            km.filter(p[t]);
            vx::step();
            double best = 1e300;
            VX_CHECK((int)km.results.distances.size() == k, "%zu distances", km.results.distances.size());
            for (int i = 0; i < k; i++) {
                double d = distance(todouble(p[t]), c[i]);
                best = std::min(best, d);
                VX_NEAR(km.results.distances[i], d, 1e-5, 1e-5, "distance to centre %d", i);
            }
            VX_CHECK((int)km.results.likeliest < k && distance(todouble(p[t]), c[km.results.likeliest]) <= best + 1e-5, "centre %u is not the nearest one",
                     km.results.likeliest);
        }
}
