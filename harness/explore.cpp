#include "explore.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>

namespace vx {
namespace {
const int MAXC = 4096, MAXM = 3000;
struct Slot {  // shared memory, one per worker
    volatile int nchoices;
    int choices[MAXC];
    volatile uint64_t execs, pruned, steps, known;
    volatile int status;  // 0 running, 1 finished, 2 violation, 3 deadline
    char msg[MAXM];
    char sample[3][MAXM];
    volatile int nsamples;
};
bool g_thorough = false, g_verbose = false;
int g_note_fd = -1;
double g_deadline = 0;
std::string g_property, g_notes;
std::set<std::string> g_known;

// per-process exploration state
std::vector<int> path, arity;
size_t pos = 0, npath = 0;
int g_split = 2, g_worker = 0, g_jobs = 1;
uint64_t split_counter = 0;
bool g_replaying = false, g_leak_second = false;
Slot* slot = nullptr;
std::unordered_set<uint64_t> states;
std::unordered_map<std::string, uint64_t> outcomes;
std::set<std::string> known_hits;

double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
}  // namespace

bool thorough() { return g_thorough; }
bool verbose() { return g_verbose; }
void step(unsigned n) {
    if (slot) slot->steps = slot->steps + n;
}
bool state(uint64_t h) { return states.insert(h).second; }
void outcome(std::string const& s) {
    if (!g_replaying) outcomes[s]++;
}
void note(const char* fmt, ...) {
    if (!g_verbose) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    g_notes += buf;
    g_notes += "\n";
    if (g_note_fd >= 0) {
        std::string l = std::string(buf) + "\n";
        if (write(g_note_fd, l.data(), l.size()) < 0) _exit(5);
    }
}
void fail(const char* fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{buf};
}
void finding(std::string const& key, std::string const& msg) {
    if (g_known.count(key)) {
        known_hits.insert(key);
        if (slot) slot->known = slot->known + 1;
        throw Prune{};
    }
    fail("[%s] %s", key.c_str(), msg.c_str());
}
std::vector<Scenario>& registry() {
    static std::vector<Scenario> r;
    return r;
}
int pick(int n) {
    if (n <= 0) throw Prune{};
    int c;
    if (pos < npath) {
        c = path[pos];
        if (g_replaying && arity.size() <= pos) {
            arity.push_back(n);
        } else if (arity[pos] != n) {
            fprintf(stderr, "engine: nondeterministic arity at %zu: %d vs %d\n",
                    pos, arity[pos], n);
            fail("nondeterministic scenario: the number of choices at position "
                 "%zu changed from %d to %d for the same choice prefix",
                 pos, arity[pos], n);
        }
        if (c >= n) fail("replay choice out of range");
    } else {
        if (pos >= (size_t)MAXC) {
            fprintf(stderr, "engine: too many choices\n");
            _exit(3);
        }
        c = 0;
        path.push_back(0);
        arity.push_back(n);
        npath = path.size();
    }
    if (slot) {
        slot->choices[pos] = c;
        slot->nchoices = (int)pos + 1;
    }
    pos++;
    if (!g_replaying && !g_leak_second && (int)pos == g_split) {
        // first visit of this split prefix in this position decides ownership
        Hash h;
        for (size_t i = 0; i < pos; i++) h.add(path[i]);
        if ((int)((h.h >> 7) % g_jobs) != g_worker) throw Prune{};
    }
    return c;
}
namespace {
// one execution; returns false on violation (msg set)
bool run_once(Scenario const& s, std::string& msg, bool& pruned) {
    pos = 0;
    pruned = false;
    if (slot) slot->nchoices = 0;
    try {
        s.body();
        if ((int)pos < g_split && !g_replaying && !g_leak_second) {
            // leaf above the split depth: owned by hash of what there is
            Hash h;
            for (size_t i = 0; i < pos; i++) h.add(path[i]);
            if ((int)((h.h >> 7) % g_jobs) != g_worker) pruned = true;
        }
    } catch (Prune&) {
        pruned = true;
    } catch (Violation& v) {
        msg = v.msg;
        return false;
    } catch (std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return false;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return false;
    }
    return true;
}
bool run_checked(Scenario const& s, std::string& msg, bool& pruned) {
    if (!s.leakcheck) return run_once(s, msg, pruned);
    size_t b0 = __sanitizer_get_current_allocated_bytes();
    if (!run_once(s, msg, pruned)) return false;
    if (pruned) return true;
    size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (b1 <= b0) return true;
    // growth: engine containers / lazily built statics?  The same choices must
    // not grow the heap a second and a third time.
    g_leak_second = true;
    npath = path.size();
    bool p2, ok = run_once(s, msg, p2);
    size_t b2 = __sanitizer_get_current_allocated_bytes();
    if (ok) ok = run_once(s, msg, p2);
    size_t b3 = __sanitizer_get_current_allocated_bytes();
    g_leak_second = false;
    if (!ok) return false;
    if (b3 > b2 && b2 > b1) {
        std::ostringstream o;
        o << "memory leak: every execution of this history leaves "
          << (b3 - b2) << " more bytes allocated";
        msg = o.str();
        return false;
    }
    return true;
}
bool advance() {  // next path in DFS order
    path.resize(std::min(path.size(), pos));
    arity.resize(path.size());
    while (!path.empty() && path.back() + 1 >= arity.back()) {
        path.pop_back();
        arity.pop_back();
    }
    if (path.empty()) return false;
    path.back()++;
    npath = path.size();
    return true;
}
void reset_engine() {
    path.clear();
    arity.clear();
    path.reserve(MAXC);
    arity.reserve(MAXC);
    pos = npath = 0;
}
// whole DFS of one worker
int worker(Scenario const& s, int w, int jobs, Slot* sl, int fd_out) {
    slot = sl;
    g_worker = w;
    g_jobs = jobs;
    g_split = s.split;
    reset_engine();
    states.reserve(1 << 16);
    std::string msg;
    bool more = true;
    uint64_t next_sample = 1;
    while (more) {
        bool pruned;
        bool ok = run_checked(s, msg, pruned);
        if (!ok) {
            strncpy(sl->msg, msg.c_str(), MAXM - 1);
            sl->status = 2;
            return 77;
        }
        if (pruned)
            sl->pruned = sl->pruned + 1;
        else
            sl->execs = sl->execs + 1;
        if (!pruned && sl->nsamples < 3 && sl->execs == next_sample) {
            next_sample = next_sample * 37 + 3;
            // describe this execution
            g_verbose = true;
            g_replaying = true;
            g_notes.clear();
            npath = path.size();
            bool p2;
            std::string m2;
            std::vector<int> ar = arity;
            size_t savepos = pos;
            if (!run_once(s, m2, p2)) {
                // same choices, other verdict: state leaks between executions
                strncpy(sl->msg, m2.c_str(), MAXM - 1);
                sl->status = 2;
                return 77;
            }
            g_verbose = false;
            g_replaying = false;
            arity = ar;
            pos = savepos;
            strncpy(sl->sample[sl->nsamples], g_notes.c_str(), MAXM - 1);
            sl->nsamples = sl->nsamples + 1;
        }
        if ((sl->execs & 15) == 0 && now() > g_deadline) {
            sl->status = 3;
            break;
        }
        more = advance();
    }
    if (sl->status == 0) sl->status = 1;
    // report distinct states / outcomes
    uint64_t n = states.size();
    auto wr = [&](const void* p, size_t k) {
        const char* c = (const char*)p;
        while (k) {
            ssize_t r = write(fd_out, c, k);
            if (r <= 0) _exit(4);
            c += r;
            k -= r;
        }
    };
    std::vector<uint64_t> v(states.begin(), states.end());
    wr(&n, 8);
    wr(v.data(), v.size() * 8);
    n = outcomes.size();
    wr(&n, 8);
    for (auto& o : outcomes) {
        uint64_t l = o.first.size();
        wr(&l, 8), wr(o.first.data(), l), wr(&o.second, 8);
    }
    std::string ks;
    for (auto& k : known_hits) ks += k + "\n";
    n = ks.size();
    wr(&n, 8);
    wr(ks.data(), n);
    return 0;
}

std::string json_escape(std::string const& s);
// the most frequent outcomes
std::string common(std::map<std::string, uint64_t> const& m) {
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto& o : m) v.push_back({o.second, o.first});
    std::sort(v.rbegin(), v.rend());
    std::string r;
    for (size_t i = 0; i < v.size() && i < 12; i++)
        r += (i ? ",\"" : "\"") + json_escape(v[i].second) + "\":" + std::to_string(v[i].first);
    return "{" + r + "}";
}

std::string json_escape(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}

// replay one choice list in a child; returns true if it fails again
bool replay_child(Scenario const& s, std::vector<int> const& choices,
                  std::string& text, double limit) {
    int fds[2];
    if (pipe(fds)) return false;
    int errfd = -1;
    char tmpl[] = "/tmp/vxerrXXXXXX";
    errfd = mkstemp(tmpl);
    unlink(tmpl);
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        dup2(errfd, 2);
        slot = nullptr;
        g_replaying = true;
        g_verbose = true;
        g_split = 1 << 30;
        reset_engine();
        path = choices;
        npath = path.size();
        // stream notes so that they survive a crash
        std::string msg;
        bool pruned = false, ok;
        g_note_fd = fds[1];  // notes are written as they come
        ok = run_checked(s, msg, pruned);
        std::string out = ok ? (pruned ? "RESULT pruned\n" : "RESULT ok\n")
                             : "RESULT violation: " + msg + "\n";
        if (write(fds[1], out.data(), out.size()) < 0) _exit(5);
        _exit(ok ? 0 : 77);
    }
    close(fds[1]);
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    double t0 = now();
    int st = 0;
    bool hang = false;
    while (true) {
        char buf[4096];
        ssize_t r;
        while ((r = read(fds[0], buf, sizeof buf)) > 0) text.append(buf, r);
        pid_t p = waitpid(pid, &st, WNOHANG);
        if (p == pid) break;
        if (now() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hang = true;
            break;
        }
        usleep(2000);
    }
    char buf[4096];
    ssize_t r;
    while ((r = read(fds[0], buf, sizeof buf)) > 0) text.append(buf, r);
    close(fds[0]);
    bool failed = hang || WIFSIGNALED(st) ||
                  (WIFEXITED(st) && WEXITSTATUS(st) != 0);
    if (hang) text += "RESULT violation: execution does not terminate\n";
    if (failed && text.find("RESULT") == std::string::npos) {
        text += "RESULT violation: abnormal termination\n";
        lseek(errfd, 0, SEEK_SET);
        std::string err;
        while ((r = read(errfd, buf, sizeof buf)) > 0) err.append(buf, r);
        text += err.substr(0, 6000) + "\n";
    }
    close(errfd);
    return failed;
}
}  // namespace
}  // namespace vx

int main(int argc, char** argv) {
    using namespace vx;
    std::string out, replay, only, replay_dir = ".", known_file;
    int jobs = 8;
    double budget = 800;
    double hang_limit = 60;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier")
            g_thorough = val() == "thorough";
        else if (a == "--jobs")
            jobs = atoi(val().c_str());
        else if (a == "--out")
            out = val();
        else if (a == "--replay")
            replay = val();
        else if (a == "--replay-dir")
            replay_dir = val();
        else if (a == "--property")
            g_property = val();
        else if (a == "--only")
            only = val();
        else if (a == "--budget")
            budget = atof(val().c_str());
        else if (a == "--known")
            known_file = val();
    }
    if (!known_file.empty()) {
        std::ifstream f(known_file);
        std::string line;
        // lines: "finding: property=<id> key=<key> <text>"
        while (std::getline(f, line)) {
            std::string pre = "finding: property=" + g_property + " key=";
            if (line.compare(0, pre.size(), pre) == 0) {
                std::string k = line.substr(pre.size());
                k = k.substr(0, k.find(' '));
                g_known.insert(k);
            }
        }
    }
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, scen, tier_s;
        std::vector<int> ch;
        int hw = -1, hj = 0;
        while (std::getline(f, line)) {
            if (line.compare(0, 10, "scenario: ") == 0) scen = line.substr(10);
            if (line.compare(0, 6, "tier: ") == 0) tier_s = line.substr(6);
            if (line.compare(0, 9, "history: ") == 0)
                sscanf(line.c_str(), "history: worker %d of %d", &hw, &hj);
            if (line.compare(0, 9, "choices: ") == 0) {
                std::istringstream is(line.substr(9));
                int c;
                while (is >> c) ch.push_back(c);
            }
        }
        g_thorough = tier_s == "thorough";
        for (auto& s : registry())
            if (scen == s.name) {
                if (hw >= 0) {
                    printf("replaying worker %d of %d\n", hw, hj);
                    Slot* sl = (Slot*)calloc(1, sizeof(Slot));
                    g_deadline = now() + 3600;
                    int r = worker(s, hw, hj, sl, open("/dev/null", O_WRONLY));
                    printf("%s\n", r == 77 ? sl->msg : "no violation");
                    return r == 77 ? 1 : 0;
                }
                std::string text;
                bool bad = replay_child(s, ch, text, 600);
                printf("%s", text.c_str());
                return bad ? 1 : 0;
            }
        printf("no scenario %s\n", scen.c_str());
        return 2;
    }

    double t0 = now();
    g_deadline = t0 + budget;
    std::ostringstream js;
    uint64_t T_exec = 0, T_steps = 0, T_known = 0, T_states = 0, T_out = 0;
    bool exhaustive = true;
    bool violated = false;
    std::string replay_path, vmsg, known_all;
    js << "{\"scenarios\":[";
    bool first = true;
    for (auto& s : registry()) {
        if (!only.empty() && only != s.name) continue;
        double ts = now();
        Slot* slots =
            (Slot*)mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*)slots, 0, sizeof(Slot) * jobs);
        std::vector<pid_t> pids(jobs);
        std::vector<int> fds(jobs);
        std::vector<std::string> data(jobs);
        fflush(stdout);
        for (int w = 0; w < jobs; w++) {
            int p[2];
            if (pipe(p)) return 3;
            pid_t pid = fork();
            if (pid == 0) {
                close(p[0]);
                for (int v = 0; v < w; v++) close(fds[v]);
                int ef = open("/dev/null", O_WRONLY);
                if (!getenv("VX_STDERR")) dup2(ef, 2);
                dup2(ef, 1);
                _exit(worker(s, w, jobs, &slots[w], p[1]));
            }
            close(p[1]);
            fcntl(p[0], F_SETFL, O_NONBLOCK);
            pids[w] = pid;
            fds[w] = p[0];
        }
        std::vector<bool> alive(jobs, true);
        std::vector<uint64_t> last(jobs, ~0ull);
        std::vector<double> lastt(jobs, now());
        std::vector<std::string> wfail(jobs);
        int nalive = jobs;
        int bad = -1;
        bool badhang = false;
        while (nalive > 0 && bad < 0) {
            for (int w = 0; w < jobs; w++) {
                if (!alive[w]) continue;
                char buf[65536];
                ssize_t r;
                while ((r = read(fds[w], buf, sizeof buf)) > 0)
                    data[w].append(buf, r);
                int st;
                if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
                    while ((r = read(fds[w], buf, sizeof buf)) > 0)
                        data[w].append(buf, r);
                    alive[w] = false;
                    nalive--;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = w;
                } else {
                    uint64_t k = slots[w].execs + slots[w].pruned +
                                 slots[w].steps;
                    if (slots[w].status == 0 && k != last[w]) {
                        last[w] = k;
                        lastt[w] = now();
                    } else if (slots[w].status == 0 &&
                               now() - lastt[w] > hang_limit) {
                        bad = w;
                        badhang = true;
                    }
                }
            }
            usleep(3000);
        }
        if (bad >= 0) {
            for (int w = 0; w < jobs; w++)
                if (alive[w]) {
                    kill(pids[w], SIGKILL);
                    int st;
                    waitpid(pids[w], &st, 0);
                }
            Slot& b = slots[bad];
            std::vector<int> ch(b.choices, b.choices + b.nchoices);
            std::string text;
            bool again = replay_child(s, ch, text, badhang ? 300 : 120);
            replay_path = replay_dir + "/" + g_property + "-" + s.name + ".replay";
            std::ofstream f(replay_path);
            f << "property: " << g_property << "\nscenario: " << s.name
              << "\ntier: " << (g_thorough ? "thorough" : "quick") << "\n";
            if (again) {
                f << "choices:";
                for (int c : ch) f << " " << c;
                f << "\n";
            } else {
                // depends on what this process did before: the whole worker is
                // deterministic, so it is the replay; verify that it is.
                Slot* sl = (Slot*)mmap(nullptr, sizeof(Slot),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                memset((void*)sl, 0, sizeof(Slot));
                double save = g_deadline;
                g_deadline = now() + 600;
                pid_t pid = fork();
                if (pid == 0) {
                    int ef = open("/dev/null", O_WRONLY);
                    dup2(ef, 2);
                    _exit(worker(s, bad, jobs, sl, ef));
                }
                int st = 0;
                double tw = now();
                bool h2 = false;
                while (waitpid(pid, &st, WNOHANG) != pid) {
                    if (now() - tw > 300) {
                        kill(pid, SIGKILL);
                        waitpid(pid, &st, 0);
                        h2 = true;
                        break;
                    }
                    usleep(5000);
                }
                g_deadline = save;
                bool same = (h2 == badhang) && sl->execs == b.execs &&
                            sl->pruned == b.pruned &&
                            !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                if (!same) {
                    f << "NOT REPRODUCED: " << b.msg << "\n";
                    f.close();
                    fprintf(stderr,
                            "engine error: scenario %s failed once (%s) and "
                            "does not fail again\n",
                            s.name, b.msg);
                    return 5;
                }
                f << "history: worker " << bad << " of " << jobs << " (execution "
                  << b.execs + b.pruned
                  << "; the failure depends on earlier executions in the same "
                     "process)\nchoices-of-last:";
                for (int c : ch) f << " " << c;
                f << "\n";
                text += "in worker: " + std::string(b.msg) + "\n";
            }
            f << "trace:\n" << text;
            f.close();
            size_t q = text.rfind("RESULT violation: ");
            vmsg = b.status == 2 ? b.msg
                   : q != std::string::npos
                       ? text.substr(q + 18, text.find('\n', q) - q - 18)
                       : "crash";
            violated = true;
            printf("  scenario %s: %s\n", s.name, vmsg.c_str());
        }
        uint64_t ex = 0, pr = 0, stp = 0, kn = 0;
        std::unordered_set<uint64_t> S;
        std::map<std::string, uint64_t> O;
        bool full = bad < 0;
        std::string samples;
        for (int w = 0; w < jobs; w++) {
            close(fds[w]);
            ex += slots[w].execs;
            pr += slots[w].pruned;
            stp += slots[w].steps;
            kn += slots[w].known;
            if (slots[w].status != 1) full = false;
            const std::string& d = data[w];
            size_t o = 0;
            auto rd = [&](void* p, size_t k) {
                if (o + k > d.size()) return false;
                memcpy(p, d.data() + o, k);
                o += k;
                return true;
            };
            uint64_t n, v;
            if (rd(&n, 8))
                for (uint64_t i = 0; i < n && rd(&v, 8); i++) S.insert(v);
            if (rd(&n, 8))
                for (uint64_t i = 0; i < n && rd(&v, 8) && o + v <= d.size(); i++) {
                    std::string t = d.substr(o, v);
                    o += v;
                    if (rd(&v, 8)) O[t] += v;
                }
            if (rd(&n, 8) && n) known_all += d.substr(o, n);
            if (w < 2)
                for (int i = 0; i < slots[w].nsamples && i < 2; i++) {
                    if (!samples.empty()) samples += ",";
                    samples += "\"" + json_escape(std::string(
                                          slots[w].sample[i])) + "\"";
                }
        }
        munmap(slots, sizeof(Slot) * jobs);
        exhaustive &= full;
        T_exec += ex;
        T_steps += stp;
        T_known += kn;
        T_states += S.size();
        T_out += O.size();
        js << (first ? "" : ",") << "{\"name\":\"" << s.name
           << "\",\"executions\":" << ex << ",\"operations\":" << stp
           << ",\"distinct_states\":" << S.size()
           << ",\"distinct_outcomes\":" << O.size() << ",\"outcomes\":" << common(O)
           << ",\"known_finding_hits\":" << kn << ",\"complete\":"
           << (full ? "true" : "false") << ",\"wall_s\":" << (now() - ts)
           << ",\"samples\":[" << samples << "]}";
        first = false;
        printf("  %-34s execs %9llu ops %10llu states %8zu outcomes %7zu %s "
               "%.1fs\n",
               s.name, (unsigned long long)ex, (unsigned long long)stp,
               S.size(), O.size(), full ? "complete" : "INCOMPLETE",
               now() - ts);
        fflush(stdout);
        if (violated) break;
    }
    js << "],\"executions\":" << T_exec << ",\"operations\":" << T_steps
       << ",\"states\":" << T_states << ",\"outcomes\":" << T_out
       << ",\"known_hits\":" << T_known << ",\"known_keys\":\""
       << json_escape(known_all) << "\",\"exhaustive\":"
       << (exhaustive ? "true" : "false")
       << ",\"violations\":" << (violated ? 1 : 0) << ",\"replay\":\""
       << json_escape(replay_path) << "\",\"message\":\"" << json_escape(vmsg)
       << "\",\"wall_s\":" << (now() - t0) << "}\n";
    if (!out.empty()) {
        std::ofstream f(out);
        f << js.str();
    }
    return violated ? 1 : 0;
}
