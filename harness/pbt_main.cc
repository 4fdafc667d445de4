#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <unordered_set>

using namespace pbt;

// Coverage-guided search: the library under test is compiled with -fsanitize-coverage=trace-pc. Edges and sequences of
// three blocks are counted in two maps; a case that reaches a new one (or a new order of magnitude of its count) is kept
// and mutated as a choice sequence, so shrinking and replay work as for random cases.
static const size_t COV = 1 << 16;
static uint8_t cov_map[2 * COV], cov_seen[2 * COV];
static bool cov_on = false;
static uint64_t cov_p1, cov_p2;
extern "C" __attribute__((noinline)) void __sanitizer_cov_trace_pc() {
    if (!cov_on) return;
    uint64_t pc = ((uint64_t)__builtin_return_address(0) - (uint64_t)&__sanitizer_cov_trace_pc) * 0x9E3779B97F4A7C15ULL;
    uint8_t &a = cov_map[(pc ^ (cov_p1 << 1)) >> 48], &b = cov_map[COV + ((pc ^ (cov_p1 * 3) ^ (cov_p2 * 5)) >> 48)];
    if (a != 255) a++;
    if (b != 255) b++;
    cov_p2 = cov_p1;
    cov_p1 = pc;
}
/// Takes note of what the last case reached; true if some of it is new.
static bool cov_new() {
    bool fresh = false;
    for (size_t i = 0; i < 2 * COV; i += 8) {
        uint64_t w;
        memcpy(&w, cov_map + i, 8);
        if (!w) continue;
        for (size_t k = i; k < i + 8; k++) {
            uint8_t x = cov_map[k];
            if (!x) continue;
            uint8_t bit = x < 4 ? (uint8_t)(1 << (x - 1)) : x < 8 ? 8 : x < 16 ? 16 : x < 32 ? 32 : x < 128 ? 64 : 128;
            if (!(cov_seen[k] & bit)) { cov_seen[k] |= bit; fresh = true; }
        }
    }
    return fresh;
}

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
Gen::Gen(uint64_t seed) {
    for (auto &v : s) v = splitmix(seed);
}
uint64_t Gen::next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return result;
}
uint64_t Gen::choice(uint64_t n) {
    uint64_t v;
    if (n == 0) n = 1;
    if (replay && !(extend && pos >= replay->size())) {
        v = pos < replay->size() ? (*replay)[pos] : 0;
        if (v >= n) v = n - 1;
    } else {
        v = (uint64_t)(((unsigned __int128)next() * n) >> 64);
    }
    pos++;
    rec.push_back(v);
    if (keep_limits) limits.push_back(n);
    if (mirror && rec.size() <= mirror_cap) {
        mirror[rec.size() - 1] = v;
        *mirror_n = rec.size();
    }
    return v;
}
size_t Gen::weighted(std::initializer_list<int> ws) {
    int64_t tot = 0;
    for (int w : ws) tot += w;
    int64_t x = (int64_t)choice((uint64_t)tot);
    size_t i = 0;
    for (int w : ws) {
        if (x < w) return i;
        x -= w;
        i++;
    }
    return 0;
}
int64_t Gen::skew(int64_t lo, int64_t hi) {
    int64_t span = hi - lo;
    switch (choice(4)) {
        case 0: return lo + (int64_t)choice((uint64_t)std::min<int64_t>(span, 3) + 1);
        case 1: return lo + (int64_t)choice((uint64_t)std::min<int64_t>(span, 8) + 1);
        case 2: return lo + (int64_t)choice((uint64_t)(span / 3) + 1);
        default: return lo + (int64_t)choice((uint64_t)span + 1);
    }
}

static const size_t MSG = 16384, MAXCH = 1 << 21;
struct Slot {
    volatile uint64_t cur_case;
    volatile uint64_t done;
    volatile int state;  // 0 running, 1 finished, 2 property failed
    char msg[MSG];
    volatile uint64_t nrec;
    uint64_t rec[MAXCH];
    char desc[MSG * 8];
};

static void copy_str(char *dst, size_t cap, const std::string &s) {
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

void Ctx::commit() {
    if (mirror) copy_str(mirror, mirror_cap, desc.str());
}
static void attach(Gen &g, Slot *s) {
    g.mirror = s->rec;
    g.mirror_n = &s->nrec;
    g.mirror_cap = MAXCH;
    s->nrec = 0;
}

static std::string jesc(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static int g_scale = 0;
static double g_cpu = 30;

static void arm(double secs) {
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = (long)secs;
    tv.it_value.tv_usec = (long)((secs - (long)secs) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
}

/// Runs one case in this process. Returns true if the property held. Unexpected exceptions are failures.
static bool run_case(Gen &g, Ctx &c, std::string &msg) {
    g.scale = g_scale;
    try {
        property(g, c);
        return true;
    } catch (const Fail &f) {
        msg = f.msg;
    } catch (const std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
    }
    return false;
}

static uint64_t case_seed(uint64_t seed, uint64_t i) {
    uint64_t x = seed * 0x2545F4914F6CDD1DULL + 0x1234567;
    uint64_t a = splitmix(x);
    x = a ^ (i * 0x9e3779b97f4a7c15ULL);
    return splitmix(x);
}

static uint64_t hash_rec(const std::vector<uint64_t> &r) {
    uint64_t h = 1469598103934665603ULL;
    for (auto v : r) { h ^= v + 0x9e3779b97f4a7c15ULL; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
}

static Slot *make_slot() {
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Slot *)p;
}

static void redirect(const std::string &err) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

static std::string slurp(const std::string &p, size_t cap = 6000) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > cap) s.resize(cap);
    return s;
}

static uint64_t rss_mb(pid_t p) {
    char b[64];
    snprintf(b, 64, "/proc/%d/statm", p);
    FILE *f = fopen(b, "r");
    if (!f) return 0;
    unsigned long a = 0, r = 0;
    if (fscanf(f, "%lu %lu", &a, &r) != 2) r = 0;
    fclose(f);
    return r * 4096 / (1 << 20);
}

static std::string describe_status(int st, const std::string &errfile) {
    std::ostringstream o;
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGPROF) o << "hang: case exceeded its CPU-time limit";
        else if (s == SIGKILL) o << "killed (memory blow-up)";
        else o << "crash: signal " << s << " (" << strsignal(s) << ")";
    } else {
        o << "crash: exit status " << WEXITSTATUS(st);
    }
    std::string e = slurp(errfile, 4000);
    if (!e.empty()) o << "\n" << e;
    return o.str();
}

struct Outcome {
    bool failed = false;
    std::string msg, desc;
    std::vector<uint64_t> rec;
};

static std::string g_tmp;

/// Runs a choice sequence in a forked child.
static Outcome run_forked(const std::vector<uint64_t> &ch, Slot *slot, double cpu, bool want_labels = false) {
    slot->state = 0;
    slot->nrec = 0;
    slot->msg[0] = slot->desc[0] = 0;
    std::string err = g_tmp + "/shrink.err";
    pid_t pid = fork();
    if (pid == 0) {
        redirect(err);
        signal(SIGPROF, SIG_DFL);
        arm(cpu);
        Gen g(&ch);
        Ctx c;
        attach(g, slot);
        c.mirror = slot->desc;
        c.mirror_cap = sizeof slot->desc;
        c.want_labels = want_labels;
        std::string msg;
        bool ok = run_case(g, c, msg);
        arm(0);
        copy_str(slot->desc, sizeof slot->desc, c.desc.str());
        if (!ok) copy_str(slot->msg, MSG, msg);
        slot->state = ok ? 1 : 2;
        _exit(0);
    }
    int st = 0;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (rss_mb(pid) > 4000) kill(pid, SIGKILL);
        usleep(300);
    }
    Outcome o;
    if (slot->state == 1) return o;
    o.failed = true;
    o.desc = slot->desc;
    if (slot->state == 2) {
        o.msg = slot->msg;
    } else {
        o.msg = describe_status(st, err);
    }
    o.rec.assign(slot->rec, slot->rec + slot->nrec);
    return o;
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static Outcome shrink(Outcome best, Slot *slot, double budget, double cpu, bool wl) {
    double end = now() + budget;
    size_t tries = 0;
    auto attempt = [&](const std::vector<uint64_t> &c) {
        if (now() > end) return false;
        tries++;
        Outcome o = run_forked(c, slot, cpu, wl);
        if (!o.failed) return false;
        if (o.rec.size() > c.size()) o.rec.resize(c.size());
        if (simpler(o.rec, best.rec)) { best = o; return true; }
        if (simpler(c, best.rec)) { o.rec = c; best = o; return true; }
        return false;
    };
    // Trailing zeros are implied.
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(best.rec.size() / 2, 1); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.rec.size() && now() < end;) {
                auto c = best.rec;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) { progress = true; continue; }
                c = best.rec;
                bool nz = false;
                for (size_t k = i; k < i + len; k++) { nz |= c[k] != 0; c[k] = 0; }
                if (nz && attempt(c)) { progress = true; continue; }
                i += len > 1 ? len : 1;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.rec.size() && now() < end; i++) {
            uint64_t lo = 0, hi = best.rec[i];
            while (lo < hi && i < best.rec.size() && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto c = best.rec;
                c[i] = mid;
                if (attempt(c)) { progress = true; if (i >= best.rec.size()) break; hi = std::min(mid, best.rec[i]); }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

/// Runs cases first, first+W, ..., last of a search in one process: for failures that depend on earlier cases.
static Outcome run_sequence(uint64_t seed, uint64_t first, uint64_t last, int W, Slot *slot) {
    slot->state = 0;
    slot->nrec = 0;
    slot->desc[0] = slot->msg[0] = 0;
    std::string err = g_tmp + "/seq.err";
    pid_t pid = fork();
    if (pid == 0) {
        redirect(err);
        signal(SIGPROF, SIG_DFL);
        for (uint64_t i = first; i <= last; i += W) {
            arm(g_cpu);
            Gen g(case_seed(seed, i));
            Ctx c;
            attach(g, slot);
            c.want_labels = (i / W) % 8 == 0;
            std::string msg;
            if (!run_case(g, c, msg)) {
                copy_str(slot->desc, sizeof slot->desc, c.desc.str());
                copy_str(slot->msg, MSG, msg);
                slot->state = 2;
                _exit(0);
            }
        }
        slot->state = 1;
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    Outcome o;
    if (slot->state == 1) return o;
    o.failed = true;
    o.desc = slot->desc;
    o.msg = slot->state == 2 ? std::string(slot->msg) : describe_status(st, err);
    return o;
}

struct Seed {
    std::vector<uint64_t> rec, lim;
    double cost;  // seconds
};
/// A kept case with a few changes of its choices.
static std::vector<uint64_t> mutate(const std::vector<Seed> &corpus, Gen &g) {
    auto any = [&](uint64_t n) { return n ? g.next() % n : 0; };
    auto pick = [&]() -> const Seed & {
        size_t n = corpus.size();
        size_t best = any(n);
        for (int k = 0; k < 2; k++) {  // cheap and recent ones more often
            size_t i = any(2) || n < 16 ? any(n) : n - 1 - any(n / 8);
            if (corpus[i].cost < corpus[best].cost) best = i;
        }
        return corpus[best];
    };
    const Seed &s = pick();
    auto r = s.rec;
    auto l = s.lim;
    for (uint64_t k = 1 + any(any(4) ? 3 : 10); k > 0 && !r.empty(); k--) {
        size_t i = any(r.size());
        switch (any(8)) {
            default: r[i] = any(l[i]); break;
            case 0: r[i] = r[i] + 1 < l[i] ? r[i] + 1 : 0; break;
            case 1: r[i] = any(2) ? 0 : l[i] - 1; break;
            case 2: {  // leave some out
                size_t n = 1 + any(std::min<size_t>(r.size() - i, any(3) ? 4 : 40));
                n = std::min(n, r.size() - i);
                r.erase(r.begin() + i, r.begin() + i + n);
                l.erase(l.begin() + i, l.begin() + i + n);
                break;
            }
            case 3: {  // repeat some
                size_t n = std::min<size_t>(1 + any(12), r.size() - i);
                std::vector<uint64_t> a(r.begin() + i, r.begin() + i + n), b(l.begin() + i, l.begin() + i + n);
                r.insert(r.begin() + i, a.begin(), a.end());
                l.insert(l.begin() + i, b.begin(), b.end());
                break;
            }
            case 4: {  // go on like another case, or at random
                r.resize(i);
                l.resize(i);
                if (any(2)) {
                    const Seed &t = pick();
                    size_t j = std::min(i, t.rec.size());
                    r.insert(r.end(), t.rec.begin() + j, t.rec.end());
                    l.insert(l.end(), t.lim.begin() + j, t.lim.end());
                }
                break;
            }
        }
    }
    return r;
}

static uint64_t json_num(const std::string &t, const std::string &key) {
    size_t k = t.find("\"" + key + "\":");
    return k == std::string::npos ? 0 : strtoull(t.c_str() + k + key.size() + 3, nullptr, 10);
}

__attribute__((weak)) void pbt::known_probes(std::map<std::string, std::string> &) {}

static std::vector<uint64_t> read_choices(const std::string &path) {
    std::string s = slurp(path, 1 << 28);
    size_t k = s.find("\"choices\":");
    std::vector<uint64_t> v;
    if (k == std::string::npos) return v;
    k = s.find('[', k) + 1;
    while (k < s.size() && s[k] != ']') {
        if (isdigit((unsigned char)s[k])) {
            char *e;
            v.push_back(strtoull(s.c_str() + k, &e, 10));
            k = e - s.c_str();
        } else k++;
    }
    return v;
}

int main(int argc, char **argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), nullptr, 10) : 1;
    uint64_t cases = a.count("--cases") ? strtoull(a["--cases"].c_str(), nullptr, 10) : 1000;
    int W = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
    double cap = a.count("--time-cap") ? atof(a["--time-cap"].c_str()) : 300;
    if (a.count("--case-cpu")) g_cpu = atof(a["--case-cpu"].c_str());
    g_scale = a.count("--scale") ? atoi(a["--scale"].c_str()) : 0;
    bool cov = a.count("--cov");
    std::string out = a["--out"], replay_out = a["--replay-out"];
    char tmpl[] = "/tmp/pbtXXXXXX";
    g_tmp = mkdtemp(tmpl);
    auto cleanup = [&]() { std::string c = "rm -rf " + g_tmp; if (g_tmp.rfind("/tmp/pbt", 0) == 0) { int r = system(c.c_str()); (void)r; } };

    Slot *sh = make_slot();
    if (a.count("--replay")) {
        auto ch = read_choices(a["--replay"]);
        std::string t = slurp(a["--replay"], 1 << 28);
        if (t.find("\"scale\": 1") != std::string::npos) g_scale = 1;
        Outcome o;
        if (t.find("\"sequence_start\":") != std::string::npos)
            o = run_sequence(json_num(t, "seed"), json_num(t, "sequence_start"), json_num(t, "case"), (int)json_num(t, "sequence_stride"), sh);
        else o = run_forked(ch, sh, g_cpu);
        std::cout << (o.failed ? "FAIL " : "PASS ") << o.msg << "\n" << o.desc << "\n";
        cleanup();
        return o.failed ? 1 : 0;
    }

    double t0 = now();
    std::vector<Slot *> slots;
    std::vector<pid_t> pids;
    for (int w = 0; w < W; w++) {
        slots.push_back(make_slot());
        std::string base = g_tmp + "/w" + std::to_string(w);
        pid_t pid = fork();
        if (pid == 0) {
            redirect(base + ".err");
            signal(SIGPROF, SIG_DFL);
            Slot *s = slots[w];
            std::unordered_set<uint64_t> hashes;
            std::map<std::string, uint64_t> labels;
            std::vector<std::string> samples;
            uint64_t evals = 0, labelled = 0, kept = 0, mutated = 0;
            std::vector<Seed> corpus;
            for (uint64_t i = w; i < cases; i += W) {
                if (now() - t0 > cap) break;
                s->cur_case = i;
                arm(g_cpu);
                Gen g(case_seed(seed, i));
                Ctx c;
                attach(g, s);
                c.want_labels = (i / W) % 8 == 0;
                std::string msg;
                std::vector<uint64_t> base_rec;
                if (cov) {
                    g.keep_limits = true;
                    if (!corpus.empty() && g.next() % 5) {
                        base_rec = mutate(corpus, g);
                        g.replay = &base_rec;
                        g.extend = g.next() % 4 != 0;
                        mutated++;
                    }
                    memset(cov_map, 0, sizeof cov_map);
                    cov_p1 = cov_p2 = 0;
                    cov_on = true;
                }
                double before = cov ? now() : 0;
                bool ok = run_case(g, c, msg);
                cov_on = false;
                if (cov && ok && cov_new()) {
                    double cost = now() - before;
                    if (cost < 0.002 || cost < 8 * (before - t0) / (evals + 1)) {
                        kept++;
                        if (corpus.size() < 4000) corpus.push_back({g.rec, g.limits, cost});
                        else corpus[g.next() % corpus.size()] = {g.rec, g.limits, cost};
                    }
                }
                if (!ok) {
                    arm(0);
                    copy_str(s->msg, MSG, msg);
                    copy_str(s->desc, sizeof s->desc, c.desc.str());
                    s->state = 2;
                    _exit(0);
                }
                evals++;
                s->done = evals;
                labelled += c.want_labels;
                for (auto &l : c.labels) labels[l.first] += l.second;
                if (c.nontrivial) {
                    bool fresh = hashes.insert(hash_rec(g.rec)).second;
                    if (fresh && samples.size() < 2 && g.rec.size() > 8) samples.push_back(c.desc.str().substr(0, 3000));
                }
            }
            arm(0);
            if (cov) {
                labels["coverage: cases kept"] = kept;
                labels["coverage: mutated cases"] = mutated;
                uint64_t pts = 0;
                for (auto x : cov_seen) pts += x != 0;
                labels["coverage: points reached, sum over workers"] = pts;
            }
            std::ofstream f(base + ".stat");
            f << evals << " " << labelled << "\n" << labels.size() << "\n";
            for (auto &l : labels) f << l.second << " " << l.first << "\n";
            f << samples.size() << "\n";
            for (auto &x : samples) f << x.size() << "\n" << x << "\n";
            f.close();
            std::ofstream h(base + ".hash", std::ios::binary);
            for (auto x : hashes) h.write((const char *)&x, 8);
            h.close();
            s->state = 1;
            _exit(0);
        }
        pids.push_back(pid);
    }
    // Wait; on the first failure stop everybody.
    std::vector<int> status(W, -1);
    int live = W, failed = -1, fail_status = 0;
    while (live > 0) {
        for (int w = 0; w < W; w++) {
            if (status[w] != -1) continue;
            int st;
            if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
                status[w] = st;
                live--;
                if (slots[w]->state != 1 && failed < 0) { failed = w; fail_status = st; }
            } else if (rss_mb(pids[w]) > 3500) kill(pids[w], SIGKILL);
        }
        if (failed >= 0) {
            for (int w = 0; w < W; w++) if (status[w] == -1) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); status[w] = st; live--; }
        }
        usleep(5000);
    }
    uint64_t evals = 0, labelled = 0;
    std::unordered_set<uint64_t> all;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    for (int w = 0; w < W; w++) {
        std::string base = g_tmp + "/w" + std::to_string(w);
        std::ifstream f(base + ".stat");
        uint64_t e = 0, l = 0, nl = 0;
        if (!(f >> e >> l >> nl)) { evals += slots[w]->done; continue; }
        evals += e;
        labelled += l;
        for (uint64_t k = 0; k < nl; k++) {
            uint64_t c;
            std::string name;
            f >> c;
            f.get();
            std::getline(f, name);
            labels[name] += c;
        }
        uint64_t ns;
        f >> ns;
        for (uint64_t k = 0; k < ns; k++) {
            size_t n;
            f >> n;
            f.get();
            std::string s(n, 0);
            f.read(&s[0], n);
            if (samples.size() < 6) samples.push_back(s);
        }
        std::ifstream h(base + ".hash", std::ios::binary);
        uint64_t x;
        while (h.read((char *)&x, 8)) all.insert(x);
    }

    bool violation = false;
    std::string vmsg, unreproduced;
    int64_t seq_start = -1;
    if (failed >= 0) {
        Outcome o;
        o.failed = true;
        Slot *s = slots[failed];
        uint64_t idx = s->cur_case;
        double cpu = g_cpu;
        o.msg = s->state == 2 ? std::string(s->msg) : describe_status(fail_status, g_tmp + "/w" + std::to_string(failed) + ".err");
        o.desc = s->desc;
        o.rec.assign(s->rec, s->rec + s->nrec);
        if (s->state != 2) cpu = std::min(g_cpu, 10.0);
        bool wl = (idx / W) % 8 == 0;
        std::string first_msg = o.msg;
        // Confirm, shrink, and confirm the shrunk case three times.
        Outcome c0 = run_forked(o.rec, sh, g_cpu, wl);
        if (!c0.failed) {
            std::cerr << "note: failure of case " << idx << " did not reproduce from its choices: " << first_msg << "\n";
            // Try again directly from the case seed, three times, before giving up.
            int bad = 0;
            for (int r = 0; r < 3; r++) {
                pid_t pid = fork();
                if (pid == 0) {
                    redirect(g_tmp + "/re.err");
                    signal(SIGPROF, SIG_DFL);
                    arm(g_cpu);
                    Gen g(case_seed(seed, idx));
                    Ctx c;
                    c.want_labels = wl;
                    std::string msg;
                    _exit(run_case(g, c, msg) ? 0 : 3);
                }
                int st;
                waitpid(pid, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad++;
            }
            if (bad == 3 && !cov) { violation = true; vmsg = first_msg; }
            // A failure that needs the cases before it: find how far back the history has to start.
            for (uint64_t back = 1; !violation && !cov; back *= 2) {
                uint64_t k = std::min<uint64_t>(back, idx / W);
                uint64_t start = idx - k * W;
                Outcome q = run_sequence(seed, start, idx, W, sh);
                if (q.failed && run_sequence(seed, start, idx, W, sh).failed && run_sequence(seed, start, idx, W, sh).failed) {
                    violation = true;
                    vmsg = q.msg + " (only after the cases before it)";
                    o.desc = q.desc;
                    seq_start = (int64_t)start;
                }
                if (k == idx / W) break;
            }
            if (!violation) unreproduced = first_msg;
        } else {
            double budget = a.count("--shrink-time") ? atof(a["--shrink-time"].c_str()) : 40;
            c0.rec = o.rec;
            if (c0.desc.empty()) c0.desc = o.desc;
            bool hang = c0.msg.rfind("hang", 0) == 0;
            Outcome best = shrink(c0, sh, budget, hang ? cpu : g_cpu, wl);
            int bad = 0;
            Outcome last;
            for (int r = 0; r < 3; r++) { Outcome x = run_forked(best.rec, sh, g_cpu, wl); bad += x.failed; if (x.failed) last = x; }
            if (bad != 3) {
                best = c0;
                bad = 0;
                for (int r = 0; r < 3; r++) { Outcome x = run_forked(best.rec, sh, g_cpu, wl); bad += x.failed; if (x.failed) last = x; }
            }
            if (bad == 3) {
                violation = true;
                vmsg = last.msg;
                o = last;
                o.rec = best.rec;
            }
        }
        if (violation && !replay_out.empty()) {
            std::ofstream f(replay_out);
            f << "{\"property\": " << jesc(PROPERTY_ID) << ",\n \"scale\": " << g_scale << ",\n \"seed\": " << seed << ",\n \"case\": " << idx << ",\n \"message\": " << jesc(vmsg)
              << ",\n \"description\": " << jesc(o.desc) << ",\n ";
            if (seq_start >= 0) f << "\"sequence_start\": " << seq_start << ", \"sequence_stride\": " << W << ",\n ";
            f << "\"choices\": [";
            for (size_t k = 0; k < o.rec.size(); k++) f << (k ? "," : "") << o.rec[k];
            f << "]}\n";
        }
    }

    // Inputs of recorded findings: reported, but only a violation when the finding is not listed.
    std::vector<std::string> known_hits;
    if (!violation) {
        std::map<std::string, std::string> probes;
        known_probes(probes);
        std::string listed = "," + a["--known"] + ",";
        for (auto &k : probes) {
            if (k.second.empty()) continue;
            if (listed.find("," + k.first + ",") != std::string::npos) known_hits.push_back(k.first);
            else {
                violation = true;
                vmsg = k.second;
                std::ofstream r(replay_out);
                r << "{\"property\": " << jesc(PROPERTY_ID) << ", \"probe\": " << jesc(k.first) << ", \"message\": " << jesc(vmsg) << ", \"choices\": []}\n";
            }
        }
    }

    std::ofstream f(out);
    f << "{\"property\": " << jesc(PROPERTY_ID) << ", \"evaluations\": " << evals << ", \"distinct_nontrivial\": " << all.size()
      << ", \"labelled\": " << labelled << ", \"rule\": " << jesc(RULE) << ", \"violation\": " << (violation ? "true" : "false") << ", \"message\": " << jesc(vmsg)
      << ", \"requested\": " << cases << ", \"labels\": {";
    bool first = true;
    for (auto &l : labels) { f << (first ? "" : ", ") << jesc(l.first) << ": " << l.second; first = false; }
    f << "}, \"known_hits\": [";
    for (size_t k = 0; k < known_hits.size(); k++) f << (k ? ", " : "") << jesc(known_hits[k]);
    f << "], \"unreproduced\": " << jesc(unreproduced) << ", \"samples\": [";
    for (size_t k = 0; k < samples.size(); k++) f << (k ? ", " : "") << jesc(samples[k]);
    f << "]}\n";
    f.close();
    cleanup();
    if (violation) std::cout << "FAILED " << PROPERTY_ID << ": " << vmsg << "\n";
    return violation ? 1 : 0;
}

