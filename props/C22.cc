#include <sys/mman.h>
#include <unistd.h>

#include "common.h"
#include "dem.h"
#include "pymatching/sparse_blossom/driver/namespaced_main.h"
#include "stim.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C22";
const char *pbt::RULE =
    "random model text, shots, file formats (01, b8, r8, hits, dets), argument styles and option combinations; the real command line entry "
    "point runs in-process on in-memory files and its output bytes / counts are compared with decoding the same shots through the library "
    "and an independent encoder. Non-trivial: at least two shots with detection events";
namespace {
typedef std::vector<bool> Bits;
const char *FMT[] = {"01", "b8", "r8", "hits", "dets"};

/// Independent encoder of records: nd detector bits followed by no observable bits.
std::string encode(const std::vector<Bits> &recs, int fmt, size_t nd) {
    std::string s;
    for (auto &r : recs) {
        switch (fmt) {
            case 0: for (bool b : r) s += b ? '1' : '0'; s += '\n'; break;
            case 1:
                for (size_t k = 0; k < r.size(); k += 8) {
                    int v = 0;
                    for (size_t j = 0; j < 8 && k + j < r.size(); j++) v += (int)r[k + j] << j;
                    s += (char)v;
                }
                break;
            case 2: {
                size_t gap = 0;
                for (bool b : r) {
                    if (b) { s += (char)gap; gap = 0; }
                    else if (++gap == 255) { s += (char)255; gap = 0; }
                }
                s += (char)gap;
                break;
            }
            case 3: {
                bool first = true;
                for (size_t k = 0; k < r.size(); k++) if (r[k]) { if (!first) s += ','; s += std::to_string(k); first = false; }
                s += '\n';
                break;
            }
            default:
                s += "shot";
                for (size_t k = 0; k < r.size(); k++) if (r[k]) s += k < nd ? " D" + std::to_string(k) : " L" + std::to_string(k - nd);
                s += '\n';
        }
    }
    return s;
}

struct MemFile {
    int fd;
    explicit MemFile(const std::string &content = "") {
        fd = memfd_create("c22", 0);
        CHECK(fd >= 0, "memfd_create failed");
        put(content);
    }
    ~MemFile() { close(fd); }
    void put(const std::string &content) {
        CHECK(ftruncate(fd, 0) == 0 && pwrite(fd, content.data(), content.size(), 0) == (ssize_t)content.size(), "cannot write scratch file");
    }
    std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
    std::string get() const {
        std::string s;
        char b[4096];
        ssize_t n;
        off_t o = 0;
        while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
        return s;
    }
};

struct Outcome {
    bool failed = false;
    std::string err;
};
/// Calls the entry point with standard input and output redirected if asked.
Outcome call(const std::vector<std::string> &args, int in_fd, int out_fd) {
    std::vector<const char *> argv;
    for (auto &a : args) argv.push_back(a.c_str());
    std::ostringstream sink;
    auto *old = std::cerr.rdbuf(sink.rdbuf());
    FILE *old_in = stdin, *old_out = stdout;
    if (in_fd >= 0) { stdin = fdopen(dup(in_fd), "rb"); rewind(stdin); }
    if (out_fd >= 0) { stdout = fdopen(dup(out_fd), "wb"); rewind(stdout); }
    Outcome o;
    try {
        o.failed = pm::main((int)argv.size(), argv.data()) != EXIT_SUCCESS;
    } catch (const std::exception &e) {
        o.failed = true;
        o.err = e.what();
    }
    if (out_fd >= 0) fclose(stdout);
    if (in_fd >= 0) fclose(stdin);
    stdin = old_in;
    stdout = old_out;
    std::cerr.rdbuf(old);
    o.err += sink.str();
    return o;
}
/// Closes what failed calls of earlier cases left open.
void close_leftovers() {
    for (int f = 3; f < 256; f++) {
        char link[64], path[32];
        snprintf(path, sizeof path, "/proc/self/fd/%d", f);
        ssize_t n = readlink(path, link, sizeof link - 1);
        if (n <= 0) continue;
        link[n] = 0;
        if (strstr(link, "memfd:c22")) close(f);
    }
}
bool leftovers = true;
}  // namespace

void pbt::property(Gen &g, Ctx &c) {
    if (leftovers) close_leftovers();
    leftovers = false;
    bool corr = g.chance(1, 4);
    dem::Opts o;
    o.max_dets = (int)g.range(2, g.chance(1, 6) ? 30 : 12);
    o.max_instr = 20;
    o.max_obs = g.chance(1, 5) ? 8 + g.choice(80) : 1 + g.choice(9);
    o.hyper = o.big_p = !corr;
    o.dup_components = !corr;
    if (corr && g.chance(1, 10)) o.big_p = o.hyper = true;
    auto m = dem::generate(g, o);
    if (m.flat.num_dets == 0) { m.text = "detector D0\n" + m.text; m.flat.num_dets = 1; }
    const size_t nd = m.flat.num_dets, no = m.flat.num_obs;
    bool predict = g.chance(1, 2) || no > 64;
    int in_fmt = (int)g.choice(5), out_fmt = (int)g.choice(5), obs_fmt = (int)g.choice(5);
    bool append = g.chance(1, 2);
    bool sep = !predict && (!append || g.chance(1, 6));
    ref::Graph gr;
    gr.n = (int)nd;
    for (auto &e : dem::edges_of(m.flat)) gr.edges.push_back({e.u, e.v, 1, e.obs});
    int shots = (int)g.range(0, 8);
    if (g.chance(1, 60)) shots += 20 + (int)g.choice(130);
    bool bad_shot = g.chance(1, 15);
    std::vector<std::vector<uint64_t>> syn;
    int busy = 0;
    for (int s = 0; s < shots; s++) {
        std::vector<uint64_t> x = gen_feasible_syndrome(g, gr, 14);
        if (bad_shot && g.chance(1, 3)) {
            uint64_t q = g.choice(nd);
            auto it = std::find(x.begin(), x.end(), q);
            if (it == x.end()) { x.push_back(q); std::sort(x.begin(), x.end()); }
            else x.erase(it);
        }
        busy += !x.empty();
        syn.push_back(x);
    }
    c.desc << m.text << (predict ? "predict" : "count_mistakes") << " in " << FMT[in_fmt] << " out " << FMT[out_fmt] << " obs " << FMT[obs_fmt]
           << " append " << append << " separate " << sep << " corr " << corr << " shots";
    for (auto &x : syn) c.desc << " " << ref::syn_str(x);
    c.commit();

    // The library's answers.
    stim::DetectorErrorModel d(m.text.c_str());
    bool expect_fail = false;
    std::vector<Bits> pred;
    try {
        auto mw = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, corr, corr);
        for (auto &x : syn) {
            auto r = glue::decode(mw, x, corr);
            if (r.threw) { expect_fail = true; break; }
            Bits b(no, false);
            for (auto k : r.obs) { CHECK(k < no, "library predicts unknown observable"); b[k] = true; }
            pred.push_back(b);
        }
    } catch (const std::invalid_argument &) {
        expect_fail = true;
    }

    // Recorded observables: sometimes right, sometimes wrong by one bit anywhere.
    std::vector<Bits> rec;
    size_t mistakes = 0;
    for (int s = 0; s < shots; s++) {
        Bits b = s < (int)pred.size() ? pred[s] : Bits(no, false);
        if (no && g.chance(1, 2)) {
            int flips = 1 + (int)g.choice(2);
            for (int q = 0; q < flips; q++) { size_t k = g.choice(no); b[k] = !b[k]; }
        }
        if (s < (int)pred.size() && b != pred[s]) mistakes++;
        rec.push_back(b);
    }
    std::vector<Bits> in;
    for (int s = 0; s < shots; s++) {
        Bits b(nd, false);
        for (auto x : syn[s]) b[x] = true;
        if (append) b.insert(b.end(), rec[s].begin(), rec[s].end());
        in.push_back(b);
    }
    // With both sources given the separate file is the one that counts; make the appended ones different then.
    if (sep && append) for (auto &b : in) if (no) b[nd + g.choice(no)].flip();

    MemFile fdem(m.text), fin(encode(in, in_fmt, nd)), fobs, fout("old contents that must vanish\n\n\n\n\n");
    bool truncated = false;
    auto obs_recs = rec;
    if (sep && shots > 0 && g.chance(1, 12) && (obs_fmt != 1 || no > 0)) {
        obs_recs.resize(g.choice(shots));
        truncated = true;
    }
    if (sep && g.chance(1, 12) && !truncated) obs_recs.push_back(Bits(no, true));  // surplus records do no harm
    // An empty record has no representation in b8: the file cannot tell how many there are.
    if (sep && obs_fmt == 1 && no == 0 && shots > 0) truncated = true;
    fobs.put(encode(obs_recs, obs_fmt, 0));

    struct Arg { std::string k, v; };
    std::vector<Arg> args;
    bool use_stdin = g.chance(1, 8), use_stdout = g.chance(1, 8);
    if (use_stdout) fout.put("");
    args.push_back({"--dem", fdem.path()});
    if (!use_stdin) args.push_back({"--in", fin.path()});
    if (!use_stdout) args.push_back({"--out", fout.path()});
    bool default_in = in_fmt == (predict ? 1 : 0) && g.chance(1, 2);
    if (!default_in) args.push_back({"--in_format", FMT[in_fmt]});
    if (predict && !(out_fmt == 0 && g.chance(1, 2))) args.push_back({"--out_format", FMT[out_fmt]});
    if (append) args.push_back({"--in_includes_appended_observables", ""});
    if (sep) {
        args.push_back({"--obs_in", fobs.path()});
        if (!(obs_fmt == 0 && g.chance(1, 2))) args.push_back({"--obs_in_format", FMT[obs_fmt]});
    }
    if (corr) args.push_back({"--enable_correlations", ""});
    if (!predict && g.chance(1, 4)) args.push_back({"--time", ""});
    if (g.chance(1, 2)) g.shuffle(args);

    int sabotage = g.chance(1, 12) ? 1 + (int)g.choice(5) : 0;
    auto drop = [&](const std::string &k) {
        args.erase(std::remove_if(args.begin(), args.end(), [&](const Arg &a) { return a.k == k; }), args.end());
    };
    bool unknown_cmd = false;
    std::string cmd = predict ? "predict" : "count_mistakes";
    switch (sabotage) {
        case 1: drop("--dem"); break;
        case 2: args.insert(args.begin() + g.choice(args.size() + 1), {g.chance(1, 2) ? "--bogus" : "--in_formats", ""}); break;
        case 3: drop("--in_format"); args.push_back({"--in_format", "b9"}); break;
        case 4: cmd = g.chance(1, 2) ? "predictt" : ""; unknown_cmd = true; if (g.chance(1, 3)) args.clear(); break;
        case 5:
            if (predict) { args.push_back({"--obs_in", fobs.path()}); }
            else { drop("--obs_in"); drop("--in_includes_appended_observables"); }
            break;
        default: break;
    }
    std::vector<std::string> argv{"pymatching"};
    if (!(unknown_cmd && cmd.empty())) argv.push_back(cmd);
    for (auto &a : args) {
        if (a.v.empty()) argv.push_back(a.k);
        else if (g.chance(1, 2)) argv.push_back(a.k + "=" + a.v);
        else { argv.push_back(a.k); argv.push_back(a.v); }
    }
    c.desc << "\nargs";
    for (auto &a : argv) c.desc << " " << a;
    c.commit();
    auto r = call(argv, use_stdin ? fin.fd : -1, use_stdout ? fout.fd : -1);
    leftovers = r.failed;
    if (sabotage) {
        CHECK(r.failed, "a wrong command line was accepted");
    } else if (expect_fail || truncated) {
        CHECK(r.failed, "the library refuses, or observable data is missing, but the command line succeeds with output " << fout.get());
    } else {
        CHECK(!r.failed, "the command line fails: " << r.err);
        auto got = fout.get();
        if (predict) {
            std::vector<Bits> p = pred;
            std::string want = out_fmt == 4 ? encode(p, 4, 0) : encode(p, out_fmt, 0);
            CHECK(got == want, "prediction output differs from the library's: got " << got.size() << " bytes [" << got << "], expected [" << want << "]");
        } else {
            std::string want = std::to_string(mistakes) + " / " + std::to_string(shots) + "\n";
            CHECK(got == want, "count_mistakes wrote [" << got << "], expected [" << want << "]");
        }
    }
    c.nontrivial = busy >= 2;
    if (c.want_labels) {
        c.label(cmd.empty() ? "no command" : cmd);
        c.label(std::string("in ") + FMT[in_fmt]);
        if (predict) c.label(std::string("out ") + FMT[out_fmt]);
        if (corr) c.label("correlations");
        if (expect_fail) c.label("infeasible or refused");
        if (sabotage) c.label("wrong arguments");
        if (truncated) c.label("truncated observables");
        if (no > 64) c.label(">64 observables");
    }
}
