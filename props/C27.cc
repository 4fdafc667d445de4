#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <fstream>

#include "common.h"
#include "dem.h"
#include "pymatching/sparse_blossom/diagram/mwpm_diagram.h"
#include "pymatching/sparse_blossom/driver/namespaced_main.h"
#include "stim.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C27";
const char *pbt::RULE =
    "random error model with coordinates, shot, file format and frame settings; the real 'animate' command runs in-process into a scratch "
    "directory and every frame it writes is parsed: names, number, canvas, drawn nodes, edges, detection events, highlighted steps and the "
    "final matching are compared with the model, the settings and a separate run of the decoding timeline; shots without explanation and "
    "missing arguments must end in an error. Non-trivial: at least 3 steps were animated";
namespace {
typedef ref::i64 i64;
const char *FMT[] = {"01", "b8", "r8", "hits", "dets"};

std::string encode(const std::vector<bool> &r, int fmt, size_t nd) {
    std::string s;
    switch (fmt) {
        case 0: for (bool b : r) s += b ? '1' : '0'; return s + "\n";
        case 1:
            for (size_t k = 0; k < r.size(); k += 8) {
                int v = 0;
                for (size_t j = 0; j < 8 && k + j < r.size(); j++) v += (int)r[k + j] << j;
                s += (char)v;
            }
            return s;
        case 2: {
            size_t gap = 0;
            for (bool b : r) {
                if (b) { s += (char)gap; gap = 0; }
                else if (++gap == 255) { s += (char)255; gap = 0; }
            }
            s += (char)gap;
            return s;
        }
        case 3: {
            bool first = true;
            for (size_t k = 0; k < r.size(); k++) if (r[k]) { if (!first) s += ','; s += std::to_string(k); first = false; }
            return s + "\n";
        }
        default:
            s = "shot";
            for (size_t k = 0; k < r.size(); k++) if (r[k]) s += k < nd ? " D" + std::to_string(k) : " L" + std::to_string(k - nd);
            return s + "\n";
    }
}

struct MemFile {
    int fd;
    explicit MemFile(const std::string &content) {
        fd = memfd_create("c27", 0);
        CHECK(fd >= 0 && pwrite(fd, content.data(), content.size(), 0) == (ssize_t)content.size(), "cannot write scratch file");
    }
    ~MemFile() { close(fd); }
    std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};

/// A directory of this process under /dev/shm, emptied before each case and removed when the case ends.
struct Scratch {
    std::string dir;
    Scratch() {
        char t[] = "/dev/shm/c27.XXXXXX";
        CHECK(mkdtemp(t), "cannot make a scratch directory");
        dir = t;
    }
    static std::vector<std::string> list(const std::string &d) {
        std::vector<std::string> r;
        DIR *h = opendir(d.c_str());
        if (!h) return r;
        while (auto *e = readdir(h)) {
            std::string n = e->d_name;
            if (n != "." && n != "..") r.push_back(n);
        }
        closedir(h);
        std::sort(r.begin(), r.end());
        return r;
    }
    ~Scratch() {
        for (auto &n : list(dir + "/out")) unlink((dir + "/out/" + n).c_str());
        rmdir((dir + "/out").c_str());
        for (auto &n : list(dir)) unlink((dir + "/" + n).c_str());
        rmdir(dir.c_str());
    }
};

struct Elem {
    std::string tag;
    std::map<std::string, std::string> at;
    std::string operator[](const char *k) const {
        auto it = at.find(k);
        return it == at.end() ? "" : it->second;
    }
};
/// Parses the flat drawings: one root element with leaf children only.
std::vector<Elem> parse_svg(const std::string &s, Elem &root, const std::string &what) {
    std::vector<Elem> out;
    size_t k = 0;
    bool open = false, closed = false;
    auto space = [&] { while (k < s.size() && isspace((unsigned char)s[k])) k++; };
    while (true) {
        space();
        if (k >= s.size()) break;
        CHECK(s[k] == '<', what << ": text outside of elements");
        CHECK(!closed, what << ": content after the root element");
        k++;
        if (s[k] == '/') {
            size_t e = s.find('>', k);
            CHECK(open && e != std::string::npos && s.substr(k + 1, e - k - 1) == "svg", what << ": stray closing tag");
            closed = true;
            k = e + 1;
            continue;
        }
        Elem el;
        while (k < s.size() && isalpha((unsigned char)s[k])) el.tag += s[k++];
        bool leaf = false;
        while (true) {
            space();
            CHECK(k < s.size(), what << ": file ends inside an element");
            if (s[k] == '/') { leaf = true; k++; continue; }
            if (s[k] == '>') { k++; break; }
            std::string name, val;
            while (k < s.size() && (isalnum((unsigned char)s[k]) || s[k] == '-' || s[k] == ':')) name += s[k++];
            CHECK(!name.empty() && k + 1 < s.size() && s[k] == '=' && s[k + 1] == '"', what << ": malformed attribute");
            size_t e = s.find('"', k + 2);
            CHECK(e != std::string::npos, what << ": unterminated attribute");
            val = s.substr(k + 2, e - k - 2);
            k = e + 1;
            CHECK(el.at.emplace(name, val).second, what << ": attribute " << name << " twice");
        }
        if (!open) {
            CHECK(el.tag == "svg" && !leaf, what << ": root element is not svg");
            open = true;
            root = el;
        } else {
            CHECK(leaf, what << ": element <" << el.tag << "> is not closed");
            out.push_back(el);
        }
    }
    CHECK(closed, what << ": drawing is cut short");
    return out;
}
double number(const std::string &s, const std::string &what) {
    char *e;
    double v = strtod(s.c_str(), &e);
    CHECK(!s.empty() && !*e && std::isfinite(v), what << ": '" << s << "' is not a finite number");
    return v;
}

struct P { double x, y; };
bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
bool near(P a, P b) { return near(a.x, b.x) && near(a.y, b.y); }
typedef std::pair<P, P> Seg;
bool same(const Seg &a, const Seg &b) { return (near(a.first, b.first) && near(a.second, b.second)) || (near(a.first, b.second) && near(a.second, b.first)); }

/// Multiset comparison up to print precision.
template <typename T, typename F>
void compare(std::vector<T> want, const std::vector<T> &got, const F &eq, const std::string &what) {
    CHECK(want.size() == got.size(), what << ": drawn " << got.size() << ", expected " << want.size());
    for (auto &x : got) {
        size_t i = 0;
        while (i < want.size() && !eq(want[i], x)) i++;
        CHECK(i < want.size(), what << ": something is drawn in the wrong place");
        want.erase(want.begin() + i);
    }
}

struct Outcome {
    bool failed = false;
    std::string err, log;
};
Outcome call(const std::vector<std::string> &args) {
    std::vector<const char *> argv;
    for (auto &a : args) argv.push_back(a.c_str());
    std::ostringstream sink;
    auto *old = std::cerr.rdbuf(sink.rdbuf());
    Outcome o;
    try {
        o.failed = pm::main((int)argv.size(), argv.data()) != EXIT_SUCCESS;
    } catch (const std::exception &e) {
        o.failed = true;
        o.err = e.what();
    }
    std::cerr.rdbuf(old);
    o.log = sink.str();
    return o;
}
void close_leftovers() {
    for (int f = 3; f < 256; f++) {
        char link[64], path[32];
        snprintf(path, sizeof path, "/proc/self/fd/%d", f);
        ssize_t n = readlink(path, link, sizeof link - 1);
        if (n <= 0) continue;
        link[n] = 0;
        if (strstr(link, "memfd:c27")) close(f);
    }
}
bool leftovers = true;

struct Step { int kind; i64 time; };
}  // namespace

void pbt::property(Gen &g, Ctx &c) {
    if (leftovers) close_leftovers();
    leftovers = false;
    dem::Opts o;
    static const int md[] = {4, 9, 16};
    o.max_dets = md[g.weighted({2, 4, 2})];
    o.max_instr = 2 * o.max_dets;
    o.big_p = false;
    o.coarse_p = g.chance(1, 2);
    o.max_obs = 4;
    o.structure = g.chance(1, 3);
    auto m = dem::generate(g, o);
    if (m.flat.num_dets == 0) { m.text = "detector D0\n" + m.text; m.flat.num_dets = 1; }
    const size_t nd = m.flat.num_dets, no = m.flat.num_obs;
    // Coordinates: every detector at its own point, or none / one / more than two coordinates.
    int style = (int)g.weighted({4, 1, 1, 1, 1});
    std::map<size_t, std::vector<double>> given;
    if (!o.structure) {
        std::ostringstream t;
        for (size_t d = 0; d < nd; d++) {
            size_t k = style == 0 ? 2 : style == 1 ? 0 : style == 2 ? 1 : style == 3 ? 3 + g.choice(3) : g.choice(5);
            if (!k) continue;
            std::vector<double> xs;
            for (size_t i = 0; i < k; i++) {
                double v = i < 2 ? (double)g.range(0, 12) : (double)g.range(0, 6);
                if (g.chance(1, 6)) v = -v / 4;
                xs.push_back(v);
            }
            given[d] = xs;
            t << "detector(";
            for (size_t i = 0; i < k; i++) t << (i ? ", " : "") << xs[i];
            t << ") D" << d << "\n";
        }
        m.text += t.str();
    }
    ref::Graph gr;
    gr.n = (int)nd;
    auto edges = dem::edges_of(m.flat);
    for (auto &e : edges) gr.edges.push_back({e.u, e.v, 1, e.obs});
    auto syn = gen_feasible_syndrome(g, gr, 12);
    if (g.chance(1, 8)) {
        uint64_t q = g.choice(nd);
        auto it = std::find(syn.begin(), syn.end(), q);
        if (it == syn.end()) { syn.push_back(q); std::sort(syn.begin(), syn.end()); }
        else syn.erase(it);
    }
    bool feasible = ref::feasible(gr, syn);
    int fmt = (int)g.choice(5);
    bool append = g.chance(1, 3);
    std::vector<bool> rec(nd + (append ? no : 0));
    for (auto x : syn) rec[x] = true;
    for (size_t k = nd; k < rec.size(); k++) rec[k] = g.chance(1, 2);
    size_t f = g.weighted({3, 3, 2, 1}), hs = g.choice(4), he = g.choice(4);
    size_t growth = g.chance(1, 3) ? 0 : (size_t)g.range(100, 3000);
    size_t ppul = g.chance(1, 2) ? 20 : (size_t)g.range(4, 200);
    bool quiet = g.chance(1, 2), slash = g.chance(1, 2), premade = g.chance(1, 3);
    int missing = g.chance(1, 12) ? (int)g.choice(9) : -1;
    if (missing < 0 && g.chance(1, 25)) missing = 20 + (int)g.choice(4);

    c.desc << "animate frames/event=" << f << " start=" << hs << " end=" << he << " growth=" << growth << " pixels=" << ppul << " format=" << FMT[fmt]
           << (append ? " with observables" : "") << (quiet ? " quiet" : "") << " fault=" << missing << " events " << ref::syn_str(syn) << " model:\n" << m.text;
    c.commit();

    Scratch sc;
    std::string out = sc.dir + "/out";
    if (premade) CHECK(mkdir(out.c_str(), 0700) == 0, "mkdir");
    MemFile dem_file(m.text), dets_file(missing == 20 ? (fmt == 0 || fmt >= 3 ? std::string() : std::string()) : encode(rec, fmt, nd));
    std::vector<std::pair<std::string, std::string>> opt = {
        {"--dets_in", dets_file.path()},
        {"--dem_in", dem_file.path()},
        {"--dets_in_format", FMT[fmt]},
        {"--held_frames_per_event", std::to_string(f)},
        {"--held_frames_at_start", std::to_string(hs)},
        {"--held_frames_at_end", std::to_string(he)},
        {"--max_growth_between_frames", std::to_string(growth)},
        {"--pixels_per_unit_length", std::to_string(ppul)},
        {"--out_dir", out + (slash ? "/" : "")},
    };
    if (missing == 21) opt[7].second = std::to_string(g.choice(4));            // too few pixels
    if (missing == 22) opt[0].second = sc.dir + "/no_such_file";
    if (missing == 23) opt[8].second = sc.dir + "/no_such_dir/out";
    if (append) opt.push_back({"--dets_in_includes_appended_observables", ""});
    if (quiet) opt.push_back({"--quiet", ""});
    if (missing >= 0 && missing < 9) opt.erase(opt.begin() + missing);
    g.shuffle(opt);
    std::vector<std::string> args = {"pymatching", "animate"};
    for (auto &p : opt) {
        if (p.second.empty()) args.push_back(p.first);
        else if (g.chance(1, 2)) args.push_back(p.first + "=" + p.second);
        else { args.push_back(p.first); args.push_back(p.second); }
    }

    // A separate run of the timeline.
    stim::DetectorErrorModel model(m.text.c_str());
    auto ref_mwpm = pm::detector_error_model_to_mwpm(model, 1000);
    std::vector<Step> steps;
    std::vector<std::pair<i64, i64>> pairs;
    if (feasible) {
        ref_mwpm.flooder.queue.cur_time = 0;
        for (auto x : syn) ref_mwpm.create_detection_event(&ref_mwpm.flooder.graph.nodes[x]);
        while (true) {
            auto ev = ref_mwpm.flooder.run_until_next_mwpm_notification();
            if (ev.event_type == pm::NO_EVENT) break;
            steps.push_back({(int)ev.event_type, ref_mwpm.flooder.queue.cur_time});
            ref_mwpm.process_event(ev);
            CHECK(steps.size() < 100000, "runaway timeline");
        }
        auto second = pm::detector_error_model_to_mwpm(model, 1000, true);
        auto dp = glue::decode_pairs(second, syn);
        CHECK(!dp.threw, "decoding to pairs failed: " << dp.what);
        pairs = dp.pairs;
    }

    auto r = call(args);
    if (missing >= 0) {
        leftovers = true;
        CHECK(r.failed, "the command succeeded although an argument is missing or wrong");
        CHECK(Scratch::list(out).empty(), "frames were written although an argument is missing or wrong");
        return;
    }
    if (!feasible) {
        leftovers = true;
        CHECK(r.failed, "the command succeeded on a shot that cannot be explained");
        c.label("infeasible");
        return;
    }
    CHECK(!r.failed, "the command failed: " << r.err);

    // Number of frames from the settings and the timeline.
    i64 growth_frames = 0, prev = 0;
    bool after = false;  // a highlighted step was shown since the last growth frame
    i64 next = (i64)growth;
    for (auto &s : steps) {
        while ((after || growth) && s.time > next) {
            growth_frames++;
            next += (i64)growth;
            after = false;
        }
        if (f) { next = s.time; after = true; }
        prev = s.time;
    }
    (void)prev;
    size_t total = hs + he + f * steps.size() + (size_t)growth_frames;
    auto files = Scratch::list(out);
    CHECK(files.size() == total, "wrote " << files.size() << " frames, expected " << total << " (" << steps.size() << " steps, " << growth_frames << " growth frames)");
    if (quiet) CHECK(r.log.empty(), "printed progress in spite of --quiet: " << r.log.substr(0, 200));
    else CHECK((size_t)std::count(r.log.begin(), r.log.end(), '\n') == total, "progress lines: " << std::count(r.log.begin(), r.log.end(), '\n') << ", frames: " << total);

    // Coordinates.
    auto coords = pm::pick_coords_for_drawing_from_dem(model, (float)ppul);
    CHECK(coords.first.size() == nd && coords.second.size() == nd, "wrong number of coordinates");
    std::vector<P> at, bat;
    for (size_t d = 0; d < nd; d++) {
        at.push_back({coords.first[d].first, coords.first[d].second});
        bat.push_back({coords.second[d].first, coords.second[d].second});
        CHECK(std::isfinite(at[d].x) && std::isfinite(at[d].y) && std::isfinite(bat[d].x) && std::isfinite(bat[d].y), "detector " << d << " is not at a finite place");
        CHECK(at[d].x >= 0 && at[d].y >= 0 && bat[d].x >= 0 && bat[d].y >= 0, "detector " << d << " is outside the canvas");
        CHECK(!near(at[d], bat[d]), "the boundary end of detector " << d << " coincides with it");
    }
    if (!o.structure)
        for (auto &a : given)
            for (auto &b : given)
                if (a.second.size() == 2 && b.second.size() == 2) {
                    double ex = (a.second[0] - b.second[0]) * ppul, ey = (a.second[1] - b.second[1]) * ppul;
                    double tol = 0.02 + 1e-5 * ppul * 30;
                    CHECK(std::fabs(at[a.first].x - at[b.first].x - ex) <= tol && std::fabs(at[a.first].y - at[b.first].y - ey) <= tol,
                          "detectors " << a.first << " and " << b.first << " are not drawn at their coordinates");
                }

    std::vector<P> red, grey;
    std::set<uint64_t> ev(syn.begin(), syn.end());
    for (size_t d = 0; d < nd; d++) (ev.count(d) ? red : grey).push_back(at[d]);
    std::vector<Seg> inner, outer;
    std::set<std::pair<int, int>> seen;
    for (auto &e : edges) {
        int u = std::min(e.u, e.v), v = std::max(e.u, e.v);
        if (!seen.insert({u, v}).second || u == v) continue;
        if (u < 0) outer.push_back({at[v], bat[v]});
        else inner.push_back({at[u], at[v]});
    }
    std::map<int, size_t> highlighted;
    std::string first, last;
    for (size_t k = 0; k < total; k++) {
        char nm[64];
        snprintf(nm, sizeof nm, "frame_%05zu.svg", k);
        CHECK(files[k] == nm, "frame " << k << " is called " << files[k]);
        std::string what = nm;
        std::ifstream in(out + "/" + nm, std::ios::binary);
        std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        if (!quiet) CHECK(r.log.find(nm) != std::string::npos, "no progress line names " << nm);
        if (k == 0) first = text;
        if (k < hs) CHECK(text == first, what << " differs from the other frames held at the start");
        if (k == total - he) last = text;
        if (k >= total - he) CHECK(text == last, what << " differs from the other frames held at the end");
        Elem root;
        auto els = parse_svg(text, root, what);
        double W = number(root["width"], what), H = number(root["height"], what);
        std::vector<P> r2, g2;
        std::vector<Seg> in2, out2;
        std::vector<Seg> matches, touch;
        int kind = 0;
        bool growing = false;
        for (auto &e : els) {
            if (e.tag == "circle") {
                P p{number(e["cx"], what), number(e["cy"], what)};
                number(e["r"], what);
                CHECK(p.x >= -1e-3 && p.y >= -1e-3 && p.x <= W && p.y <= H, what << ": a point outside the canvas");
                if (e["fill"] == "red") r2.push_back(p);
                else if (e["fill"] == "#CCC") g2.push_back(p);
            } else if (e.tag == "line") {
                Seg s{{number(e["x1"], what), number(e["y1"], what)}, {number(e["x2"], what), number(e["y2"], what)}};
                for (auto &p : {s.first, s.second}) CHECK(p.x >= -1e-3 && p.y >= -1e-3 && p.x <= W && p.y <= H, what << ": a line leaves the canvas");
                if (e["stroke"] == "#CCC") in2.push_back(s);
                else if (e["stroke"] == "#FAA") out2.push_back(s);
                else if (e["stroke"] == "#F80") kind = pm::REGION_HIT_REGION;
                else {
                    if (e["stroke"] == "#000" && e["stroke-width"] == "4") matches.push_back(s);
                    if (e["stroke-width"] == "4") touch.push_back(s);
                }
            } else if (e.tag == "path") {
                std::string d = e["d"], tok;
                std::istringstream is(d);
                while (is >> tok) {
                    while (!tok.empty() && isalpha((unsigned char)tok[0])) {
                        CHECK(tok[0] == 'M' || tok[0] == 'L' || tok[0] == 'z' || tok[0] == 'Z', what << ": path contains '" << tok << "'");
                        tok.erase(0, 1);
                    }
                    if (!tok.empty()) number(tok, what);
                }
                std::string fill = e["fill"];
                if (fill.rfind("#FF0000", 0) == 0 || fill.rfind("#0000FF", 0) == 0) growing = true;
                if (fill == "#80800080") kind = pm::REGION_HIT_BOUNDARY;
                if (fill == "#FF800080") kind = pm::BLOSSOM_SHATTER;
            } else CHECK(false, what << ": unexpected element <" << e.tag << ">");
        }
        compare(red, r2, [](P a, P b) { return near(a, b); }, what + ": detection events");
        compare(grey, g2, [](P a, P b) { return near(a, b); }, what + ": quiet detectors");
        compare(inner, in2, same, what + ": edges between detectors");
        compare(outer, out2, same, what + ": boundary edges");
        if (kind) highlighted[kind]++;
        if (k < hs) CHECK(matches.empty() && touch.empty() && !kind, what << ": the initial state already shows a match");
        if (k >= total - he) {
            CHECK(!kind, what << ": a step is highlighted in the final state");
            CHECK(!growing, what << ": a region still grows or shrinks in the final state");
            for (auto x : syn) {
                bool ok = false;
                for (auto &s : touch) ok |= near(s.first, at[x]) || near(s.second, at[x]);
                CHECK(ok, what << ": detection event " << x << " is not matched in the final state");
            }
            for (auto &s : matches) {
                bool ok = false;
                for (auto &p : pairs) ok |= p.second < 0 ? same(s, {at[p.first], bat[p.first]}) : same(s, {at[p.first], at[p.second]});
                CHECK(ok, what << ": the final state shows a match the decoder does not return");
            }
        }
    }
    std::map<int, size_t> want;
    for (auto &s : steps) if (f) want[s.kind] += f;
    CHECK(highlighted == want, "the highlighted steps are not the steps of the decoder");
    if (steps.size() >= 3) c.nontrivial = true;
    if (c.want_labels) {
        if (want.count(pm::BLOSSOM_SHATTER)) c.label("blossom shatter shown");
        if (growth_frames) c.label("growth frames");
        if (syn.empty()) c.label("no events");
        if (o.structure) c.label("structured model");
    }
}
