// A small, independent implementation of the part of Stim's C++ API that PyMatching's driver uses.
// Stim itself is not available offline; PyMatching's own sources are compiled unchanged against this header.
#ifndef VERIF_SHIM_STIM_H
#define VERIF_SHIM_STIM_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace stim {

constexpr size_t MAX_BITWORD_WIDTH = 64;

// ---------------------------------------------------------------- detector error models
struct DemTarget {
    enum Kind : uint8_t { DET, OBS, SEP } kind = DET;
    uint64_t id = 0;
    static DemTarget observable_id(uint64_t id) { return {OBS, id}; }
    static DemTarget relative_detector_id(uint64_t id) { return {DET, id}; }
    static DemTarget separator() { return {SEP, 0}; }
    bool is_observable_id() const { return kind == OBS; }
    bool is_separator() const { return kind == SEP; }
    bool is_relative_detector_id() const { return kind == DET; }
    uint64_t raw_id() const { return id; }
    uint64_t val() const { return kind == SEP ? UINT64_MAX : id; }
    bool operator==(const DemTarget &o) const { return kind == o.kind && id == o.id; }
    bool operator!=(const DemTarget &o) const { return !(*this == o); }
};

enum class DemInstructionType : uint8_t { DEM_ERROR, DEM_SHIFT_DETECTORS, DEM_DETECTOR, DEM_LOGICAL_OBSERVABLE, DEM_REPEAT_BLOCK };

struct DemInstruction {
    std::vector<double> arg_data;
    std::vector<DemTarget> target_data;
    std::string tag;
    DemInstructionType type = DemInstructionType::DEM_ERROR;
};

struct DetectorErrorModel {
    struct Item {
        DemInstruction ins;
        uint64_t count = 0;  // repeat count or detector shift
        std::shared_ptr<DetectorErrorModel> body;
    };
    std::vector<Item> items;

    DetectorErrorModel() = default;
    explicit DetectorErrorModel(const char *text) { std::string s(text); size_t k = 0; parse(s, k, false); }
    explicit DetectorErrorModel(std::string_view text) { std::string s(text); size_t k = 0; parse(s, k, false); }
    static DetectorErrorModel from_file(FILE *f) {
        std::string s;
        int c;
        while ((c = getc(f)) != EOF) s.push_back((char)c);
        DetectorErrorModel m;
        size_t k = 0;
        m.parse(s, k, false);
        return m;
    }

    void append_error_instruction(double p, const std::vector<DemTarget> &t, std::string_view tag = "") {
        Item it; it.ins.arg_data = {p}; it.ins.target_data = t; it.ins.tag = tag; items.push_back(it);
    }
    void append_logical_observable_instruction(DemTarget t, std::string_view tag = "") {
        Item it; it.ins.type = DemInstructionType::DEM_LOGICAL_OBSERVABLE; it.ins.target_data = {t}; it.ins.tag = tag; items.push_back(it);
    }

    uint64_t count_detectors() const { uint64_t off = 0; return count_det(off); }
    uint64_t count_observables() const {
        uint64_t n = 0;
        for (auto &it : items) {
            if (it.body) n = std::max(n, it.body->count_observables());
            else for (auto &t : it.ins.target_data) if (t.is_observable_id()) n = std::max(n, t.id + 1);
        }
        return n;
    }
    template <typename CALLBACK>
    void iter_flatten_error_instructions(const CALLBACK &cb) const { uint64_t off = 0; iter(cb, off); }

    std::map<uint64_t, std::vector<double>> get_detector_coordinates(const std::set<uint64_t> &dets) const {
        std::map<uint64_t, std::vector<double>> out;
        uint64_t off = 0;
        std::vector<double> coff;
        coords(off, coff, out);
        std::map<uint64_t, std::vector<double>> res;
        for (auto d : dets) res[d] = out.count(d) ? out[d] : std::vector<double>{};
        return res;
    }

   private:
    uint64_t count_det(uint64_t &off) const {
        uint64_t n = 0;
        for (auto &it : items) {
            if (it.body) {
                for (uint64_t r = 0; r < it.count; r++) n = std::max(n, it.body->count_det(off));
            } else if (it.ins.type == DemInstructionType::DEM_SHIFT_DETECTORS) off += it.count;
            else for (auto &t : it.ins.target_data) if (t.is_relative_detector_id()) n = std::max(n, t.id + off + 1);
        }
        return n;
    }
    template <typename CALLBACK>
    void iter(const CALLBACK &cb, uint64_t &off) const {
        for (auto &it : items) {
            if (it.body) { for (uint64_t r = 0; r < it.count; r++) it.body->iter(cb, off); }
            else if (it.ins.type == DemInstructionType::DEM_SHIFT_DETECTORS) off += it.count;
            else if (it.ins.type == DemInstructionType::DEM_ERROR) {
                DemInstruction c = it.ins;
                for (auto &t : c.target_data) if (t.is_relative_detector_id()) t.id += off;
                cb((const DemInstruction &)c);
            }
        }
    }
    void coords(uint64_t &off, std::vector<double> &coff, std::map<uint64_t, std::vector<double>> &out) const {
        for (auto &it : items) {
            if (it.body) { for (uint64_t r = 0; r < it.count; r++) it.body->coords(off, coff, out); }
            else if (it.ins.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                off += it.count;
                for (size_t k = 0; k < it.ins.arg_data.size(); k++) { if (coff.size() <= k) coff.push_back(0); coff[k] += it.ins.arg_data[k]; }
            } else if (it.ins.type == DemInstructionType::DEM_DETECTOR) {
                for (auto &t : it.ins.target_data) if (t.is_relative_detector_id()) {
                    auto c = it.ins.arg_data;
                    for (size_t k = 0; k < c.size() && k < coff.size(); k++) c[k] += coff[k];
                    out[t.id + off] = c;
                }
            }
        }
    }
    [[noreturn]] static void bad(const std::string &m) { throw std::invalid_argument(m); }
    static void ws(const std::string &s, size_t &k, bool nl) {
        while (k < s.size()) {
            if (s[k] == ' ' || s[k] == '\t' || s[k] == '\r' || (nl && s[k] == '\n')) k++;
            else if (s[k] == '#') { while (k < s.size() && s[k] != '\n') k++; }
            else break;
        }
    }
    static uint64_t num(const std::string &s, size_t &k) {
        if (k >= s.size() || !isdigit((unsigned char)s[k])) bad("expected integer in detector error model");
        uint64_t v = 0;
        while (k < s.size() && isdigit((unsigned char)s[k])) v = v * 10 + (s[k++] - '0');
        return v;
    }
    void parse(const std::string &s, size_t &k, bool nested) {
        while (true) {
            ws(s, k, true);
            if (k >= s.size()) { if (nested) bad("unterminated block"); return; }
            if (s[k] == '}') { if (!nested) bad("unexpected }"); k++; return; }
            std::string name;
            while (k < s.size() && (isalpha((unsigned char)s[k]) || s[k] == '_')) name.push_back((char)tolower(s[k++]));
            Item it;
            if (k < s.size() && s[k] == '[') { k++; while (k < s.size() && s[k] != ']') it.ins.tag.push_back(s[k++]); if (k >= s.size()) bad("tag"); k++; }
            if (k < s.size() && s[k] == '(') {
                k++;
                while (true) {
                    while (k < s.size() && (s[k] == ' ' || s[k] == ',')) k++;
                    if (k < s.size() && s[k] == ')') { k++; break; }
                    char *e; double v = strtod(s.c_str() + k, &e);
                    if (e == s.c_str() + k) bad("bad argument");
                    it.ins.arg_data.push_back(v); k = e - s.c_str();
                }
            }
            if (name == "repeat") {
                ws(s, k, false); it.count = num(s, k); ws(s, k, false);
                if (k >= s.size() || s[k] != '{') bad("missing {"); k++;
                it.ins.type = DemInstructionType::DEM_REPEAT_BLOCK;
                it.body = std::make_shared<DetectorErrorModel>();
                it.body->parse(s, k, true);
                items.push_back(it);
                continue;
            }
            if (name == "shift_detectors") {
                it.ins.type = DemInstructionType::DEM_SHIFT_DETECTORS;
                ws(s, k, false); it.count = num(s, k); items.push_back(it); continue;
            }
            if (name == "error") {
                it.ins.type = DemInstructionType::DEM_ERROR;
                if (it.ins.arg_data.size() != 1) bad("error takes 1 argument");
                if (!(it.ins.arg_data[0] >= 0 && it.ins.arg_data[0] <= 1)) bad("error probability out of range");
            } else if (name == "detector") it.ins.type = DemInstructionType::DEM_DETECTOR;
            else if (name == "logical_observable") it.ins.type = DemInstructionType::DEM_LOGICAL_OBSERVABLE;
            else bad("unrecognized instruction '" + name + "'");
            while (true) {
                ws(s, k, false);
                if (k >= s.size() || s[k] == '\n' || s[k] == '}') break;
                char c = (char)toupper(s[k]);
                if (c == 'D') { k++; it.ins.target_data.push_back(DemTarget::relative_detector_id(num(s, k))); }
                else if (c == 'L') { k++; it.ins.target_data.push_back(DemTarget::observable_id(num(s, k))); }
                else if (c == '^') { k++; it.ins.target_data.push_back(DemTarget::separator()); }
                else bad("bad target");
            }
            if (name == "error" && !it.ins.target_data.empty()) {
                bool last_sep = true;
                for (auto &t : it.ins.target_data) { if (t.is_separator() && last_sep) bad("bad separator"); last_sep = t.is_separator(); }
                if (last_sep) bad("bad separator");
            }
            items.push_back(it);
        }
    }
};

// Circuits are outside the shim: a "circuit file" holds the text of the error model the circuit stands for.
struct Circuit {
    DetectorErrorModel stands_for;
    static Circuit from_file(FILE *f) { return Circuit{DetectorErrorModel::from_file(f)}; }
};
struct ErrorAnalyzer {
    template <typename... A>
    static DetectorErrorModel circuit_to_detector_error_model(const Circuit &c, bool decompose_errors, A...) {
        if (!decompose_errors) throw std::invalid_argument("a decomposed error model was expected");
        return c.stands_for;
    }
};

// ---------------------------------------------------------------- shot data
enum class SampleFormat : uint8_t { SAMPLE_FORMAT_01, SAMPLE_FORMAT_B8, SAMPLE_FORMAT_PTB64, SAMPLE_FORMAT_HITS, SAMPLE_FORMAT_R8, SAMPLE_FORMAT_DETS };
struct FileFormatData { const char *name; SampleFormat id; };
inline const std::map<std::string_view, FileFormatData> &format_name_to_enum_map() {
    static const std::map<std::string_view, FileFormatData> m{
        {"01", {"01", SampleFormat::SAMPLE_FORMAT_01}}, {"b8", {"b8", SampleFormat::SAMPLE_FORMAT_B8}},
        {"ptb64", {"ptb64", SampleFormat::SAMPLE_FORMAT_PTB64}}, {"hits", {"hits", SampleFormat::SAMPLE_FORMAT_HITS}},
        {"r8", {"r8", SampleFormat::SAMPLE_FORMAT_R8}}, {"dets", {"dets", SampleFormat::SAMPLE_FORMAT_DETS}}};
    return m;
}

struct ObsBits {
    std::vector<uint64_t> w;
    bool operator==(const ObsBits &o) const {
        for (size_t k = 0; k < std::max(w.size(), o.w.size()); k++)
            if ((k < w.size() ? w[k] : 0) != (k < o.w.size() ? o.w[k] : 0)) return false;
        return true;
    }
    bool operator!=(const ObsBits &o) const { return !(*this == o); }
    void flip(size_t k) { if (w.size() <= k / 64) w.resize(k / 64 + 1); w[k / 64] ^= (uint64_t)1 << (k % 64); }
    bool operator[](size_t k) const { return k / 64 < w.size() && (w[k / 64] >> (k % 64) & 1); }
    void clear() { w.clear(); }
};
struct SparseShot {
    std::vector<uint64_t> hits;
    ObsBits obs_mask;
    void clear() { hits.clear(); obs_mask.clear(); }
    uint64_t obs_mask_as_u64() const { return obs_mask.w.empty() ? 0 : obs_mask.w[0]; }
};

template <size_t W>
struct MeasureRecordReader {
    FILE *f; SampleFormat fmt; size_t nm, nd, no;
    static std::unique_ptr<MeasureRecordReader> make(FILE *in, SampleFormat fmt, size_t n_measurements, size_t n_detectors = 0, size_t n_observables = 0) {
        if (fmt == SampleFormat::SAMPLE_FORMAT_PTB64) throw std::invalid_argument("ptb64 not supported by this shim");
        return std::unique_ptr<MeasureRecordReader>(new MeasureRecordReader{in, fmt, n_measurements, n_detectors, n_observables});
    }
    bool start_and_read_entire_record(SparseShot &shot) {
        size_t bits = nm + nd + no;
        int c = getc(f);
        switch (fmt) {
            case SampleFormat::SAMPLE_FORMAT_01: {
                if (c == EOF) return false;
                for (size_t k = 0; k < bits; k++) {
                    if (c != '0' && c != '1') throw std::invalid_argument("Expected a 0 or 1 in 01 data.");
                    if (c == '1') hit(shot, k);
                    c = getc(f);
                }
                if (c == '\r') c = getc(f);
                if (c != '\n' && c != EOF) throw std::invalid_argument("01 data didn't end with a newline after the expected data length.");
                return true;
            }
            case SampleFormat::SAMPLE_FORMAT_B8: {
                if (bits == 0) { if (c != EOF) ungetc(c, f); return false; }
                if (c == EOF) return false;
                for (size_t b = 0; b < (bits + 7) / 8; b++) {
                    if (c == EOF) throw std::invalid_argument("b8 data ended in middle of record.");
                    for (size_t r = 0; r < 8; r++) if ((c >> r & 1) && b * 8 + r < bits) hit(shot, b * 8 + r);
                    if (b + 1 < (bits + 7) / 8) c = getc(f);
                }
                return true;
            }
            case SampleFormat::SAMPLE_FORMAT_HITS: {
                if (c == EOF) return false;
                bool first = true;
                while (c != '\n' && c != EOF) {
                    if (!first) { if (c != ',') throw std::invalid_argument("bad hits data"); c = getc(f); }
                    first = false;
                    if (!isdigit(c)) throw std::invalid_argument("bad hits data");
                    uint64_t v = 0;
                    while (isdigit(c)) { v = v * 10 + (c - '0'); c = getc(f); }
                    if (v >= bits) throw std::invalid_argument("hits data past end");
                    hit(shot, v);
                    if (c == '\r') c = getc(f);
                }
                return true;
            }
            case SampleFormat::SAMPLE_FORMAT_R8: {
                if (c == EOF) return false;
                size_t pos = 0;
                while (true) {
                    if (c == EOF) throw std::invalid_argument("r8 data ended in middle of record.");
                    pos += (size_t)c;
                    if (c != 255) {
                        if (pos == bits) return true;
                        if (pos > bits) throw std::invalid_argument("r8 data jumped past expected end");
                        hit(shot, pos);
                        pos++;
                    }
                    c = getc(f);
                }
            }
            default: {
                while (c == ' ' || c == '\n' || c == '\r' || c == '\t') c = getc(f);
                if (c == EOF) return false;
                for (const char *q = "shot"; *q; q++) { if (c != *q) throw std::invalid_argument("DETS data didn't start with 'shot'"); c = getc(f); }
                while (true) {
                    while (c == ' ' || c == '\r') c = getc(f);
                    if (c == '\n' || c == EOF) return true;
                    int kind = c;
                    c = getc(f);
                    if (!isdigit(c)) throw std::invalid_argument("bad dets data");
                    uint64_t v = 0;
                    while (isdigit(c)) { v = v * 10 + (c - '0'); c = getc(f); }
                    if (kind == 'M' && v < nm) hit(shot, v);
                    else if (kind == 'D' && v < nd) hit(shot, nm + v);
                    else if (kind == 'L' && v < no) hit(shot, nm + nd + v);
                    else throw std::invalid_argument("bad dets data");
                }
            }
        }
    }
   private:
    MeasureRecordReader(FILE *f, SampleFormat fmt, size_t a, size_t b, size_t c) : f(f), fmt(fmt), nm(a), nd(b), no(c) {}
    void hit(SparseShot &s, size_t k) { if (k < nm + nd) s.hits.push_back(k); else s.obs_mask.flip(k - nm - nd); }
};

struct MeasureRecordWriter {
    FILE *f; SampleFormat fmt; char kind = 'M'; size_t pos = 0; uint8_t acc = 0; bool started = false; int run = 0;
    static std::unique_ptr<MeasureRecordWriter> make(FILE *out, SampleFormat fmt) {
        if (fmt == SampleFormat::SAMPLE_FORMAT_PTB64) throw std::invalid_argument("ptb64 not supported by this shim");
        auto p = std::make_unique<MeasureRecordWriter>(); p->f = out; p->fmt = fmt; return p;
    }
    void begin_result_type(char k) { kind = k; pos = 0; }
    void write_bit(bool b) {
        switch (fmt) {
            case SampleFormat::SAMPLE_FORMAT_01: putc(b ? '1' : '0', f); break;
            case SampleFormat::SAMPLE_FORMAT_B8: acc |= (uint8_t)(b << (pos % 8)); if (pos % 8 == 7) { putc(acc, f); acc = 0; } break;
            case SampleFormat::SAMPLE_FORMAT_HITS: if (b) { if (started) putc(',', f); fprintf(f, "%zu", pos); started = true; } break;
            case SampleFormat::SAMPLE_FORMAT_R8: if (b) { putc(run, f); run = 0; } else if (++run == 255) { putc(255, f); run = 0; } break;
            default: if (!started) { fputs("shot", f); started = true; } if (b) fprintf(f, " %c%zu", kind, pos);
        }
        pos++;
    }
    void write_end() {
        switch (fmt) {
            case SampleFormat::SAMPLE_FORMAT_B8: if (pos % 8) putc(acc, f); acc = 0; break;
            case SampleFormat::SAMPLE_FORMAT_R8: putc(run, f); run = 0; break;
            case SampleFormat::SAMPLE_FORMAT_DETS: if (!started) fputs("shot", f); putc('\n', f); break;
            default: putc('\n', f);
        }
        started = false; pos = 0;
    }
};

// ---------------------------------------------------------------- command line arguments
inline const char *find_argument(const char *name, int argc, const char **argv) {
    size_t n = strlen(name);
    const char *flag_found = nullptr;
    for (int i = 1; i < argc; i++) {
        if (strncmp(argv[i], name, n)) continue;
        if (argv[i][n] == '=') return argv[i] + n + 1;
        if (argv[i][n] == 0) {
            if (i + 1 >= argc || argv[i + 1][0] == '-') { flag_found = ""; return flag_found; }
            return argv[i + 1];
        }
    }
    return nullptr;
}
inline const char *require_find_argument(const char *name, int argc, const char **argv) {
    auto r = find_argument(name, argc, argv);
    if (!r) throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
    return r;
}
inline void check_for_unknown_arguments(const std::vector<const char *> &known, const std::vector<const char *> &known_but_deprecated, const char *for_mode, int argc, const char **argv) {
    for (int i = 1; i < argc; i++) {
        if (argv[i][0] != '-') continue;
        if (!strcmp(argv[i], "--")) break;
        std::string a = argv[i];
        a = a.substr(0, a.find('='));
        bool ok = false;
        for (auto k : known) ok |= a == k;
        for (auto k : known_but_deprecated) ok |= a == k;
        if (!ok) throw std::invalid_argument("Unrecognized command line argument " + a + " for " + (for_mode ? for_mode : ""));
    }
}
inline FILE *find_open_file_argument(const char *name, FILE *def, const char *mode, int argc, const char **argv) {
    auto p = find_argument(name, argc, argv);
    if (!p) { if (!def) throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'"); return def; }
    if (!*p) throw std::invalid_argument(std::string("Command line argument '") + name + "' can't be empty.");
    FILE *f = fopen(p, mode);
    if (!f) throw std::invalid_argument(std::string("Failed to open '") + p + "'");
    return f;
}
template <typename T>
const T &find_enum_argument(const char *name, const char *def, const std::map<std::string_view, T> &values, int argc, const char **argv) {
    auto p = find_argument(name, argc, argv);
    if (!p) { if (!def) throw std::invalid_argument(std::string("Must specify a value for enum argument '") + name + "'."); p = def; }
    auto it = values.find(p);
    if (it == values.end()) throw std::invalid_argument(std::string("Unrecognized value '") + p + "' for enum argument '" + name + "'.");
    return it->second;
}
inline bool find_bool_argument(const char *name, int argc, const char **argv) {
    auto p = find_argument(name, argc, argv);
    if (!p) return false;
    if (!*p) return true;
    throw std::invalid_argument(std::string("Got non-empty value '") + p + "' for boolean flag '" + name + "'.");
}
inline int64_t find_int64_argument(const char *name, int64_t def, int64_t lo, int64_t hi, int argc, const char **argv) {
    auto p = find_argument(name, argc, argv);
    if (!p || !*p) { if (def < lo || def > hi) throw std::invalid_argument(std::string("Must specify a value for int argument '") + name + "'."); return def; }
    char *e; int64_t v = strtoll(p, &e, 10);
    if (*e || v < lo || v > hi) throw std::invalid_argument(std::string("Bad integer for '") + name + "'");
    return v;
}
inline float find_float_argument(const char *name, float def, float lo, float hi, int argc, const char **argv) {
    auto p = find_argument(name, argc, argv);
    if (!p || !*p) return def;
    float v = strtof(p, nullptr);
    if (v < lo || v > hi) throw std::invalid_argument(std::string("Bad float for '") + name + "'");
    return v;
}
}  // namespace stim
#endif
