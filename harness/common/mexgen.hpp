// Values of the Octave/MATLAB functions: from the models to arrays and back.
#pragma once
#include "gen.hpp"
#include "mex/mexrt.hpp"

namespace mxg {
using namespace gen;

typedef std::vector<std::pair<int, const char *>> Names;
static const Names REGION_NAMES{{TRAX_REGION_RECTANGLE, "rectangle"}, {TRAX_REGION_POLYGON, "polygon"}, {TRAX_REGION_MASK, "mask"}};
static const Names IMAGE_NAMES{{TRAX_IMAGE_PATH, "path"}, {TRAX_IMAGE_URL, "url"}, {TRAX_IMAGE_BUFFER, "buffer"}, {TRAX_IMAGE_MEMORY, "memory"}};
static const Names CHANNEL_NAMES{{TRAX_CHANNEL_COLOR, "color"}, {TRAX_CHANNEL_DEPTH, "depth"}, {TRAX_CHANNEL_IR, "ir"}};

inline std::string cased(Tape &t, std::string s) { if (t.chance(1, 3)) for (char &c : s) if (t.flip()) c = (char) toupper(c); return s; }
inline mx::Arr *text_value(Tape &t, const std::string &s) { return mx::str(s, s.empty() ? t.flip() : true); }
// a set of names: one string, or a row or column of strings in any order
inline mx::Arr *flags(Tape &t, int value, const Names &names) {
    std::vector<std::string> s; for (auto &n : names) if (value & n.first) s.push_back(cased(t, n.second));
    if (s.size() == 1 && t.chance(2, 3)) return mx::str(s[0]);
    for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[t.below(i)]);
    std::vector<mx::Arr *> e; for (auto &x : s) e.push_back(mx::str(x));
    mwSize n = (mwSize) e.size();
    return t.chance(1, 3) ? mx::cell({n, 1}, e) : mx::cell({1, n}, e);
}
// masks close to the origin, as they are expanded to cover everything from there
inline void nearby(Tape &t, MRegion &r) {
    if (r.type != TRAX_REGION_MASK) return;
    r.mx = (int) t.range(t.chance(1, 4) ? -(r.mw - 1) : 0, 60); r.my = (int) t.range(t.chance(1, 4) ? -(r.mh - 1) : 0, 60);
}
inline std::string field_name(std::string k) { for (size_t i = 1; i < k.size(); i++) if (!isalnum((unsigned char) k[i]) && k[i] != '_') k[i] = '_'; return k; }

// ------------------------------------------------------------------ regions
inline void same_region(const MRegion &w, const mx::Arr *a, const char *what) {
    auto differs = [&]() { fail(cat(what, ": region differs"), cat("wanted ", gen::show(w), ", got ", mx::show(a))); };
    if (w.type == TRAX_REGION_MASK) {
        int H = w.my + w.mh, W = w.mx + w.mw;
        if (a->cls != mxUINT8_CLASS || a->dims != std::vector<mwSize>({H, W})) differs();
        for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
            bool in = x >= w.mx && y >= w.my && w.bits[(size_t) (y - w.my) * (size_t) w.mw + (size_t) (x - w.mx)];
            if (in != (a->data[(size_t) x * (size_t) H + (size_t) y] != 0)) fail(cat(what, ": mask differs"), cat("row ", y, " column ", x, " of ", gen::show(w)));
        }
        return;
    }
    std::vector<double> v;
    if (w.type == TRAX_REGION_RECTANGLE) v = {w.x, w.y, w.w, w.h};
    else if (w.type == TRAX_REGION_POLYGON) for (auto &p : w.pts) { v.push_back(p.first); v.push_back(p.second); }
    else v = {(double) w.code};
    if (a->cls != mxDOUBLE_CLASS || a->dims != std::vector<mwSize>({1, (mwSize) v.size()})) differs();
    for (size_t i = 0; i < v.size(); i++) if (mx::value(a, i) != v[i]) differs();
}
inline mx::Arr *region(Tape &t, const MRegion &r) {
    if (r.type == TRAX_REGION_MASK) {
        int set = t.chance(1, 3) ? 255 : t.chance(1, 3) ? 2 + (int) t.below(250) : 1;
        std::string d((size_t) r.mw * (size_t) r.mh, 0);
        for (int y = 0; y < r.mh; y++) for (int x = 0; x < r.mw; x++) if (r.bits[(size_t) y * (size_t) r.mw + (size_t) x]) d[(size_t) x * (size_t) r.mh + (size_t) y] = (char) set;
        return mx::array(mxUINT8_CLASS, {r.mh, r.mw}, d.data());
    }
    std::vector<double> v;
    if (r.type == TRAX_REGION_RECTANGLE) v = {r.x, r.y, r.w, r.h};
    else for (auto &p : r.pts) { v.push_back(p.first); v.push_back(p.second); }
    return mx::array(mxDOUBLE_CLASS, {1, (mwSize) v.size()}, v.data());
}
// what a script can give: masks start at the origin
inline MRegion answer_region(Tape &t, int types = TRAX_REGION_ANY) { MRegion r = gen::region(t, types); if (r.type == TRAX_REGION_MASK) r.mx = r.my = 0; return r; }

// ------------------------------------------------------------------ images
inline void same_image(const MImage &w, const mx::Arr *a, const char *what) {
    auto differs = [&]() { fail(cat(what, ": differs"), cat("wanted ", gen::show(w), ", got ", mx::show(a))); };
    if (!a) differs();
    if (w.type == TRAX_IMAGE_PATH || w.type == TRAX_IMAGE_URL) { if (mx::text(a, what) != w.s) differs(); return; }
    if (w.type == TRAX_IMAGE_BUFFER) {
        if (a->cls != mxSTRUCT_CLASS || a->count() != 1) differs();
        const mx::Arr *f = nullptr, *d = nullptr;
        for (size_t i = 0; i < a->fields.size(); i++) { if (a->fields[i] == "format") f = a->cells[i]; if (a->fields[i] == "data") d = a->cells[i]; }
        if (!f || !d || mx::text(f, "image format") != (w.format == TRAX_IMAGE_BUFFER_PNG ? "png" : "jpeg")) differs();
        if (d->cls != mxUINT8_CLASS || std::string(d->data, d->bytes) != w.s) differs();
        return;
    }
    size_t ch = w.format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1, unit = w.format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1;
    std::vector<mwSize> dims{w.h, w.w}; if (ch == 3) dims.push_back(3);
    if (a->cls != (unit == 2 ? mxUINT16_CLASS : mxUINT8_CLASS) || a->dims != dims) differs();
    for (int y = 0; y < w.h; y++) for (int x = 0; x < w.w; x++) for (size_t k = 0; k < ch; k++)
        if (memcmp(a->data + ((size_t) y + (size_t) w.h * ((size_t) x + (size_t) w.w * k)) * unit, w.s.data() + (((size_t) y * (size_t) w.w + (size_t) x) * ch + k) * unit, unit))
            fail(cat(what, ": pixel differs"), cat("row ", y, " column ", x, " color ", k, " of ", gen::show(w)));
}
inline mx::Arr *image(const MImage &w) {
    if (w.type != TRAX_IMAGE_MEMORY) return mx::str(w.s);
    size_t ch = w.format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1, unit = w.format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1;
    std::vector<mwSize> dims{w.h, w.w}; if (ch == 3) dims.push_back(3);
    mx::Arr *a = mx::array(unit == 2 ? mxUINT16_CLASS : mxUINT8_CLASS, dims);
    for (int y = 0; y < w.h; y++) for (int x = 0; x < w.w; x++) for (size_t k = 0; k < ch; k++)
        memcpy(a->data + ((size_t) y + (size_t) w.h * ((size_t) x + (size_t) w.w * k)) * unit, w.s.data() + (((size_t) y * (size_t) w.w + (size_t) x) * ch + k) * unit, unit);
    return a;
}

// ------------------------------------------------------------------ parameters
inline void same_params(const MProps &want, const mx::Arr *a, bool record, const char *what) {
    MProps w, got; for (auto &kv : want) w[record ? field_name(kv.first) : kv.first] = kv.second;
    if (record) {
        check(a->cls == mxSTRUCT_CLASS && a->count() == 1, cat(what, ": not a structure"), mx::show(a));
        for (size_t i = 0; i < a->fields.size(); i++) { check(!got.count(a->fields[i]), cat(what, ": field twice"), a->fields[i]); got[a->fields[i]] = mx::text(a->cells[i], "parameter value"); }
    } else {
        check(a->cls == mxCELL_CLASS && (a->count() == 0 || a->cols() == 2) && a->dims.size() == 2, cat(what, ": not a cell array of two columns"), mx::show(a));
        size_t n = a->count() / 2;
        for (size_t i = 0; i < n; i++) { std::string k = mx::text(a->cells[i], "parameter name"); check(!got.count(k), cat(what, ": name twice"), k); got[k] = mx::text(a->cells[i + n], "parameter value"); }
    }
    gen::same(w, got, what);
}
// a structure or cell array of text and numbers; `p` holds the texts, `nums` the numbers
inline mx::Arr *parameters(Tape &t, MProps &p, std::vector<std::pair<std::string, double>> &nums) {
    bool record = t.flip(); MProps raw = props(t, 5, false);
    std::vector<std::pair<std::string, mx::Arr *>> e;
    for (auto &kv : raw) {
        std::string k = kv.first;
        if (record) { k = field_name("f" + k.substr(0, 40)); if (p.count(k)) continue; bool dup = false; for (auto &n : nums) dup |= n.first == k; if (dup) continue; }
        if (t.chance(1, 3)) {
            static const std::vector<int> classes{mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT32_CLASS, mxUINT8_CLASS, mxLOGICAL_CLASS, mxINT16_CLASS};
            int c = t.pick(classes);
            double v = c == mxDOUBLE_CLASS || c == mxSINGLE_CLASS ? (double) t.range(-16000, 16000) / 16 : c == mxLOGICAL_CLASS ? (double) t.below(2) : c == mxUINT8_CLASS ? (double) t.below(256) : (double) t.range(-1000, 1000);
            nums.push_back({k, v}); e.push_back({k, mx::number(v, c)});
        } else { p[k] = kv.second; e.push_back({k, text_value(t, kv.second)}); }
    }
    if (record) return mx::record(e);
    std::vector<mx::Arr *> cells; for (auto &x : e) cells.push_back(mx::str(x.first)); for (auto &x : e) cells.push_back(x.second);
    if (e.empty()) return mx::cell({0, t.flip() ? 2 : 0}, {});
    return mx::cell({(mwSize) e.size(), 2}, cells);
}
// what arrived for parameters made by the function above
inline void same_sent(const MProps &p, const std::vector<std::pair<std::string, double>> &nums, MProps got, const char *what) {
    for (auto &n : nums) {
        check(got.count(n.first), cat(what, ": number missing"), n.first);
        char *e; std::string s = got[n.first]; double v = strtod(s.c_str(), &e);
        check(!s.empty() && !*e && v == n.second, cat(what, ": number differs"), cat(n.first, ": wanted ", n.second, ", got ", quote(s)));
        got.erase(n.first);
    }
    gen::same(p, got, what);
}
}
