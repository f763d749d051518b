// Models of the library's data, their generators, and the way from model to library object and back.
#pragma once
#include "pbt.hpp"
#include <trax.h>
#include <algorithm>

namespace gen {
using namespace pbt;
typedef std::map<std::string, std::string> MProps;

// ------------------------------------------------------------------ text
static const char KEYCH[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";
inline std::string key(Tape &t) {
    static const std::vector<std::string> pool{"a", "b", "time", "user.key", "confidence", "x_1", "0", ".", "_", "tr", "trax", "traxx", "Trax.name", "reason", "version", "my.trax.level", "xtrax.name", "trax_name", ".trax.", "name", "region"};
    if (t.below(3) == 0) return t.pick(pool);
    size_t n = t.chance(1, 12) ? (t.flip() ? 64 : 63) : 1 + t.size(40);
    std::string s;
    if (t.chance(1, 2)) { size_t a = t.below(64); for (size_t i = 0; i < n; i++) s += KEYCH[(a + i * 7) % 64]; }   // one draw for the whole key
    else { n = std::min<size_t>(n, 12); for (size_t i = 0; i < n; i++) s += KEYCH[t.below(64)]; }
    if (s.compare(0, 5, "trax.") == 0) s[0] = 'T';
    return s;
}
// also keys of the reserved name space, which only the hello message and the end of a session treat specially
inline std::string open_key(Tape &t) {
    static const std::vector<std::string> pool{"trax.id", "trax.", "trax.name", "trax.version", "trax.x.y", "trax.image"};
    return t.chance(1, 10) ? t.pick(pool) : key(t);
}
// any text without NUL; `n` bytes of a drawn flavour
inline std::string text_of(Tape &t, size_t n) {
    static const std::string special = " \"\\\n=;,:@\r\t'n%";
    static const std::vector<std::string> words{"a", " ", "\"", "\\", "\n", "=", "\\n", "\\\"", "k=v", "@@TRAX:", "\n@@TRAX:quit\n", "\" \"", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\x80", "\x01", "%s%n", "nan", "0", "\r\n", "\x7f", "//", "\\\\", "x y"};
    std::string s;
    switch (t.weighted({3, 3, 2, 2, 2})) {
    case 0: for (size_t i = 0; i < n; i++) s += (char) ('a' + (n > 64 ? i % 26 : t.below(26))); break;
    case 1: while (s.size() < n) { if (n > 400) { uint64_t st = t.below(1 << 16); while (s.size() < n) s += words[splitmix(st) % words.size()]; } else s += t.pick(words); } s.resize(n); break;
    case 2: { if (n > 64) { uint64_t st = t.below(1 << 16); while (s.size() < n) s += special[splitmix(st) % special.size()]; } else while (s.size() < n) s += special[t.below(special.size())]; break; }
    case 3: { uint64_t st = t.below(1 << 16); while (s.size() < n) s += (char) (1 + splitmix(st) % 255); break; }
    default: { char c = special[t.below(special.size())]; s.assign(n, c); break; }
    }
    return s;
}
inline size_t text_size(Tape &t, bool big) {
    static const std::vector<size_t> edges{4095, 4096, 4097, 8191, 8192, 8193, 4000, 12288, 1023, 1024};
    switch (t.weighted({4, 4, 3, 1, big ? 1u : 0u, big ? 1u : 0u})) {
    case 0: return t.below(4);
    case 1: return t.below(24);
    case 2: return t.below(120);
    case 3: return t.below(700);
    case 4: return t.pick(edges) - t.below(60);
    default: return t.below(20000);
    }
}
inline std::string text(Tape &t, bool big = true) { return text_of(t, text_size(t, big)); }

inline MProps props(Tape &t, size_t max = 6, bool big = true, bool reserved = false) {
    MProps m; size_t n = t.chance(1, 24) ? t.below(120) : t.below(max + 1);
    for (size_t i = 0; i < n; i++) { std::string k = reserved ? open_key(t) : key(t); m[k] = text(t, big && n < 20); }
    return m;
}
inline trax_properties *make(const MProps &m) { trax_properties *p = trax_properties_create(); for (auto &kv : m) trax_properties_set(p, kv.first.c_str(), kv.second.c_str()); return p; }
struct Collect { MProps m; int twice = 0; };
inline void collect(const char *k, const char *v, const void *o) { Untracked u; Collect *c = (Collect *) o; if (c->m.count(k)) c->twice++; c->m[k] = v; }
inline MProps observe(const trax_properties *p) {
    Collect c; if (!p) return c.m;
    trax_properties_enumerate(p, collect, &c);
    check(c.twice == 0, "property enumerated twice");
    check(trax_properties_count(p) == (int) c.m.size(), "property count differs from enumeration", cat(trax_properties_count(p), " != ", c.m.size()));
    return c.m;
}
inline std::string show(const MProps &m) { std::string r = "{"; int n = 0; for (auto &kv : m) { if (n++) r += ", "; if (n > 5) { r += "..."; break; } r += quote(kv.first, 40) + ": " + quote(kv.second, 40); } return r + "}"; }
inline void same(const MProps &want, const MProps &got, const char *what) {
    if (want == got) return;
    for (auto &kv : want) {
        auto it = got.find(kv.first);
        if (it == got.end()) fail(cat(what, ": property missing"), cat("key ", quote(kv.first), ", wanted ", quote(kv.second)));
        if (it->second != kv.second) fail(cat(what, ": property value differs"), cat("key ", quote(kv.first), ", wanted ", quote(kv.second), ", got ", quote(it->second)));
    }
    for (auto &kv : got) if (!want.count(kv.first)) fail(cat(what, ": unexpected property"), cat(quote(kv.first), "=", quote(kv.second)));
}

// ------------------------------------------------------------------ regions
struct MRegion {
    int type = TRAX_REGION_SPECIAL;
    int code = 0;
    float x = 0, y = 0, w = 0, h = 0;
    std::vector<std::pair<float, float>> pts;
    int mx = 0, my = 0, mw = 0, mh = 0;
    std::string bits;                // mask pixels, 0 or 1
    bool operator==(const MRegion &o) const {
        if (type != o.type) return false;
        if (type == TRAX_REGION_SPECIAL) return code == o.code;
        if (type == TRAX_REGION_RECTANGLE) return x == o.x && y == o.y && w == o.w && h == o.h;
        if (type == TRAX_REGION_POLYGON) return pts == o.pts;
        return mx == o.mx && my == o.my && mw == o.mw && mh == o.mh && bits == o.bits;
    }
};
inline std::string show(const MRegion &r) {
    if (r.type == TRAX_REGION_SPECIAL) return cat("special(", r.code, ")");
    if (r.type == TRAX_REGION_RECTANGLE) return cat("rectangle(", r.x, ",", r.y, ",", r.w, ",", r.h, ")");
    if (r.type == TRAX_REGION_POLYGON) { std::string s = "polygon("; for (size_t i = 0; i < r.pts.size(); i++) { if (i > 8) { s += cat("...", r.pts.size(), " points"); break; } s += cat(i ? " " : "", r.pts[i].first, ",", r.pts[i].second); } return s + ")"; }
    if (r.type == TRAX_REGION_MASK) { std::string b; for (char c : r.bits) { if (b.size() > 60) { b += "..."; break; } b += (char) ('0' + c); } return cat("mask(", r.mx, ",", r.my, " ", r.mw, "x", r.mh, " ", b, ")"); }
    return cat("type ", r.type);
}
inline trax_region *make(const MRegion &r) {
    if (r.type == TRAX_REGION_SPECIAL) return trax_region_create_special(r.code);
    if (r.type == TRAX_REGION_RECTANGLE) return trax_region_create_rectangle(r.x, r.y, r.w, r.h);
    if (r.type == TRAX_REGION_POLYGON) {
        trax_region *p = trax_region_create_polygon((int) r.pts.size());
        for (size_t i = 0; i < r.pts.size(); i++) trax_region_set_polygon_point(p, (int) i, r.pts[i].first, r.pts[i].second);
        return p;
    }
    trax_region *p = trax_region_create_mask(r.mx, r.my, r.mw, r.mh);
    for (int i = 0; i < r.mh; i++) memcpy(trax_region_write_mask_row(p, i), r.bits.data() + (size_t) i * r.mw, r.mw);
    return p;
}
inline MRegion observe(const trax_region *p) {
    MRegion r;
    check(p != nullptr, "no region");
    r.type = trax_region_get_type(p);
    if (r.type == TRAX_REGION_SPECIAL) r.code = trax_region_get_special(p);
    else if (r.type == TRAX_REGION_RECTANGLE) trax_region_get_rectangle(p, &r.x, &r.y, &r.w, &r.h);
    else if (r.type == TRAX_REGION_POLYGON) {
        int n = trax_region_get_polygon_count(p);
        for (int i = 0; i < n; i++) { float x, y; trax_region_get_polygon_point(p, i, &x, &y); r.pts.push_back({x, y}); }
    } else if (r.type == TRAX_REGION_MASK) {
        trax_region_get_mask_header(p, &r.mx, &r.my, &r.mw, &r.mh);
        size_t all = r.mw > 0 && r.mh > 0 ? (size_t) r.mw * r.mh : 0; bool part = all > (1u << 22);     // of huge masks only a few rows are compared
        for (int i = 0; i < r.mh; i += part && i + 1 < r.mh ? std::max(1, (r.mh - 1) / 2) : 1) {
            const char *row = trax_region_get_mask_row(p, i); if (!row) fail("mask row missing", cat(i));
            int step = part ? std::max(1, r.mw / 1000) : 1;
            for (int j = 0; j < r.mw; j += step) r.bits += (char) (row[j] != 0);
            if (r.mw > 0) r.bits += (char) (row[r.mw - 1] != 0);
            if (!part && r.mw > 0) r.bits.pop_back();
        }
    } else fail("region of an undocumented type", cat(r.type));
    return r;
}
inline void same(const MRegion &want, const MRegion &got, const char *what) { if (!(want == got)) fail(cat(what, ": region differs"), cat("wanted ", show(want), ", got ", show(got))); }

inline float coord(Tape &t) {           // a multiple of 1/16: exact in the four printed decimals
    switch (t.weighted({4, 3, 2, 1})) {
    case 0: return (float) t.range(0, 100);
    case 1: return (float) t.range(-1600, 1600) / 16.0f;
    case 2: return (float) t.range(-16000, 16000) / 16.0f;
    default: return (float) t.range(-160000, 160000) / 4.0f;
    }
}
inline MRegion mask(Tape &t, int maxdim = 40, bool allow_empty = true) {
    MRegion r; r.type = TRAX_REGION_MASK;
    r.mw = 1 + (int) t.size(maxdim - 1); r.mh = 1 + (int) t.size(maxdim - 1);
    r.mx = (int) (t.flip() ? t.range(-50, 50) : t.range(0, 2000)); r.my = (int) (t.flip() ? t.range(-50, 50) : t.range(0, 2000));
    size_t n = (size_t) r.mw * r.mh; r.bits.assign(n, 0);
    switch (t.weighted({3, 2, 1, 1, allow_empty ? 1u : 0u})) {
    case 0: { uint64_t s = t.below(1 << 16); unsigned d = (unsigned) t.below(5); for (size_t i = 0; i < n; i++) r.bits[i] = splitmix(s) % 6 <= d; break; }
    case 1: { size_t i = 0; char v = (char) t.below(2); for (int k = 0; i < n && k < 40; k++) { size_t m = 1 + t.size(60); for (size_t j = 0; j < m && i < n; j++) r.bits[i++] = v; v = !v; } break; }   // runs
    case 2: r.bits.assign(n, 1); break;
    case 3: r.bits[t.below(n)] = 1; break;
    default: break;
    }
    if (!allow_empty && r.bits.find((char) 1) == std::string::npos) r.bits[t.below(n)] = 1;
    return r;
}
inline MRegion rectangle(Tape &t) { MRegion r; r.type = TRAX_REGION_RECTANGLE; r.x = coord(t); r.y = coord(t); r.w = std::fabs(coord(t)); r.h = std::fabs(coord(t)); return r; }
inline MRegion polygon(Tape &t) {
    MRegion r; r.type = TRAX_REGION_POLYGON; size_t n = 3 + (t.chance(1, 16) ? t.below(120) : t.below(6));
    for (size_t i = 0; i < n; i++) { float x = coord(t), y = coord(t); r.pts.push_back({x, y}); }
    return r;
}
inline MRegion special(Tape &t) { MRegion r; r.type = TRAX_REGION_SPECIAL; r.code = (int) t.range(-5, 300); return r; }
// a region of one of the types in `types`
inline MRegion region(Tape &t, int types, bool allow_empty_mask = true) {
    std::vector<int> c;
    for (int k : {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL}) if (types & k) c.push_back(k);
    int k = t.pick(c);
    return k == TRAX_REGION_RECTANGLE ? rectangle(t) : k == TRAX_REGION_POLYGON ? polygon(t) : k == TRAX_REGION_MASK ? mask(t, 40, allow_empty_mask) : special(t);
}

// ------------------------------------------------------------------ images
struct MImage {
    int type = 0; std::string s;     // path, url, pixels or buffer contents
    int w = 0, h = 0, format = 0;
    bool operator==(const MImage &o) const { return type == o.type && s == o.s && w == o.w && h == o.h && format == o.format; }
};
inline std::string show(const MImage &i) {
    switch (i.type) {
    case TRAX_IMAGE_PATH: return "path " + quote(i.s, 60);
    case TRAX_IMAGE_URL: return "url " + quote(i.s, 60);
    case TRAX_IMAGE_MEMORY: return cat("memory ", i.w, "x", i.h, " format ", i.format, " ", quote(i.s, 40));
    case TRAX_IMAGE_BUFFER: return cat("buffer format ", i.format, " ", quote(i.s, 40));
    default: return cat("type ", i.type);
    }
}
inline size_t pixel_bytes(int format) { return format == TRAX_IMAGE_MEMORY_RGB ? 3 : format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; }
// pixels of a memory image as stored; the layout is the documented one (rows one after the other)
inline trax_image *make(const MImage &i) {
    switch (i.type) {
    case TRAX_IMAGE_PATH: return trax_image_create_path(i.s.c_str());
    case TRAX_IMAGE_URL: return trax_image_create_url(i.s.c_str());
    case TRAX_IMAGE_BUFFER: return trax_image_create_buffer((int) i.s.size(), i.s.data());
    default: {
        trax_image *p = trax_image_create_memory(i.w, i.h, i.format);
        memcpy(trax_image_write_memory_row(p, 0), i.s.data(), i.s.size());
        return p; }
    }
}
inline MImage observe(const trax_image *p) {
    MImage r; r.type = trax_image_get_type(p);
    switch (r.type) {
    case TRAX_IMAGE_PATH: r.s = trax_image_get_path(p); break;
    case TRAX_IMAGE_URL: r.s = trax_image_get_url(p); break;
    case TRAX_IMAGE_BUFFER: { int n = 0; const char *d = trax_image_get_buffer(p, &n, &r.format); check(n >= 0, "negative buffer length"); r.s.assign(d, (size_t) n); break; }
    case TRAX_IMAGE_MEMORY: {
        trax_image_get_memory_header(p, &r.w, &r.h, &r.format);
        check(r.w > 0 && r.h > 0, "image of impossible size", cat(r.w, "x", r.h));
        check(r.format == TRAX_IMAGE_MEMORY_RGB || r.format == TRAX_IMAGE_MEMORY_GRAY8 || r.format == TRAX_IMAGE_MEMORY_GRAY16, "image of an undocumented pixel format", cat(r.format));
        r.s.assign(trax_image_get_memory_row(p, 0), (size_t) r.w * r.h * pixel_bytes(r.format)); break; }
    case TRAX_IMAGE_EMPTY: break;
    default: fail("image of an undocumented type", cat(r.type));
    }
    return r;
}
inline void same(const MImage &want, const MImage &got, const char *what) { if (!(want == got)) fail(cat(what, ": image differs"), cat("wanted ", show(want), ", got ", show(got))); }
inline std::string bytes(Tape &t, size_t n) {
    std::string s(n, 0); int k = (int) t.below(4); uint64_t st = t.below(1 << 16);
    for (size_t i = 0; i < n; i++) s[i] = k == 0 ? (char) (i * 3 + st) : k == 1 ? (char) splitmix(st) : k == 2 ? (char) (splitmix(st) & 1 ? 255 : 0) : (char) 0;
    return s;
}
inline MImage image(Tape &t, int formats, bool big = true) {
    std::vector<int> c; for (int k : {TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER}) if (formats & k) c.push_back(k);
    MImage i; i.type = t.pick(c);
    switch (i.type) {
    case TRAX_IMAGE_PATH: i.s = (t.flip() ? "/data/" : "") + text(t, big); break;
    case TRAX_IMAGE_URL: {
        static const std::vector<std::string> schemes{"http", "https", "ftp", "rtsp", "a", "git+ssh", "x-y.z", "abcdefghijklmno", "s3", "HTTP", "Az", "h264+Rtp", "a1b2.C3-d4"};
        i.s = t.pick(schemes) + ":" + (t.chance(1, 6) ? "" : "//") + text(t, big); break; }
    case TRAX_IMAGE_MEMORY: {
        i.format = 1 + (int) t.below(3);
        size_t m = big && t.chance(1, 12) ? 120 : 12;
        i.w = 1 + (int) t.below(m); i.h = 1 + (int) t.below(m);
        i.s = bytes(t, (size_t) i.w * i.h * pixel_bytes(i.format)); break; }
    default: {
        bool jpeg = t.flip(); i.format = jpeg ? TRAX_IMAGE_BUFFER_JPEG : TRAX_IMAGE_BUFFER_PNG;
        i.s = jpeg ? std::string("\xff\xd8\xff") + "\xe0\xe1\xdb\xee\xfe"[t.below(5)] : std::string("\x89PNG");
        i.s += bytes(t, 1 + t.below(big && t.chance(1, 8) ? 9000 : 40)); break; }
    }
    return i;
}

typedef std::vector<MImage> MImages;     // one per channel index; type 0 where absent
static const int CHANNEL_IDS[3] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR};
inline MImages images(Tape &t, int channels, int formats, bool big = true) { MImages m(3); for (int i = 0; i < 3; i++) if (channels & CHANNEL_IDS[i]) m[i] = image(t, formats, big); return m; }
struct Images {                          // owns a C image list
    trax_image_list *l;
    explicit Images(const MImages &m) { l = trax_image_list_create(); for (int i = 0; i < 3; i++) if (m[i].type) trax_image_list_set(l, make(m[i]), CHANNEL_IDS[i]); }
    explicit Images(trax_image_list *x) : l(x) {}
    ~Images() { if (l) { trax_image_list_clear(l); trax_image_list_release(&l); } }
    Images(const Images &) = delete;
};
inline MImages observe(const trax_image_list *l) {
    MImages m(3); check(l != nullptr, "no image list");
    for (int i = 0; i < 3; i++) { trax_image *p = trax_image_list_get(l, CHANNEL_IDS[i]); if (p) m[i] = observe(p); }
    return m;
}
inline void same(const MImages &want, const MImages &got, const char *what) { for (int i = 0; i < 3; i++) same(want[i], got[i], cat(what, " channel ", i).c_str()); }

// ------------------------------------------------------------------ objects
struct MObject { MRegion r; MProps p; };
typedef std::vector<MObject> MObjects;
struct Objects {
    trax_object_list *l;
    explicit Objects(const MObjects &m) {
        l = trax_object_list_create((int) m.size());
        for (size_t i = 0; i < m.size(); i++) {
            trax_region *r = make(m[i].r); trax_object_list_set(l, (int) i, r); trax_region_release(&r);
            for (auto &kv : m[i].p) trax_properties_set(trax_object_list_properties(l, (int) i), kv.first.c_str(), kv.second.c_str());
        }
    }
    explicit Objects(trax_object_list *x) : l(x) {}
    ~Objects() { if (l) trax_object_list_release(&l); }
    Objects(const Objects &) = delete;
};
inline MObjects observe(trax_object_list *l) {
    MObjects m; check(l != nullptr, "no object list");
    for (int i = 0; i < trax_object_list_count(l); i++) m.push_back({observe(trax_object_list_get(l, i)), observe(trax_object_list_properties(l, i))});
    return m;
}
inline void same(const MObjects &want, const MObjects &got, const char *what) {
    if (want.size() != got.size()) fail(cat(what, ": number of objects differs"), cat("wanted ", want.size(), ", got ", got.size()));
    for (size_t i = 0; i < want.size(); i++) { same(want[i].r, got[i].r, cat(what, " object ", i).c_str()); same(want[i].p, got[i].p, cat(what, " object ", i).c_str()); }
}
struct Props { trax_properties *p; explicit Props(const MProps &m) : p(make(m)) {} Props() : p(trax_properties_create()) {} ~Props() { trax_properties_release(&p); } Props(const Props &) = delete; };
}
