// Regions: text form (C14, C15), conversion and cloning (C16), bounds and membership (C17), overlap (C18).
#include "gen.hpp"
#include <climits>
using namespace pbt;
using namespace gen;

struct R {                                   // owns a region
    trax_region *p; explicit R(trax_region *x) : p(x) {} explicit R(const MRegion &m) : p(make(m)) {}
    ~R() { if (p) trax_region_release(&p); } R(const R &) = delete;
    operator const trax_region *() const { return p; }
};
static std::string encode(const trax_region *r) { char *s = trax_region_encode(r); check(s != nullptr, "region cannot be encoded"); std::string t = s; free(s); return t; }

// ================================================================== C14
static float any_float(Tape &t) {
    switch (t.weighted({3, 3, 2, 1, 1})) {
    case 0: return coord(t);
    case 1: return (float) t.range(-100000000, 100000000) / 10007.f;
    case 2: return (float) std::ldexp((double) t.range(-16777216, 16777216), (int) t.range(-30, 0));
    case 3: return (float) std::ldexp((double) t.range(-16777216, 16777216), (int) t.range(0, 90));
    default: return (float) t.range(-9, 9) / 100000.f;
    }
}
static bool printed_same(float a, float b) { return std::fabs((double) a - (double) b) <= 0.5e-4 + std::fabs((double) a) * 1.2e-7; }
static void printed_same(const MRegion &a, const MRegion &b, const char *what) {
    check(a.type == b.type, cat(what, ": type differs"), cat(show(a), " became ", show(b)));
    if (a.type == TRAX_REGION_RECTANGLE) check(printed_same(a.x, b.x) && printed_same(a.y, b.y) && printed_same(a.w, b.w) && printed_same(a.h, b.h), cat(what, ": rectangle differs"), cat(show(a), " became ", show(b)));
    else if (a.type == TRAX_REGION_POLYGON) { check(a.pts.size() == b.pts.size(), cat(what, ": number of points differs"), cat(a.pts.size(), " became ", b.pts.size())); for (size_t i = 0; i < a.pts.size(); i++) check(printed_same(a.pts[i].first, b.pts[i].first) && printed_same(a.pts[i].second, b.pts[i].second), cat(what, ": polygon differs"), cat("point ", i, ": ", show(a), " became ", show(b))); }
    else same(a, b, what);
}
static int any_int(Tape &t) {
    static const std::vector<int> edges{0, 1, -1, INT_MAX, INT_MIN, 16777217, -16777217, 33554433, 99999999, 2147483645};
    switch (t.below(3)) { case 0: return (int) t.range(-5, 300); case 1: return t.pick(edges); default: return (int) t.range(INT_MIN, INT_MAX); }
}
static MRegion text_region(Tape &t) {
    MRegion r;
    switch (t.weighted({1, 3, 3, 4})) {
    case 0: r.type = TRAX_REGION_SPECIAL; r.code = any_int(t); break;
    case 1: r.type = TRAX_REGION_RECTANGLE; r.x = any_float(t); r.y = any_float(t); r.w = any_float(t); r.h = any_float(t); break;
    case 2: { r.type = TRAX_REGION_POLYGON; size_t n = 3 + (t.chance(1, 30) ? t.below(2000) : t.size(20)); uint64_t st = t.below(1 << 16);
        for (size_t i = 0; i < n; i++) { float x, y; if (i < 16) { x = any_float(t); y = any_float(t); } else { x = (float) (splitmix(st) % 2000000) / 771.f - 900; y = (float) (splitmix(st) % 2000000) / 771.f - 900; } r.pts.push_back({x, y}); } break; }
    default: r = mask(t, t.chance(1, 10) ? 300 : 40); if (t.chance(1, 4)) { r.mx = any_int(t); r.my = any_int(t); } break;
    }
    return r;
}
static void c14(Tape &t, Ctx &c) {
    MRegion m = text_region(t); c.note(show(m));
    R r(m); std::string s = encode(r);
    R d(trax_region_decode(s.c_str())); check(d.p != nullptr, "encoded region cannot be decoded", quote(s));
    printed_same(m, observe(d.p), "after decoding");
    std::string s2 = encode(d); check(s2 == s, "text differs after decoding", cat(quote(s), " became ", quote(s2)));
    same(m, observe(r.p), "encoding changed the region");
    c.nontrivial = m.type != TRAX_REGION_SPECIAL;
    c.tag(m.type == TRAX_REGION_SPECIAL ? "special" : m.type == TRAX_REGION_RECTANGLE ? "rectangle" : m.type == TRAX_REGION_POLYGON ? "polygon" : "mask");
}
static Register r14({"C14", "a region of any type with drawn content is encoded, decoded, compared and encoded again; non-trivial unless special", c14});

// ================================================================== C15
static std::string number(Tape &t) {
    static const std::vector<std::string> odd{"", " ", "-", "+", "nan", "NaN", "-nan", "inf", "-inf", "1e5", "1e30", "-1e30", "1e308", "1e999", "0x10", "2147483647", "-2147483648", "2147483648", "4294967297", "99999999999999999999", "0.00001", ".5", "5.", "1.5", "-0", "00", "1 2", "a", "1a", "\t3", "\xff", "1e-320", "65536", "46341"};
    switch (t.weighted({6, 2, 2, 2})) { case 0: return cat(t.range(0, 12)); case 1: return cat(t.range(-300, 300)); case 2: return cat((double) t.range(-100000, 100000) / 64); default: return t.pick(odd); }
}
static std::string any_text(Tape &t) {
    static const std::vector<std::string> prefixes{"", "mask:", "rect:", "poly:", "special:", "mask", "rectangle:", "polygon:", ":", "m:", "ma:", "x:", "Mask:", "mask::", "mask: ", "s:", "abcdefghijklmnopqrstuvwxyz:", "file://", ".:", "masks:"};
    std::string s;
    switch (t.weighted({5, 3, 2})) {
    case 0: { s = t.pick(prefixes); size_t n = t.chance(1, 20) ? t.below(400) : t.below(14); for (size_t i = 0; i < n; i++) { if (i) s += t.chance(1, 16) ? (t.flip() ? ",," : ";") : ","; s += number(t); } if (t.chance(1, 10)) s += ","; break; }
    case 1: {   // a valid text, damaged
        R r(text_region(t)); s = encode(r);
        size_t k = 1 + t.below(4);
        for (size_t i = 0; i < k && !s.empty(); i++) {
            size_t a = t.below(s.size());
            switch (t.below(5)) { case 0: s.resize(a); break; case 1: s.erase(a, 1 + t.below(6)); break; case 2: s.insert(a, number(t)); break; case 3: s[a] = ",-0159.:mn "[t.below(11)]; break; default: { size_t b = t.below(s.size()); s.insert(b, s.substr(a, 1 + t.below(20))); break; } }
        } break; }
    default: s = text(t, t.chance(1, 8)); break;
    }
    return s;
}
static void c15(Tape &t, Ctx &c) {
    std::string s = any_text(t); c.note(quote(s, 300));
    R r(trax_region_decode(s.c_str()));
    c.nontrivial = s.size() > 2;
    if (!r.p) { c.tag("refused"); return; }
    MRegion m = observe(r.p);
    c.tag(m.type == TRAX_REGION_SPECIAL ? "special" : m.type == TRAX_REGION_RECTANGLE ? "rectangle" : m.type == TRAX_REGION_POLYGON ? "polygon" : "mask");
    if (m.type == TRAX_REGION_POLYGON) check(m.pts.size() >= 3, "polygon with too few points", cat(m.pts.size()));
    if (m.type == TRAX_REGION_MASK) check(m.mw > 0 && m.mh > 0, "mask of impossible size", cat(m.mw, "x", m.mh));
    if (m.type == TRAX_REGION_RECTANGLE) check(m.x == m.x && m.y == m.y && m.w == m.w && m.h == m.h, "rectangle with undefined coordinates", quote(s));
    for (auto &p : m.pts) check(p.first == p.first && p.second == p.second, "polygon with undefined coordinates", quote(s));
    std::string e = encode(r);
    R d(trax_region_decode(e.c_str())); check(d.p != nullptr, "decoded region is encoded to text that cannot be decoded", cat(quote(s), " became ", quote(e)));
    MRegion n = observe(d.p);
    if (m.type == TRAX_REGION_RECTANGLE || m.type == TRAX_REGION_POLYGON) { check(n.type == m.type, "type changed"); std::string e2 = encode(d); check(e2 == e, "text changed", cat(quote(e), " became ", quote(e2))); bool finite = std::isfinite(m.x) && std::isfinite(m.y) && std::isfinite(m.w) && std::isfinite(m.h); for (auto &p : m.pts) finite = finite && std::isfinite(p.first) && std::isfinite(p.second); if (finite) printed_same(m, n, "decoded again"); }
    else same(m, n, "decoded again");
    R k(trax_region_clone(r)); check(k.p != nullptr, "decoded region cannot be cloned"); same(m, observe(k.p), "clone of a decoded region");
}
static Register r15({"C15", "a string built from region syntax with odd numbers, a damaged valid text or arbitrary text is decoded; what is decoded is inspected, cloned, encoded and decoded again under the sanitizers; non-trivial with more than 2 characters", c15, 20});

// ================================================================== reference rasterisation
typedef std::vector<std::pair<long, long>> Pts;
static long fdiv(long a, long b) { if (b < 0) { a = -a; b = -b; } return a >= 0 ? a / b : -((-a + b - 1) / b); }
static long cdiv(long a, long b) { return -fdiv(-a, b); }
// the pixels a polygon with whole-pixel vertices covers: `must` are the pixel centres in the closed area,
// `may` also those less than a pixel right of ... left of an edge that cuts between pixel centres
struct Raster { int x0, y0, w, h; std::vector<char> must, may; bool in(const std::vector<char> &v, int x, int y) const { return x >= x0 && y >= y0 && x < x0 + w && y < y0 + h && v[(size_t) (y - y0) * w + (x - x0)]; } };
static Raster raster(const Pts &p, int x0, int y0, int w, int h) {
    Raster r{x0, y0, w, h, std::vector<char>((size_t) w * h, 0), std::vector<char>((size_t) w * h, 0)};
    auto fill = [&](std::vector<char> &v, long y, long a, long b) { for (long x = std::max<long>(a, x0); x <= std::min<long>(b, x0 + w - 1); x++) v[(size_t) (y - y0) * w + (x - x0)] = 1; };
    size_t n = p.size();
    for (long y = y0; y < y0 + h; y++) for (int rule = 0; rule < 2; rule++) {
        std::vector<std::pair<double, std::pair<long, long>>> nodes;      // position, its floor and ceiling
        for (size_t i = 0; i < n; i++) {
            auto a = p[i], b = p[(i + 1) % n];
            bool up = rule ? (a.second < y) != (b.second < y) : (a.second <= y) != (b.second <= y);
            if (up) { long num = (y - a.second) * (b.first - a.first), den = b.second - a.second; nodes.push_back({a.first + (double) num / den, {a.first + fdiv(num, den), a.first + cdiv(num, den)}}); }
            else if (a.second == y && b.second == y) { fill(r.must, y, std::min(a.first, b.first), std::max(a.first, b.first)); fill(r.may, y, std::min(a.first, b.first), std::max(a.first, b.first)); }
        }
        std::sort(nodes.begin(), nodes.end());
        for (size_t i = 0; i + 1 < nodes.size(); i += 2) { fill(r.must, y, nodes[i].second.second, nodes[i + 1].second.first); fill(r.may, y, nodes[i].second.first, nodes[i + 1].second.second); }
    }
    return r;
}
static Pts whole(const MRegion &m) { Pts p; for (auto &q : m.pts) p.push_back({std::lround(q.first), std::lround(q.second)}); return p; }
static const float QUARTERS[3] = {0.f, 0.25f, -0.25f};
// a polygon with moderate coordinates; `whole_only` keeps them on whole pixels
static MRegion small_polygon(Tape &t, bool whole_only, int lo, int hi) {
    MRegion r; r.type = TRAX_REGION_POLYGON;
    int kind = (int) t.below(4); size_t n = 3 + t.below(kind == 3 ? 12 : 5);
    if (kind == 1) {    // rectilinear outline: a staircase
        int x = (int) t.range(lo, hi - 8), y = (int) t.range(lo, hi - 8); int top = y, px = x; size_t steps = 1 + t.below(5);
        for (size_t i = 0; i < steps; i++) { int y2 = y + (int) t.below(8), x2 = px + 1 + (int) t.below(6); r.pts.push_back({(float) px, (float) y2}); r.pts.push_back({(float) x2, (float) y2}); px = x2; }
        r.pts.push_back({(float) px, (float) (top - 1 - (int) t.below(8))}); r.pts.push_back({(float) x, r.pts.back().second});
    } else if (kind == 2) {   // a comb: several peaks in one row
        int x = (int) t.range(lo, hi - 10), y = (int) t.range(lo, hi - 10), hgt = 1 + (int) t.below(12); size_t teeth = 1 + t.below(4);
        for (size_t i = 0; i < teeth; i++) { int d = 1 + (int) t.below(6), e = 1 + (int) t.below(6); r.pts.push_back({(float) x, (float) (y + hgt)}); r.pts.push_back({(float) (x + d), (float) y}); x += d + e; }
        r.pts.push_back({(float) x, (float) (y + hgt)}); r.pts.push_back({(float) x, (float) (y + hgt + (int) t.below(5))}); if (t.flip()) r.pts.push_back({r.pts[0].first, r.pts.back().second});
    } else for (size_t i = 0; i < n; i++) { float x = (float) t.range(lo, hi), y = (float) t.range(lo, hi); r.pts.push_back({x, y}); }
    if (!whole_only && t.flip()) for (auto &p : r.pts) { p.first += QUARTERS[t.below(3)]; p.second += QUARTERS[t.below(3)]; }
    return r;
}
static MRegion small_rect(Tape &t, int lo, int hi) { MRegion r; r.type = TRAX_REGION_RECTANGLE; r.x = (float) t.range(lo, hi); r.y = (float) t.range(lo, hi); r.w = (float) (1 + t.below(t.flip() ? 5 : 40)); r.h = (float) (1 + t.below(t.flip() ? 5 : 40)); return r; }
static MRegion small_mask(Tape &t, int lo, int hi, bool empty = true) { MRegion r = mask(t, 24, empty); r.mx = (int) t.range(lo, hi); r.my = (int) t.range(lo, hi); return r; }

static bool pixel(const MRegion &m, int x, int y) { return x >= m.mx && y >= m.my && x < m.mx + m.mw && y < m.my + m.mh && m.bits[(size_t) (y - m.my) * m.mw + (x - m.mx)]; }
struct Box { int l, t, r, b; bool empty() const { return l > r; } };
static Box box_of(const MRegion &m) { Box q{INT_MAX, INT_MAX, INT_MIN, INT_MIN}; for (int y = 0; y < m.mh; y++) for (int x = 0; x < m.mw; x++) if (m.bits[(size_t) y * m.mw + x]) { q.l = std::min(q.l, m.mx + x); q.r = std::max(q.r, m.mx + x); q.t = std::min(q.t, m.my + y); q.b = std::max(q.b, m.my + y); } return q; }
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(a)); }
// the same closed outline, whichever corner it starts from and whichever way it goes
static bool same_outline(const std::vector<std::pair<float, float>> &got, const std::vector<std::pair<double, double>> &want) {
    size_t n = want.size(); if (got.size() != n) return false;
    for (size_t s = 0; s < n; s++) for (int dir = -1; dir <= 1; dir += 2) { bool ok = true; for (size_t i = 0; i < n && ok; i++) { auto &g = got[(s + n + dir * (long) i) % n]; ok = close(g.first, want[i].first) && close(g.second, want[i].second); } if (ok) return true; }
    return false;
}
// ================================================================== C16
static void scribble(trax_region *p, const MRegion &m) {
    if (m.type == TRAX_REGION_SPECIAL) trax_region_set_special(p, m.code + 1);
    else if (m.type == TRAX_REGION_RECTANGLE) trax_region_set_rectangle(p, m.x + 1, m.y + 1, m.w + 1, m.h + 1);
    else if (m.type == TRAX_REGION_POLYGON) { for (int i = 0; i < (int) m.pts.size(); i++) trax_region_set_polygon_point(p, i, -1234, 4321); }
    else for (int i = 0; i < m.mh; i++) for (int j = 0; j < m.mw; j++) trax_region_write_mask_row(p, i)[j] ^= 1;
}
static void c16(Tape &t, Ctx &c) {
    bool grid = t.chance(2, 3);          // coordinates on whole pixels, where pixels can be compared exactly
    MRegion m;
    switch (t.weighted({1, 4, 4, 4})) {
    case 0: m = special(t); break;
    case 1: m = grid ? small_rect(t, -60, 100) : rectangle(t); if (t.chance(1, 12)) (t.flip() ? m.w : m.h) = (float) t.below(4) / 4.f; break;
    case 2: m = grid ? small_polygon(t, false, -60, 100) : polygon(t); break;
    default: m = small_mask(t, -60, 100); break;
    }
    static const std::vector<int> targets{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL};
    int target = t.chance(1, 4) ? 0 : t.pick(targets);
    c.note(cat(show(m), target ? cat(" converted to type ", target) : std::string(" cloned")));
    if (!grid && target == TRAX_REGION_MASK && m.type != TRAX_REGION_MASK && m.type != TRAX_REGION_SPECIAL) {   // keep the pixels countable
        m.w = std::fmod(m.w, 300.f); m.h = std::fmod(m.h, 300.f); for (auto &p : m.pts) { p.first = std::fmod(p.first, 200.f); p.second = std::fmod(p.second, 200.f); }
    }
    c.nontrivial = m.type != TRAX_REGION_SPECIAL;
    R r(m);
    R q(target ? trax_region_convert(r, target) : trax_region_clone(r));
    same(m, observe(r.p), "the original");
    if (!target || target == m.type) {
        check(q.p != nullptr, "no clone"); same(m, observe(q.p), "clone"); c.tag("clone");
        bool first = t.flip(); scribble(first ? q.p : r.p, m); same(m, observe(first ? r.p : q.p), "after changing the other one");
        return;
    }
    if (target == TRAX_REGION_SPECIAL) { check(q.p != nullptr && trax_region_get_type(q) == TRAX_REGION_SPECIAL, "no special region"); c.tag("to special"); return; }
    if (m.type == TRAX_REGION_SPECIAL) { if (q.p) { MRegion e = observe(q.p); check(e.type == target, "converted to a different type"); } c.tag("from special"); return; }
    if (m.type == TRAX_REGION_MASK && box_of(m).empty()) {
        if (q.p) { MRegion e = observe(q.p); check(e.type == target, "converted to a different type"); if (e.type == TRAX_REGION_RECTANGLE) check(e.w <= 0 || e.h <= 0, "empty mask gives a rectangle with an area", show(e)); }
        c.tag("empty mask"); return;
    }
    check(q.p != nullptr, "conversion failed", show(m));
    MRegion e = observe(q.p); check(e.type == target, "converted to a different type", cat(e.type));
    if (target == TRAX_REGION_POLYGON) {
        std::vector<std::pair<double, double>> want;
        double l, tp, rg, b;
        if (m.type == TRAX_REGION_RECTANGLE) { l = m.x; tp = m.y; rg = (double) m.x + m.w - 1; b = (double) m.y + m.h - 1; } else { Box k = box_of(m); l = k.l; tp = k.t; rg = k.r; b = k.b; }
        want = {{l, tp}, {rg, tp}, {rg, b}, {l, b}};
        check(same_outline(e.pts, want), "polygon does not have the corners", cat(show(m), " became ", show(e)));
        c.tag("to polygon");
    } else if (target == TRAX_REGION_RECTANGLE) {
        double l, tp, w, h;
        if (m.type == TRAX_REGION_POLYGON) { double x1 = 1e30, x2 = -1e30, y1 = 1e30, y2 = -1e30; for (auto &p : m.pts) { x1 = std::min<double>(x1, p.first); x2 = std::max<double>(x2, p.first); y1 = std::min<double>(y1, p.second); y2 = std::max<double>(y2, p.second); } l = x1; tp = y1; w = x2 - x1; h = y2 - y1; }
        else { Box k = box_of(m); l = k.l; tp = k.t; w = k.r - k.l + 1; h = k.b - k.t + 1; }
        check(close(e.x, l) && close(e.y, tp) && close(e.w, w) && close(e.h, h), "not the smallest rectangle", cat(show(m), " became ", show(e), ", wanted ", l, ",", tp, ",", w, ",", h));
        c.tag("to rectangle");
    } else {
        // pixel by pixel, in a window larger than both
        int x0, y0, x1, y1;
        x0 = e.mx; y0 = e.my; x1 = e.mx + e.mw; y1 = e.my + e.mh;
        if (m.type == TRAX_REGION_RECTANGLE) { x0 = std::min(x0, (int) std::floor(m.x)); y0 = std::min(y0, (int) std::floor(m.y)); x1 = std::max(x1, (int) std::ceil(m.x + m.w)); y1 = std::max(y1, (int) std::ceil(m.y + m.h)); }
        else for (auto &p : m.pts) { x0 = std::min(x0, (int) std::floor(p.first)); y0 = std::min(y0, (int) std::floor(p.second)); x1 = std::max(x1, (int) std::ceil(p.first) + 1); y1 = std::max(y1, (int) std::ceil(p.second) + 1); }
        x0 -= 2; y0 -= 2; x1 += 2; y1 += 2;
        if (m.type == TRAX_REGION_RECTANGLE) {
            if (m.w < 1 || m.h < 1) { check(box_of(e).empty(), "a rectangle smaller than a pixel covers pixels", cat(show(m), " became ", show(e))); c.tag("tiny rectangle"); return; }
            double s = grid && m.w == std::floor(m.w) && m.h == std::floor(m.h) ? 0 : 1;     // fractional borders may fall either way
            for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) {
                bool must = x >= m.x + s && x <= m.x + m.w - 1 - s && y >= m.y + s && y <= m.y + m.h - 1 - s, may = x > m.x - s - 1e-9 && x < m.x + m.w - 1 + s + 1e-9 && y > m.y - s - 1e-9 && y < m.y + m.h - 1 + s + 1e-9, got = pixel(e, x, y);
                if ((must && !got) || (got && !may)) fail("mask pixel differs from the rectangle", cat("pixel ", x, ",", y, " of ", show(m), " is ", got, " in ", show(e)));
            }
        } else {
            Raster ref = raster(whole(m), x0, y0, x1 - x0, y1 - y0);
            bool exact = grid;
            if (!exact) { for (auto &p : m.pts) { double fx = p.first - std::floor(p.first), fy = p.second - std::floor(p.second); if (std::fabs(fx - 0.5) < 0.01 || std::fabs(fy - 0.5) < 0.01) { c.tag("rounding either way"); return; } } }
            for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) { bool got = pixel(e, x, y); if ((ref.in(ref.must, x, y) && !got) || (got && !ref.in(ref.may, x, y))) fail("mask pixel differs from the polygon", cat("pixel ", x, ",", y, " of ", show(m), " is ", got)); }
        }
        c.tag("to mask");
    }
}
static Register r16({"C16", "a region of any type, on whole pixels or with fractions, is cloned or converted to any type and compared with independent geometry (pixel by pixel for masks); non-trivial unless special", c16, 20});

// ================================================================== C17
static bool even_odd(const MRegion &m, double x, double y, bool &near) {
    size_t n = m.pts.size(); bool in = false; near = false;
    for (size_t i = 0; i < n; i++) {
        double ax = m.pts[i].first, ay = m.pts[i].second, bx = m.pts[(i + 1) % n].first, by = m.pts[(i + 1) % n].second;
        double dx = bx - ax, dy = by - ay, l2 = dx * dx + dy * dy, u = l2 > 0 ? std::max(0.0, std::min(1.0, ((x - ax) * dx + (y - ay) * dy) / l2)) : 0;
        double ex = ax + u * dx - x, ey = ay + u * dy - y; double scale = 1 + std::fabs(ax) + std::fabs(bx) + std::fabs(ay) + std::fabs(by);
        if (ex * ex + ey * ey < 1e-10 * scale * scale) near = true;
        if ((ay > y) != (by > y) && x < ax + (y - ay) / dy * dx) in = !in;
    }
    return in;
}
static void c17(Tape &t, Ctx &c) {
    MRegion m; bool small = t.chance(2, 3);
    switch (t.weighted({1, 4, 4, 4})) {
    case 0: m = special(t); break;
    case 1: m = small ? small_rect(t, -30, 30) : rectangle(t); break;
    case 2: m = small ? small_polygon(t, false, -30, 30) : polygon(t); break;
    default: m = small_mask(t, -30, 30); if (t.chance(1, 4)) { m.mx = (int) t.range(-100000, 100000); m.my = (int) t.range(-100000, 100000); } break;
    }
    c.note(show(m)); c.nontrivial = m.type != TRAX_REGION_SPECIAL;
    R r(m);
    trax_bounds b = trax_region_bounds(r);
    double l = 0, tp = 0, rg = 0, bt = 0; bool has = true;
    if (m.type == TRAX_REGION_RECTANGLE) { l = m.x; tp = m.y; rg = (double) m.x + m.w - 1; bt = (double) m.y + m.h - 1; }
    else if (m.type == TRAX_REGION_POLYGON) { l = tp = 1e30; rg = bt = -1e30; for (auto &p : m.pts) { l = std::min<double>(l, p.first); rg = std::max<double>(rg, p.first); tp = std::min<double>(tp, p.second); bt = std::max<double>(bt, p.second); } }
    else if (m.type == TRAX_REGION_MASK) { Box k = box_of(m); if (k.empty()) has = false; else { l = k.l; tp = k.t; rg = k.r; bt = k.b; } }
    else has = false;
    if (has) {
        check(close(b.left, l) && close(b.top, tp) && close(b.right, rg) && close(b.bottom, bt), "bounds are not tight", cat(show(m), " has bounds ", b.left, ",", b.top, " to ", b.right, ",", b.bottom, ", wanted ", l, ",", tp, " to ", rg, ",", bt));
    } else if (m.type == TRAX_REGION_SPECIAL) c.tag("special");
    int inside = 0;
    for (int i = 0; i < 24; i++) {
        float x, y;
        if (m.type == TRAX_REGION_MASK && t.chance(2, 3)) { x = (float) m.mx + (float) t.range(-2, m.mw + 2); y = (float) m.my + (float) t.range(-2, m.mh + 2); if (small) { x += (float) t.below(4) / 4.f; y += (float) t.below(4) / 4.f; } }
        else if (has && t.chance(3, 4)) { double u = (double) t.range(-4, 20) / 16.0, v = (double) t.range(-4, 20) / 16.0; x = (float) (std::floor((l + u * (rg - l)) * 4) / 4); y = (float) (std::floor((tp + v * (bt - tp)) * 4) / 4); if (t.chance(1, 4)) { x = (float) (t.flip() ? l : rg); } }
        else { x = coord(t); y = coord(t); }
        bool got = trax_region_contains(r, x, y) != 0, want = false, sure = true;
        if (m.type == TRAX_REGION_RECTANGLE) { want = x >= m.x && x <= m.x + m.w && y >= m.y && y <= m.y + m.h; double e = 1e-4 * (1 + std::fabs(m.x) + m.w + std::fabs(m.y) + m.h); if (!small) for (double d : {(double) x - m.x, (double) x - m.x - m.w, (double) y - m.y, (double) y - m.y - m.h}) if (std::fabs(d) < e && d != 0) sure = false; }
        else if (m.type == TRAX_REGION_POLYGON) { bool near; want = even_odd(m, x, y, near); sure = !near; if (x < l || x > rg || y < tp || y > bt) { want = false; sure = true; } }
        else if (m.type == TRAX_REGION_MASK) want = pixel(m, (int) std::floor(x), (int) std::floor(y));
        if (sure) check(got == want, "point membership differs", cat(show(m), " ", got ? "contains " : "does not contain ", x, ",", y));
        inside += got;
    }
    if (inside) c.tag("points inside");
    c.tag(m.type == TRAX_REGION_RECTANGLE ? "rectangle" : m.type == TRAX_REGION_POLYGON ? "polygon" : "mask or special");
}
static Register r17({"C17", "a region of any type and 24 points around it (also negative, fractional, on the border and far away); bounds and membership compared with independent geometry; non-trivial unless special", c17});

// ================================================================== C18
static MRegion moved(MRegion m, int dx, int dy) { m.x += dx; m.y += dy; m.mx += dx; m.my += dy; for (auto &p : m.pts) { p.first += dx; p.second += dy; } return m; }
static bool finite_bounds(const trax_bounds &b) { return std::fabs(b.left) < 1e9f; }
// upright boxes of very different size, far from the origin, in any representation: the counts are exact
static void c18_boxes(Tape &t, Ctx &c) {
    struct Box { long x, y, w, h; };
    auto side = [&]() -> long { switch (t.below(4)) { case 0: return 1 + (long) t.below(3); case 1: return 1 + (long) t.below(40); case 2: return 100 + (long) t.below(900); default: return t.chance(1, 3) ? 1000 + (long) t.below(1500) : 1 + (long) t.below(6); } };
    Box a{(long) t.range(-3000, 3000), (long) t.range(-3000, 3000), side(), side()}, b{0, 0, side(), side()};
    b.x = a.x + (long) t.below(a.w + 4) - 2; b.y = a.y + (long) t.below(a.h + 4) - 2;
    auto build = [&](const Box &q, int kind) -> trax_region * {
        if (kind == 2 && q.w * q.h > 1000000) kind = 0;
        if (kind == 0) return trax_region_create_rectangle((float) q.x, (float) q.y, (float) q.w, (float) q.h);
        if (kind == 1) { trax_region *p = trax_region_create_polygon(4); float l = (float) q.x, r = (float) (q.x + q.w - 1), u = (float) q.y, d = (float) (q.y + q.h - 1);
            trax_region_set_polygon_point(p, 0, l, u); trax_region_set_polygon_point(p, 1, r, u); trax_region_set_polygon_point(p, 2, r, d); trax_region_set_polygon_point(p, 3, l, d); return p; }
        trax_region *m = trax_region_create_mask((int) q.x, (int) q.y, (int) q.w, (int) q.h); for (int i = 0; i < q.h; i++) memset(trax_region_write_mask_row(m, i), 1, q.w); return m;
    };
    int ka = (int) t.below(3), kb = (int) t.below(3);
    R ra(build(a, ka)), rb(build(b, kb));
    trax_bounds lim = trax_no_bounds; bool bounded = t.chance(1, 3); long l = LONG_MIN, u = LONG_MIN, r = LONG_MAX, d = LONG_MAX;
    if (bounded) { l = a.x + (long) t.below(a.w + 6) - 3; u = a.y + (long) t.below(a.h + 6) - 3; r = l + side(); d = u + side(); lim.left = (float) l; lim.top = (float) u; lim.right = (float) r; lim.bottom = (float) d; }
    auto cut = [&](Box q) { long x0 = std::max(q.x, l), y0 = std::max(q.y, u), x1 = std::min(q.x + q.w - 1, r), y1 = std::min(q.y + q.h - 1, d); return Box{x0, y0, std::max(0l, x1 - x0 + 1), std::max(0l, y1 - y0 + 1)}; };
    Box ca = cut(a), cb = cut(b); long x0 = std::max(ca.x, cb.x), y0 = std::max(ca.y, cb.y), x1 = std::min(ca.x + ca.w, cb.x + cb.w), y1 = std::min(ca.y + ca.h, cb.y + cb.h);
    long in = ca.w && ca.h && cb.w && cb.h && x1 > x0 && y1 > y0 ? (x1 - x0) * (y1 - y0) : 0, un = ca.w * ca.h + cb.w * cb.h - in;
    double want = un > 0 ? (double) in / un : 0;
    std::string where = cat("boxes ", a.w, "x", a.h, " at ", a.x, ",", a.y, " and ", b.w, "x", b.h, " at ", b.x, ",", b.y, " as kinds ", ka, " and ", kb, bounded ? cat(" in ", l, ",", u, " to ", r, ",", d) : std::string());
    c.note(where);
    float o = trax_region_overlap(ra, rb, lim), p = trax_region_overlap(rb, ra, lim);
    check(o == p, "overlap is not symmetric", where);
    check(std::fabs(o - want) <= 1e-5 * want, "overlap is not the intersection over union", cat(where, " = ", o, ", counted ", in, " of ", un));
    c.nontrivial = in > 0; if (in && (a.w * a.h > 1000 * b.w * b.h || b.w * b.h > 1000 * a.w * a.h)) c.tag("very different sizes");
}
static void c18(Tape &t, Ctx &c) {
    if (t.chance(1, 8)) return c18_boxes(t, c);
    int span = t.pick(std::vector<int>{6, 12, 30});
    auto draw = [&]() -> MRegion {
        switch (t.weighted({4, 3, 3})) {
        case 0: { MRegion m = small_rect(t, -span, span); if (t.chance(1, 6)) { m.w = 1 + (float) t.below(3); m.h = 1; } if (t.chance(1, 8)) { float q = QUARTERS[t.below(3)]; m.x += q; m.y += QUARTERS[t.below(3)]; } return m; }
        case 1: return small_polygon(t, false, -span, span + 12);
        default: return small_mask(t, -span, span); }
    };
    MRegion a = draw(), b = t.chance(1, 8) ? a : t.chance(1, 8) ? moved(a, (int) t.range(-2, 2), (int) t.range(-2, 2)) : draw();
    trax_bounds lim = trax_no_bounds; bool bounded = t.chance(2, 5);
    if (bounded) { lim.left = (float) t.range(-span - 5, span); lim.top = (float) t.range(-span - 5, span); lim.right = lim.left + (float) t.below(50); lim.bottom = lim.top + (float) t.below(50); }
    c.note(cat(show(a), " with ", show(b), bounded ? cat(" in ", lim.left, ",", lim.top, " to ", lim.right, ",", lim.bottom) : std::string(" without bounds")));
    R ra(a), rb(b);
    float o = trax_region_overlap(ra, rb, lim);
    std::string where = cat(show(a), " with ", show(b), " = ", o);
    check(o >= 0 && o <= 1, "overlap out of range", where);
    same(a, observe(ra.p), "overlap changed a region"); same(b, observe(rb.p), "overlap changed a region");
    check(trax_region_overlap(rb, ra, lim) == o, "overlap is not symmetric", where);
    // the reference counts
    int x0 = INT_MAX, y0 = INT_MAX, x1 = INT_MIN, y1 = INT_MIN;
    auto grow = [&](const MRegion &m) {
        auto pt = [&](double x, double y) { x0 = std::min(x0, (int) std::floor(x) - 1); y0 = std::min(y0, (int) std::floor(y) - 1); x1 = std::max(x1, (int) std::ceil(x) + 2); y1 = std::max(y1, (int) std::ceil(y) + 2); };
        if (m.type == TRAX_REGION_RECTANGLE) { pt(m.x, m.y); pt(m.x + m.w, m.y + m.h); } else if (m.type == TRAX_REGION_MASK) { pt(m.mx, m.my); pt(m.mx + m.mw, m.my + m.mh); } else for (auto &p : m.pts) pt(p.first, p.second);
    };
    grow(a); grow(b);
    auto cover = [&](const MRegion &m) -> Raster {
        if (m.type == TRAX_REGION_POLYGON) return raster(whole(m), x0, y0, x1 - x0, y1 - y0);
        if (m.type == TRAX_REGION_RECTANGLE) { long l = std::lround(m.x), tp = std::lround(m.y), r = std::lround(m.x + m.w - 1), bt = std::lround(m.y + m.h - 1); return raster({{l, tp}, {r, tp}, {r, bt}, {l, bt}}, x0, y0, x1 - x0, y1 - y0); }
        Raster r{x0, y0, x1 - x0, y1 - y0, {}, {}}; r.must.assign((size_t) r.w * r.h, 0);
        for (int y = 0; y < r.h; y++) for (int x = 0; x < r.w; x++) r.must[(size_t) y * r.w + x] = pixel(m, x + x0, y + y0);
        r.may = r.must; return r;
    };
    Raster ca = cover(a), cb = cover(b);
    long in_lo = 0, in_hi = 0, un_lo = 0, un_hi = 0, na = 0, nb = 0;
    for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) {
        if (bounded && (x < lim.left || x > lim.right || y < lim.top || y > lim.bottom)) continue;
        bool am = ca.in(ca.must, x, y), bm = cb.in(cb.must, x, y), ay = ca.in(ca.may, x, y), by = cb.in(cb.may, x, y);
        in_lo += am && bm; in_hi += ay && by; un_lo += am || bm; un_hi += ay || by; na += ay; nb += by;
    }
    double lo = un_hi ? (double) in_lo / un_hi : 0, hi = un_lo ? std::min(1.0, (double) in_hi / un_lo) : un_hi ? 1 : 0;
    check(o >= lo - 1e-6 && o <= hi + 1e-6, "overlap is not the intersection over union", cat(where, ", between ", lo, " and ", hi, " expected"));
    // the same area as masks
    if (!bounded || true) {
        bool mask_ok = true;
        for (const MRegion *m : {&a, &b}) if (m->type == TRAX_REGION_RECTANGLE && m->x != std::floor(m->x)) mask_ok = false;
        for (const MRegion *m : {&a, &b}) if (m->type == TRAX_REGION_RECTANGLE && m->y != std::floor(m->y)) mask_ok = false;
        if (mask_ok) {
            R ma(trax_region_convert(ra, TRAX_REGION_MASK)), mb(trax_region_convert(rb, TRAX_REGION_MASK)); check(ma.p && mb.p, "conversion to a mask failed");
            float om = trax_region_overlap(ma, mb, lim); check(std::fabs(om - o) <= 1e-6, "overlap of the masks differs", cat(where, ", as masks ", om));
            MRegion oa = observe(ma.p), ob = observe(mb.p); long in = 0, un = 0;
            for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) { if (bounded && (x < lim.left || x > lim.right || y < lim.top || y > lim.bottom)) continue; bool p = pixel(oa, x, y), q = pixel(ob, x, y); in += p && q; un += p || q; }
            check(std::fabs((un ? (double) in / un : 0) - o) <= 1e-6, "overlap does not count the pixels of the masks", cat(where, ", counted ", in, " of ", un));
        }
    }
    int dx = (int) t.range(-500, 500), dy = (int) t.range(-500, 500);
    { R ta(moved(a, dx, dy)), tb(moved(b, dx, dy)); trax_bounds tl = lim; if (bounded) { tl.left += dx; tl.right += dx; tl.top += dy; tl.bottom += dy; } float ot = trax_region_overlap(ta, tb, tl); check(std::fabs(ot - o) <= 1e-6, "overlap changes when both regions are moved", cat(where, ", moved by ", dx, ",", dy, " it is ", ot)); }
    if (na && !bounded) { float self = trax_region_overlap(ra, ra, trax_no_bounds); check(self == 1, "overlap with itself is not 1", cat(show(a), " = ", self)); }
    if (t.chance(1, 16)) { R s(special(t)); check(trax_region_overlap(ra, s, lim) == 0 && trax_region_overlap(s, rb, lim) == 0 && trax_region_overlap(s, s, lim) == 0, "overlap with a special region is not 0"); }
    c.nontrivial = na && nb; if (in_hi) c.tag("overlapping"); else c.tag("disjoint or empty"); if (bounded) c.tag("bounded");
}
static Register r18({"C18", "two rectangles, polygons or masks (also touching, one pixel wide, identical, combs and staircases, and boxes of very different size), with or without bounds; overlap compared with a reference count of pixels and with moved, swapped and rasterised variants; non-trivial when both cover pixels within the bounds", c18});
