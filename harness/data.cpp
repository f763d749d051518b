// Rows of images and masks (C13), property sets (C20, C21), lists (C22).
#include "gen.hpp"
using namespace pbt;
using namespace gen;

// ================================================================== C13
static void c13(Tape &t, Ctx &c) {
    bool is_mask = t.chance(1, 3);
    int fmt = 1 + (int) t.below(3);
    int w = 1 + (int) t.size(60), h = 1 + (int) t.size(60);
    size_t px = is_mask ? 1 : pixel_bytes(fmt), rb = (size_t) w * px;
    c.note(cat(is_mask ? "mask " : "image ", w, "x", h, " format ", fmt));
    trax_image *im = nullptr; trax_region *rg = nullptr;
    if (is_mask) rg = trax_region_create_mask((int) t.range(-20, 20), (int) t.range(-20, 20), w, h); else im = trax_image_create_memory(w, h, fmt);
    auto wr = [&](int i) { return is_mask ? trax_region_write_mask_row(rg, i) : trax_image_write_memory_row(im, i); };
    auto rd = [&](int i) { return is_mask ? trax_region_get_mask_row(rg, i) : trax_image_get_memory_row(im, i); };
    // the layout
    for (int i = 0; i < h; i++) {
        check(wr(i) == (char *) rd(i), "row for writing is not the row for reading", cat("row ", i));
        if (i) check(rd(i) == rd(i - 1) + rb, "rows are not consecutive", cat("row ", i, " is ", rd(i) - rd(i - 1), " bytes after the previous one, a row has ", rb));
    }
    // the contents, written in a drawn order, some rows more than once
    std::vector<std::string> model(h, std::string(rb, (char) 0));
    for (int i = 0; i < h; i++) memset(wr(i), 0, rb);
    size_t n = 1 + t.size((size_t) h * 2);
    for (size_t k = 0; k < n; k++) {
        int i = (int) t.below(h); std::string row = bytes(t, rb);
        if (t.chance(1, 3)) { size_t j = t.below(rb); wr(i)[j] = row[j]; model[i][j] = row[j]; }
        else { memcpy(wr(i), row.data(), rb); model[i] = row; }
        int probe = (int) t.below(h);
        check(model[probe] == std::string(rd(probe), rb), "row content differs", cat("row ", probe, " after writing row ", i));
    }
    for (int i = 0; i < h; i++) check(model[i] == std::string(rd(i), rb), "row content differs", cat("row ", i));
    if (is_mask) {      // the same pixels through the other ways of looking at the mask
        int x, y, mw, mh; trax_region_get_mask_header(rg, &x, &y, &mw, &mh); check(mw == w && mh == h, "mask size differs");
        for (int k = 0; k < 12; k++) { int i = (int) t.below(h), j = (int) t.below(w); check((trax_region_contains(rg, x + j + 0.25f, y + i + 0.25f) != 0) == (model[i][j] != 0), "mask pixel is not where its row says", cat("row ", i, " column ", j)); }
        trax_region_release(&rg);
    } else {
        int gw, gh, gf; trax_image_get_memory_header(im, &gw, &gh, &gf); check(gw == w && gh == h && gf == fmt, "image header differs");
        trax_image_release(&im);
    }
    c.nontrivial = h > 1;
    c.tag(is_mask ? "mask" : fmt == TRAX_IMAGE_MEMORY_RGB ? "rgb" : fmt == TRAX_IMAGE_MEMORY_GRAY16 ? "gray16" : "gray8");
}
static Register r13({"C13", "an image or mask of a drawn size and format, rows and single bytes written in a drawn order and read back against an array of rows; non-trivial with more than one row", c13});

// ================================================================== C20
static std::string any_key(Tape &t) {
    static const std::vector<std::string> few{"a", "b", "c", "trax.x", "trax.name", "ab", "ba", "", "A", "a b", "\xc3\xa9", "k=v", "\n"};
    switch (t.below(6)) {
    case 0: case 1: case 2: return t.pick(few);
    case 3: return cat("key", t.below(200));
    case 4: return key(t);
    default: return text(t, false);
    }
}
struct Stop { int left; MProps m; };
static void c20(Tape &t, Ctx &c) {
    const int N = 3;
    trax_properties *p[N]; MProps m[N];
    for (int i = 0; i < N; i++) p[i] = trax_properties_create();
    size_t steps = 1 + t.size(80); size_t changed = 0, overwritten = 0, appended = 0;
    for (size_t s = 0; s < steps; s++) {
        int i = (int) t.below(N), j = (i + 1 + (int) t.below(N - 1)) % N;
        switch (t.weighted({8, 2, 1, 2, 2, 2, 3, 1, 1})) {
        case 0: { std::string k = any_key(t), v = text(t, s < 4); if (m[i].count(k)) overwritten++; trax_properties_set(p[i], k.c_str(), v.c_str()); m[i][k] = v; changed++; break; }
        case 1: { size_t n = t.below(100); size_t a = t.below(60); for (size_t q = 0; q < n; q++) { std::string k = cat("key", a + q), v = cat(s, ":", q); if (m[i].count(k)) overwritten++; trax_properties_set(p[i], k.c_str(), v.c_str()); m[i][k] = v; } changed++; break; }
        case 2: trax_properties_clear(p[i]); m[i].clear(); break;
        case 3: { trax_properties *q = trax_properties_copy(p[j]); trax_properties_release(&p[i]); check(p[i] == nullptr, "released set is not reset"); p[i] = q; m[i] = m[j]; break; }
        case 4: trax_properties_append(p[j], p[i], 1); for (auto &kv : m[j]) m[i][kv.first] = kv.second; appended++; break;
        case 5: trax_properties_append(p[j], p[i], 0); for (auto &kv : m[j]) m[i].insert(kv); appended++; break;
        case 6: {
            std::string k = any_key(t);
            if (!m[i].empty() && t.flip()) { auto it = m[i].begin(); std::advance(it, t.below(m[i].size())); k = it->first; }
            auto it = m[i].find(k);
            char *v = trax_properties_get(p[i], k.c_str());
            check((v != nullptr) == (it != m[i].end()), "presence of a key differs", cat("key ", quote(k)));
            check((trax_properties_has(p[i], k.c_str()) != 0) == (it != m[i].end()), "has differs from get", cat("key ", quote(k)));
            if (v) { std::string got = v; check(got == it->second, "value of a key differs", cat("key ", quote(k), " wanted ", quote(it->second), ", got ", quote(got))); free(v); }
            break; }
        case 7: { int v = (int) t.range(-100000, 100000); std::string k = any_key(t); if (m[i].count(k)) overwritten++; trax_properties_set_int(p[i], k.c_str(), v); m[i][k] = cat(v); changed++; break; }
        default: trax_properties_release(&p[i]); p[i] = trax_properties_create(); m[i].clear(); break;
        }
        same(m[i], observe(p[i]), "set");
    }
    for (int i = 0; i < N; i++) { same(m[i], observe(p[i]), "set at the end"); trax_properties_release(&p[i]); }
    c.note(cat(steps, " operations, ", changed, " changes, ", overwritten, " overwrites, ", appended, " appends"));
    c.nontrivial = changed > 1;
    if (overwritten) c.tag("overwrites"); if (appended) c.tag("appends");
}
static Register r20({"C20", "a sequence of up to 81 operations over three property sets compared after each one with ordinary maps; non-trivial with more than one change", c20});

// ================================================================== C21
static std::string number_word(Tape &t, bool &number, double &value, bool integer) {
    static const std::vector<std::string> not_numbers{"", "x", "abc", "true", "-", "+", ".", "--1", "1x", "12abc", "1,5", "0 1", "1;", "4 4", "=", " ", "\n", "1.2.3", "9a", "7-", "e5", "1_000", "3%"};
    number = t.chance(3, 5);
    if (!number) return t.flip() ? t.pick(not_numbers) : cat(t.range(-1000, 1000), text_of(t, 1 + t.below(4)).insert(0, "z"));
    if (integer) { long v = t.weighted({2, 1, 1, 1}) == 0 ? (long) t.range(-50, 50) : (long) t.range(INT32_MIN, INT32_MAX); value = (double) v; return cat(t.chance(1, 8) && v >= 0 ? "+" : "", v); }
    char b[64]; snprintf(b, sizeof b, "%.*f", (int) t.below(7), (double) t.range(-100000000, 100000000) / 1000.0); value = atof(b); return b;
}
static void c21(Tape &t, Ctx &c) {
    trax_properties *p = trax_properties_create();
    std::string k = key(t);
    for (size_t i = 0, n = t.below(4); i < n; i++) { std::string o = key(t); if (o != k) trax_properties_set(p, o.c_str(), "5"); }
    switch (t.below(5)) {
    case 0: {
        static const std::vector<int> edges{0, 1, -1, INT32_MAX, INT32_MIN, 16777217, -16777217, 2147483646, 1000000};
        int v = t.flip() ? t.pick(edges) : (int) t.range(INT32_MIN, INT32_MAX), def = (int) t.range(-9, 9);
        c.note(cat("int ", v));
        trax_properties_set_int(p, k.c_str(), v);
        check(trax_properties_get_int(p, k.c_str(), def) == v, "integer is not read back", cat("wrote ", v, ", read ", trax_properties_get_int(p, k.c_str(), def)));
        c.nontrivial = true; c.tag("integer stored"); break; }
    case 1: {
        float v; switch (t.below(3)) { case 0: v = (float) t.range(-1000000, 1000000) / 64.f; break; case 1: v = (float) std::ldexp((double) t.range(-16777216, 16777216), (int) t.range(-40, 30)); break; default: v = (float) t.range(-3, 3) / 7.f; }
        c.note(cat("float ", v));
        trax_properties_set_float(p, k.c_str(), v);
        float got = trax_properties_get_float(p, k.c_str(), -77.5f);
        check(std::fabs((double) got - (double) v) <= 0.5e-6 + std::fabs((double) v) * 1e-7, "float is not read back", cat("wrote ", v, ", read ", got));
        c.nontrivial = true; c.tag("float stored"); break; }
    case 2: {
        bool number; double value = 0; std::string s = number_word(t, number, value, true); int def = (int) t.range(-100, 100);
        c.note(cat("text ", quote(s), " as integer"));
        trax_properties_set(p, k.c_str(), s.c_str());
        int got = trax_properties_get_int(p, k.c_str(), def), want = number ? (int) value : def;
        check(got == want, "text read as a wrong integer", cat(quote(s), " read as ", got, ", default ", def));
        c.nontrivial = true; c.tag(number ? "integer text" : "not an integer"); break; }
    case 3: {
        bool number; double value = 0; std::string s = number_word(t, number, value, false); float def = (float) t.range(-100, 100) / 4;
        c.note(cat("text ", quote(s), " as float"));
        trax_properties_set(p, k.c_str(), s.c_str());
        float got = trax_properties_get_float(p, k.c_str(), def), want = number ? (float) value : def;
        check(got == want, "text read as a wrong float", cat(quote(s), " read as ", got, ", default ", def));
        c.nontrivial = true; c.tag(number ? "float text" : "not a float"); break; }
    default: {
        int d = (int) t.range(-5000, 5000);
        c.note("absent key");
        check(trax_properties_get_int(p, k.c_str(), d) == d, "absent integer is not the default"); check(trax_properties_get_float(p, k.c_str(), d / 8.f) == d / 8.f, "absent float is not the default");
        c.tag("absent"); break; }
    }
    trax_properties_release(&p);
}
static Register r21({"C21", "a number stored and read back, or a text that is or is not entirely a decimal number read with a default; non-trivial unless the key is absent", c21});

// ================================================================== C22
static void objects_case(Tape &t, Ctx &c) {
    const int N = 3;
    trax_object_list *l[N]; MObjects m[N];
    auto fresh = [&](int i, size_t n) { l[i] = trax_object_list_create((int) n); m[i].assign(n, MObject()); };
    for (int i = 0; i < N; i++) fresh(i, t.below(5));
    size_t steps = 1 + t.size(40), sets = 0, appends = 0;
    for (size_t s = 0; s < steps; s++) {
        int i = (int) t.below(N), j = (i + 1 + (int) t.below(N - 1)) % N; size_t n = m[i].size();
        switch (t.weighted({5, 3, 2, 1, 1, 1, 1})) {
        case 0: {
            int k = t.chance(1, 6) ? (t.flip() ? (int) n + (int) t.below(4) : -1 - (int) t.below(3)) : (int) t.below(n + 1);
            MRegion r = region(t, 15); trax_region *x = make(r); trax_object_list_set(l[i], k, x);
            if (k >= 0 && k < (int) n) { m[i][k].r = r; sets++; }
            // the list must have its own copy
            if (r.type == TRAX_REGION_RECTANGLE) trax_region_set_rectangle(x, -1, -2, 3, 4); else if (r.type == TRAX_REGION_SPECIAL) trax_region_set_special(x, 77); else if (r.type == TRAX_REGION_POLYGON) trax_region_set_polygon_point(x, 0, -9, -9); else trax_region_write_mask_row(x, 0)[0] ^= 1;
            trax_region_release(&x); break; }
        case 1: if (n) { int k = (int) t.below(n); std::string key_ = open_key(t), v = text(t, false); trax_properties_set(trax_object_list_properties(l[i], k), key_.c_str(), v.c_str()); m[i][k].p[key_] = v; } break;
        case 2: if (m[i].size() + m[j].size() < 60) { int got = trax_object_list_append(l[i], l[j]); for (auto &o : m[j]) m[i].push_back(o); check(got == (int) m[i].size(), "append returned a wrong size", cat(got)); appends++; } break;
        case 3: { for (int k : {(int) n, (int) n + 7, -1, -100}) { check(trax_object_list_get(l[i], k) == nullptr, "object out of range", cat(k, " of ", n)); check(trax_object_list_properties(l[i], k) == nullptr, "properties out of range", cat(k)); } break; }
        case 4: trax_object_list_release(&l[i]); check(l[i] == nullptr, "released list is not reset"); fresh(i, t.below(6)); break;
        case 5: if (n && !m[j].empty()) { int a = (int) t.below(n), b = (int) t.below(m[j].size()); trax_object_list_set(l[i], a, trax_object_list_get(l[j], b)); m[i][a].r = m[j][b].r; sets++; } break;
        default: if (n) { int a = (int) t.below(n), b = (int) t.below(n); MRegion r = m[i][b].r; trax_object_list_set(l[i], a, trax_object_list_get(l[i], b)); m[i][a].r = r; sets++; } break;   // possibly the same slot
        }
        same(m[i], observe(l[i]), "list");
    }
    for (int i = 0; i < N; i++) { same(m[i], observe(l[i]), "list at the end"); trax_object_list_release(&l[i]); }
    c.note(cat("objects: ", steps, " operations, ", sets, " sets, ", appends, " appends"));
    c.nontrivial = sets > 1; c.tag("objects"); if (appends) c.tag("appends");
}
static void images_case(Tape &t, Ctx &c) {
    trax_image_list *l = trax_image_list_create(); MImages m(3);
    size_t steps = 1 + t.size(20), sets = 0;
    for (size_t s = 0; s < steps; s++) {
        int i = (int) t.below(3);
        switch (t.weighted({5, 2, 1, 1})) {
        case 0: {
            trax_image *old = trax_image_list_get(l, CHANNEL_IDS[i]); check((old != nullptr) == (m[i].type != 0), "image of a channel differs");
            if (old) trax_image_release(&old);
            m[i] = image(t, 15, false); trax_image *im = make(m[i]); trax_image_list_set(l, im, CHANNEL_IDS[i]); check(trax_image_list_get(l, CHANNEL_IDS[i]) == im, "the image set is not the image read"); sets++; break; }
        case 1: { static const std::vector<int> illegal{0, 3, 5, 6, 7, 8, 16, -1, 1 << 20}; int k = t.pick(illegal); check(trax_image_list_get(l, k) == nullptr, "image of an unknown channel", cat(k)); trax_image_list_set(l, NULL, k); break; }
        case 2: trax_image_list_clear(l); m = MImages(3); break;
        default: { int mask = (int) t.below(8); check(trax_image_list_count(mask) == (mask & 1) + (mask >> 1 & 1) + (mask >> 2 & 1), "wrong number of channels", cat(mask)); break; }
        }
        same(m, observe(l), "image list");
    }
    trax_image_list_clear(l); trax_image_list_release(&l); check(l == nullptr, "released list is not reset");
    c.note(cat("images: ", steps, " operations, ", sets, " sets"));
    c.nontrivial = sets > 1; c.tag("images");
}
static void c22(Tape &t, Ctx &c) { if (t.below(4) < 3) objects_case(t, c); else images_case(t, c); }
static Register r22({"C22", "a sequence of operations over three object lists, or over an image list, compared after each one with arrays; non-trivial with more than one set", c22});
