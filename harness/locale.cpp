// The text of the protocol in every locale of the program (C37).
#include "session.hpp"
#include "cppgen.hpp"
#include <trax.h>
#include <locale.h>
#include <locale>
using namespace pbt;
using namespace gen;
using namespace ses;

// Locales with another decimal sign, other letters or other upper and lower case (built by check.py, LOCPATH points to them)
static const std::vector<std::string> &names() { static const std::vector<std::string> n{"de_DE.utf8", "tr_TR.utf8", "de_DE.iso88591", "ps_AF.utf8", "tr_TR.iso88599"}; return n; }
static locale_t load(const std::string &n) {
    static std::map<std::string, locale_t> have; Untracked u;
    auto i = have.find(n); if (i != have.end()) return i->second;
    locale_t l = newlocale(LC_ALL_MASK, n.c_str(), (locale_t) 0);
    if (!l) { fprintf(stderr, "locale %s is missing\n", n.c_str()); _exit(98); }
    return have[n] = l;
}
static const std::locale &stream_locale(const std::string &n) { static std::map<std::string, std::locale> have; Untracked u; auto i = have.find(n); if (i == have.end()) i = have.emplace(n, std::locale(n.c_str())).first; return i->second; }
// the locale of the program for the time this object lives: of the calling thread or of the whole program
struct As {
    bool whole; locale_t old; std::string previous;
    As(const std::string &n, bool w) : whole(w), old((locale_t) 0) {
        Untracked u; locale_t l = load(n);
        if (!whole) { old = uselocale(l); return; }
        previous = setlocale(LC_ALL, NULL); if (!setlocale(LC_ALL, n.c_str())) { fprintf(stderr, "locale %s is missing\n", n.c_str()); _exit(98); }
    }
    ~As() { Untracked u; if (whole) setlocale(LC_ALL, previous.c_str()); else uselocale(old); }
};
static std::string odd_number(Tape &t) {
    static const std::vector<std::string> pool{"1.5", "0.25", "-3.75", "1,5", "1.000,5", "1\xd9\xab" "5", ".5", ",5", "1.", "1,", "1e3", "1.5e2", "1,5e2", "0x1.8p3", "nan", "inf", "-inf", "+1.5", " 1.5", "1.5 ", "", "12", "-7", "1.2.3", "100000.125", "1_5", "\xd9\xa1", "1'5"};
    return t.flip() ? t.pick(pool) : cat((double) t.range(-100000, 100000) / 64);
}
static float odd_float(Tape &t) { static const std::vector<float> e{0.5f, -0.25f, 1e-3f, 1234567.5f, 1e30f, -1e10f, 0.00004f, 16777216.f}; return t.flip() ? coord(t) : t.chance(1, 4) ? t.pick(e) : (float) t.range(-1000000, 1000000) / 771.f; }
static MRegion odd_region(Tape &t) { MRegion r = region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL); if (r.type == TRAX_REGION_RECTANGLE) { r.x = odd_float(t); r.w = odd_float(t); } for (size_t i = 0; i < r.pts.size() && i < 8; i++) r.pts[i].first = odd_float(t); return r; }
static std::string text_in(trax_region *r) { char *s = trax_region_encode(r); std::string e = s ? s : "(nothing)"; free(s); return e; }
static std::string seen(const MRegion &m) { std::string s = show(m); for (auto &p : m.pts) s += cat(" ", p.first, ",", p.second); return s + m.bits + cat(m.x, " ", m.y, " ", m.w, " ", m.h); }
static std::string decoded(const std::string &text) {
    trax_region *r = trax_region_decode(text.c_str()); if (!r) return "(nothing)";
    std::string s = seen(observe(r)); trax_region_release(&r); return s;
}
static void regions(Tape &t, Ctx &c, const std::string &n, bool whole) {
    MRegion m = odd_region(t); c.note(cat(n, " region ", show(m)));
    trax_region *r = make(m); std::string plain = text_in(r), other, text = plain; { As a(n, whole); other = text_in(r); }
    trax_region_release(&r);
    check(plain == other, "region is written differently in another locale", cat(n, ": ", quote(other, 200), " instead of ", quote(plain, 200)));
    for (size_t i = 0, k = t.below(4); i < k && !text.empty(); i++) {
        size_t a = t.below(text.size());
        switch (t.below(4)) { case 0: text.insert(a, odd_number(t)); break; case 1: text.erase(a, 1 + t.below(5)); break; case 2: text += "," + odd_number(t); break; default: { size_t d = text.find('.', a); if (d != std::string::npos) text[d] = ','; } }
    }
    if (t.chance(1, 3)) { text.clear(); for (size_t i = 0, k = 1 + t.below(9); i < k; i++) text += (i ? "," : "") + odd_number(t); }
    std::string x = decoded(text), y; { As a(n, whole); y = decoded(text); }
    check(x == y, "region is read differently in another locale", cat(n, ": ", quote(text, 200), " is ", y.substr(0, 300), " instead of ", x.substr(0, 300)));
    // what the C++ operators write and read, on streams with the same locale
    if (t.chance(1, 3)) {
        auto through = [&](const std::locale &l) { std::stringstream s; s.imbue(l); trax::Region q; { trax_region *w = make(m); char *e = trax_region_encode(w); trax_region_release(&w); s << e << "\n"; free(e); } s >> q; std::ostringstream o; o.imbue(l); o << q; return o.str(); };
        std::string p, q; p = through(std::locale::classic()); { As a(n, whole); q = through(stream_locale(n)); }
        check(p == q, "stream operators depend on the locale", cat(n, ": ", quote(q, 200), " instead of ", quote(p, 200)));
    }
    c.nontrivial = m.type != TRAX_REGION_SPECIAL; c.tag("regions");
}
static void numbers(Tape &t, Ctx &c, const std::string &n, bool whole) {
    float f = odd_float(t); int k = (int) t.range(-2000000, 2000000); std::string v = odd_number(t); if (t.chance(1, 8)) v = text(t, false);
    c.note(cat(n, " numbers ", f, " ", k, " ", quote(v)));
    auto run = [&]() {
        trax_properties *p = trax_properties_create(); trax_properties_set_float(p, "f", f); trax_properties_set_int(p, "i", k); trax_properties_set(p, "v", v.c_str());
        std::string s; for (const char *key : {"f", "i"}) { char *x = trax_properties_get(p, key); s += std::string(x) + "|"; free(x); }
        float a = trax_properties_get_float(p, "f", -1), b = trax_properties_get_float(p, "v", -123456); int d = trax_properties_get_int(p, "i", -1), e = trax_properties_get_int(p, "v", -123456);
        trax_properties_release(&p);
        trax::Properties q; q.set("f", f); q.set("i", k); s += q.get("f", std::string()) + "|" + q.get("i", std::string()) + "|";
        return s + cat(a, " ", b, " ", d, " ", e, " ", q.get("f", -1.f), " ", q.get("i", -1));
    };
    std::string x = run(), y; { As a(n, whole); y = run(); }
    check(x == y, "numbers in properties depend on the locale", cat(n, ": ", quote(y), " instead of ", quote(x)));
    c.nontrivial = f != (float) (int) f; c.tag("numbers");
}
static void sessions(Tape &t, Ctx &c, const std::string &n, bool whole) {
    Config k = config(t, 1, 4); if (t.chance(1, 3)) config_text(t, k);
    bool texts = t.chance(1, 3);
    Tape again = t; again.mirror = nullptr;
    Recorded a = record(t, k, 4, texts, true), b;
    c.note(cat(n, " session ", k.show(), ", ", a.steps.size(), " steps, ", a.c2s.size(), "+", a.s2c.size(), " bytes"));
    { As l(n, whole); b = record(again, k, 4, texts, true); }
    auto differ = [&](const std::string &x, const std::string &y) { size_t p = 0; while (p < x.size() && p < y.size() && x[p] == y[p]) p++; p = p > 30 ? p - 30 : 0; return cat(n, ": ", quote(y.substr(p, 120)), " instead of ", quote(x.substr(p, 120))); };
    check(a.c2s == b.c2s, "client sends something else in another locale", differ(a.c2s, b.c2s));
    check(a.s2c == b.s2c, "server sends something else in another locale", differ(a.s2c, b.s2c));
    // the same bytes, some with other spellings or letters of one of the locales in them, are understood alike
    size_t changes = 0;
    auto change = [&](std::string s) {
        if (t.flip()) for (size_t p = s.find("@@TRAX:"); p != std::string::npos; p = s.find("@@TRAX:", p + 1)) if (t.flip()) { for (size_t i = p + 7; i < s.size() && s[i] >= 'a' && s[i] <= 'z'; i++) if (t.chance(2, 3)) s[i] -= 32; changes++; }
        if (t.flip()) for (const char *w : {"image:", "rgb;", "gray8;", "gray16;", "image/png;", "image/jpeg;"}) { size_t p = s.find(w); if (p != std::string::npos && t.flip()) { for (size_t i = p + (w[1] == 'm' && w[5] == ':' ? 6 : 0); w[i - p] && i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; changes++; } }
        static const std::vector<std::string> letters{"\xe4", "\xfd", "\xdd", "\xc3\xa4", "\xc4\xb0", "\xc4\xb1", "i", "I", "\xb5", "\xaa"};
        for (size_t i = 0, m = t.below(3); i < m && !s.empty(); i++) { size_t p = t.flip() ? s.find('=', t.below(s.size())) : t.below(s.size()); if (p == std::string::npos) continue; s.insert(p, t.pick(letters)); changes++; }
        return s;
    };
    std::string c2s = change(a.c2s), s2c = change(a.s2c); size_t calls = a.steps.size() + 3;
    auto s0 = server_transcript(k, c2s, Frag(), calls); std::vector<Entry> s1; { As l(n, whole); s1 = server_transcript(k, c2s, Frag(), calls); }
    std::string d = first_difference(s0, s1); check(d.empty(), "server understands something else in another locale", n + ": " + d);
    auto c0 = client_transcript(a.steps, s2c, Frag()); std::vector<Entry> c1; { As l(n, whole); c1 = client_transcript(a.steps, s2c, Frag()); }
    d = first_difference(c0, c1); check(d.empty(), "client understands something else in another locale", n + ": " + d);
    c.nontrivial = changes > 0; c.tag("sessions"); if (changes) c.tag("sessions with other letters or spellings");
}
static void c37(Tape &t, Ctx &c) {
    std::string n = t.pick(names()); bool whole = t.chance(1, 3); load(n);
    switch (t.weighted({3, 2, 4})) { case 0: regions(t, c, n, whole); break; case 1: numbers(t, c, n, whole); break; default: sessions(t, c, n, whole); }
    c.tag(n.c_str());
}
static Register r37({"C37", "regions, numbers in properties and whole sessions written and read in the C locale and in one of five others (decimal comma, Arabic decimal sign, Latin-1 letters, Turkish case), every result compared; non-trivial with fractions, or with other letters or spellings in the session", c37, 20, true, 200, 8, {"the five locales stand for all"}});
