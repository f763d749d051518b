// The C++ classes: value semantics (C23) and sessions (C24).
#include "session.hpp"
#include "cppgen.hpp"
#include <memory>
#include <sstream>
#include <utility>
using namespace pbt;
using namespace gen;
using namespace cppgen;
using lnk::Channel;
using lnk::Frag;

// ------------------------------------------------------------------ the classes under test, one at a time
struct RegionKind {
    typedef trax::Region T; typedef ORegion M; static const char *name() { return "region"; }
    static M model(Tape &t) { if (t.chance(1, 8)) return {false, MRegion()}; return {true, region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL)}; }
    static T make(const M &m) { return m.first ? build(m.second) : T(); }
    static std::string show(const M &m) { return m.first ? gen::show(m.second) : "empty"; }
    static void check_same(const M &m, const T &r, const char *what) {
        check(r.empty() == !m.first, cat(what, ": emptiness of a region differs"), show(m));
        check((bool) r == m.first, cat(what, ": a region converts to the wrong truth value"), show(m));
        if (m.first) gen::same(m.second, look(r), what); else check(r.type() == TRAX_REGION_EMPTY, cat(what, ": empty region has a type"));
    }
    static void poke(const T &r) { (void) r.type(); (void) r.empty(); (void) r.bounds(); (void) r.contains(1, 1); (void) std::string(r); }
    static std::string mutate(Tape &t, T &r, M &m) {
        switch (t.weighted({3, 3, 4, 2, 1})) {
        case 0: { int k = (int) t.range(-5, 300); r.set(k); m.first = true; m.second = MRegion(); m.second.code = k; return cat("set(", k, ")"); }
        case 1: { MRegion q = rectangle(t); r.set(q.x, q.y, q.w, q.h); m = {true, q}; return "set rectangle"; }
        case 2: if (m.first && m.second.type == TRAX_REGION_POLYGON) { int i = (int) t.below(m.second.pts.size()); float x = coord(t), y = coord(t); r.set_polygon_point(i, x, y); m.second.pts[i] = {x, y}; return cat("set point ", i); } return "";
        case 3: {                                             // through text
            std::stringstream s; s << r; std::string text = r; if (m.first) check(s.str() == text + "\n", "text of a region differs between operators", quote(text)); else check(text.empty(), "empty region has text");
            if (!m.first) return "";
            // one region in every line, with any line ending, the last line possibly without one
            std::vector<M> all{m}; int n = (int) t.below(3);
            for (int i = 0; i < n; i++) all.push_back({true, rectangle(t)});
            std::stringstream u;
            for (size_t i = 0; i < all.size(); i++) {
                std::string line = i ? std::string(build(all[i].second)) : text;
                u << line; if (i + 1 < all.size() || t.chance(2, 3)) u << (t.chance(1, 2) ? "\n" : t.chance(1, 2) ? "\r\n" : "\r");
            }
            for (size_t i = 0; i < all.size(); i++) { T q = build(MRegion()); u >> q; check_same(all[i], q, "read back from a line"); }
            return cat("text of ", all.size(), " lines"); }
        default: {                                            // a conversion is a new object
            int k = t.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL});
            if (m.first && k == TRAX_REGION_MASK && m.second.type != TRAX_REGION_MASK) return "";       // could be huge
            T q = r.convert(k);
            if (!m.first) { check(q.empty(), "conversion of an empty region is not empty"); return ""; }
            trax_region *a = gen::make(m.second), *b = trax_region_convert(a, k);
            check(q.empty() == !b, "conversion differs from the C function");
            if (b) { gen::same(gen::observe(b), look(q), "conversion"); trax_region_release(&b); }
            trax_bounds w = trax_region_bounds(a); trax::Bounds g = r.bounds();
            check(w.left == g.left && w.right == g.right && w.top == g.top && w.bottom == g.bottom, "bounds differ from the C function", gen::show(m.second));
            float x = coord(t), y = coord(t); check(r.contains(x, y) == (trax_region_contains(a, x, y) != 0), "membership differs from the C function");
            trax_region_release(&a);
            if (!q.empty()) q.set(7);
            return "convert"; }
        }
    }
};
struct ImageKind {
    typedef trax::Image T; typedef MImage M; static const char *name() { return "image"; }
    static M model(Tape &t) { if (t.chance(1, 8)) return MImage(); return image(t, TRAX_IMAGE_ANY, false); }
    static T make(const M &m) { return m.type ? build(m) : T(); }
    static std::string show(const M &m) { return m.type ? gen::show(m) : "empty"; }
    static void check_same(const M &m, const T &i, const char *what) { MImage g = look(i); if (g.type == TRAX_IMAGE_EMPTY) g = MImage(); M w = m; if (w.type == TRAX_IMAGE_BUFFER) { if (g.type == TRAX_IMAGE_BUFFER) w.format = g.format; } gen::same(w, g, what); check((bool) i == (m.type != 0), cat(what, ": an image converts to the wrong truth value"), show(m)); }
    static void poke(const T &i) { (void) i.type(); (void) i.empty(); }
    static std::string mutate(Tape &, T &, M &) { return ""; }
};
static void count_keys(const char *, const char *, const void *o) { ++*(int *) o; }
struct PropertiesKind {
    typedef trax::Properties T; typedef MProps M; static const char *name() { return "properties"; }
    static M model(Tape &t) { return t.chance(1, 4) ? M() : props(t, 5, false, true); }
    static T make(const M &m) { T p; put(p, m); return p; }
    static std::string show(const M &m) { return gen::show(m); }
    static void check_same(const M &m, const T &p, const char *what) {
        gen::same(m, look(p), what);
        std::vector<std::string> v; p.to_vector(v); std::sort(v.begin(), v.end()); std::vector<std::string> w; for (auto &kv : m) w.push_back(kv.first); check(v == w, cat(what, ": list of keys differs"));
        if (!m.empty()) { auto it = m.begin(); check(p.get(it->first, "?") == it->second, cat(what, ": value differs")); }
        check(p.get("no such key", "default") == "default" && p.get("no such key", 42) == 42 && p.get("no such key", true), cat(what, ": default differs"));
    }
    static void poke(const T &p) { (void) p.size(); M m; p.to_map(m); (void) p.get("a", 3); }
    static std::string mutate(Tape &t, T &p, M &m) {
        std::string k = !m.empty() && t.flip() ? std::next(m.begin(), t.below(m.size()))->first : key(t);
        switch (t.weighted({5, 2, 1, 2, 1, 1})) {
        case 0: { std::string v = text(t, false); p.set(k, v); m[k] = v; return "set " + quote(k, 30); }
        case 1: { int v = (int) t.range(-100000, 100000); p.set(k, v); m[k] = cat(v); check(p.get(k, 1234567) == v, "integer is not read back"); check(p.get(k, v == 0) == (v != 0), "boolean is not read back"); return "set integer"; }
        case 2: { float v = (float) t.range(-1000, 1000) / 16.f; p.set(k, v); char b[64]; snprintf(b, sizeof b, "%f", v); m[k] = p.get(k, "missing"); check(std::fabs(p.get(k, -77.5f) - v) < 1e-5 && std::fabs(p.get(k, -77.5) - v) < 1e-5, "float is not read back"); return "set float"; }
        case 3: p.clear(); m.clear(); return "clear";
        case 4: { M q = props(t, 3, false, true); p.from_map(q); for (auto &kv : q) m[kv.first] = kv.second; return "from map"; }
        default: { int n = 0; p.enumerate(count_keys, &n); check(n == (int) m.size(), "enumeration misses or repeats keys", cat(n, " of ", m.size())); std::ostringstream s; s << p; size_t len = 0; for (auto &kv : m) len += kv.first.size() + kv.second.size() + 2; check(s.str().size() == len, "printed property set has the wrong length"); return "enumerate"; }
        }
    }
};
struct ImageListKind {
    typedef trax::ImageList T; typedef MImages M; static const char *name() { return "image list"; }
    static M model(Tape &t) { return t.chance(1, 4) ? MImages(3) : images(t, (int) t.below(8), TRAX_IMAGE_ANY, false); }
    static T make(const M &m) { return build(m); }
    static std::string show(const M &m) { std::string s; for (auto &i : m) s += i.type ? gen::show(i) + " " : "- "; return s; }
    static void check_same(const M &m, const T &l, const char *what) { M w = m, g = look(l); for (int i = 0; i < 3; i++) if (w[i].type == TRAX_IMAGE_BUFFER && g[i].type == TRAX_IMAGE_BUFFER) w[i].format = g[i].format; gen::same(w, g, what); }
    static void poke(const T &l) { (void) l.size(); (void) l.get(TRAX_CHANNEL_COLOR).type(); (void) l.has(TRAX_CHANNEL_IR); }
    static std::string mutate(Tape &t, T &l, M &m) {
        int i = (int) t.below(3);
        if (t.chance(1, 6)) { l.set(trax::Image(), CHANNEL_IDS[i]); m[i] = MImage(); return "unset"; }
        if (t.chance(1, 6)) { int j = (int) t.below(3); l.set(l.get(CHANNEL_IDS[j]), CHANNEL_IDS[i]); m[i] = m[j]; return "copy channel"; }
        MImage x = image(t, TRAX_IMAGE_ANY, false); trax::Image im = build(x); l.set(im, CHANNEL_IDS[i]); m[i] = x; im = trax::Image::create_path("other"); return cat("set channel ", i);
    }
};
struct ObjectListKind {
    typedef trax::ObjectList T; typedef std::vector<ORegion> M; static const char *name() { return "object list"; }
    static M model(Tape &t) { M m(t.chance(1, 6) ? 0 : 1 + t.below(5)); for (auto &x : m) x = {true, region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL)}; return m; }
    static T make(const M &m) { if (m.empty()) return T(); T l((int) m.size()); for (size_t i = 0; i < m.size(); i++) l.set((int) i, build(m[i].second)); return l; }
    static std::string show(const M &m) { return cat(m.size(), " regions"); }
    static void check_same(const M &m, const T &l, const char *what) {
        check(l.size() == (int) m.size(), cat(what, ": size of an object list differs"), cat(l.size(), " != ", m.size()));
        for (size_t i = 0; i < m.size(); i++) { RegionKind::check_same(m[i], l.get((int) i), what); check(l.properties((int) i).size() == 0, cat(what, ": object got properties")); }
    }
    static void poke(const T &l) { (void) l.size(); }
    static std::string mutate(Tape &t, T &l, M &m) {
        if (m.empty()) return "";
        int i = (int) t.below(m.size());
        switch (t.below(4)) {
        case 0: { trax::Region r = l.get(i); r.set(99); r.set(1, 2, 3, 4); return "change what was taken out"; }
        case 1: { trax::Properties p = l.properties(i); p.set("k", "v"); return "change properties that were taken out"; }
        case 2: { int j = (int) t.below(m.size()); l.set(i, l.get(j)); m[i] = m[j]; return "copy entry"; }
        default: { MRegion x = region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL); trax::Region r = build(x); l.set(i, r); r.set(5); r.set(5, 6, 7, 8); m[i] = {true, x}; return cat("set entry ", i); }
        }
    }
};
struct MMeta { int r, i, c; std::string name, desc, family; MProps custom; };
struct MetadataKind {
    typedef trax::Metadata T; typedef MMeta M; static const char *name() { return "metadata"; }
    static M model(Tape &t) { M m; m.r = (int) t.below(16); m.i = (int) t.below(16); m.c = 1 + (int) t.below(7); m.name = text(t, false); m.desc = text(t, false); m.family = text(t, false); m.custom = props(t, 3, false); return m; }
    static T make(const M &m) { T x(m.r, m.i, m.c, m.name, m.desc, m.family, 0); for (auto &kv : m.custom) x.set_custom(kv.first, kv.second); return x; }
    static std::string show(const M &m) { return cat(m.r, " ", m.i, " ", m.c, " ", quote(m.name, 30)); }
    static void check_same(const M &m, const T &x, const char *what) {
        check(x.region_formats() == m.r && x.image_formats() == m.i && x.channels() == m.c, cat(what, ": formats differ"));
        check(x.tracker_name() == m.name && x.tracker_description() == m.desc && x.tracker_family() == m.family, cat(what, ": texts differ"));
        for (auto &kv : m.custom) check(x.get_custom(kv.first) == kv.second, cat(what, ": custom property differs"), quote(kv.first));
        check(x.get_custom("no such key").empty(), cat(what, ": custom property from nowhere"));
    }
    static void poke(const T &x) { (void) x.channels(); (void) x.tracker_name(); (void) x.get_custom("a"); }
    static std::string mutate(Tape &, T &, M &) { return ""; }
};

template <class T> static T pass(T x) { return x; }

// a pool of objects, each next to the value it must show; after every operation everything is compared
template <class K> static void values(Tape &t, Ctx &c) {
    typedef typename K::T T; typedef typename K::M M;
    struct Slot { std::unique_ptr<T> p; M m; bool known = false; };
    const int N = 4;
    std::vector<Slot> pool(N);
    size_t steps = 4 + t.below(44), shared = 0, changes = 0;
    std::string trace;
    for (size_t s = 0; s < steps; s++) {
        int i = (int) t.below(N), j = (int) t.below(N);
        Slot &a = pool[i], &b = pool[j];
        std::string op;
        switch (t.weighted({3, 3, 3, 2, 2, 6, 1, 1, 2, 1, 1, 1})) {
        case 0: a.m = K::model(t); a.p.reset(); a.p.reset(new T(K::make(a.m))); a.known = true; op = cat("new ", i, " = ", K::show(a.m)); break;
        case 1: if (b.p && i != j) { a.p.reset(new T(*b.p)); a.m = b.m; a.known = b.known; shared++; op = cat("copy ", i, " <- ", j); } break;
        case 2: if (a.p && b.p) { *a.p = *b.p; if (i != j) { a.m = b.m; a.known = b.known; shared++; } op = cat("assign ", i, " = ", j); } break;
        case 3: if (b.p && i != j) { a.p.reset(new T(std::move(*b.p))); a.m = b.m; a.known = b.known; b.known = false; op = cat("move construct ", i, " <- ", j); } break;
        case 4: if (a.p && b.p) { T &self = *b.p; *a.p = std::move(self); if (i != j) { a.m = b.m; a.known = b.known; } b.known = false; op = cat("move assign ", i, " = ", j); } break;
        case 5: if (a.p && a.known) { op = K::mutate(t, *a.p, a.m); if (!op.empty()) { op = cat(op, " on ", i); changes++; } } break;
        case 6: a.p.reset(); op = cat("destroy ", i); break;
        case 7: if (a.p && b.p && i != j) { std::swap(*a.p, *b.p); std::swap(a.m, b.m); std::swap(a.known, b.known); op = cat("swap ", i, " ", j); } break;
        case 8: if (b.p && b.known) {
            size_t n = 1 + t.below(4); std::vector<T> v; for (size_t k = 0; k < n; k++) v.push_back(*b.p);
            std::vector<T> w = v; v.erase(v.begin()); w.insert(w.begin(), T(*b.p));
            M m = b.m; size_t k = t.below(w.size()); K::mutate(t, w[k], m); K::check_same(m, w[k], "changed element of a container");
            for (size_t x = 0; x < w.size(); x++) if (x != k) K::check_same(b.m, w[x], "element of a container");
            for (auto &x : v) K::check_same(b.m, x, "element of a container");
            if (t.flip() && a.p) { *a.p = w[k]; a.m = m; a.known = true; }
            shared++; op = cat("container of ", j); } break;
        case 9: if (b.p && b.known) { if (a.p) { *a.p = pass(*b.p); } else a.p.reset(new T(pass(*b.p))); a.m = b.m; a.known = true; op = cat("pass ", j, " to ", i); } break;
        case 10: if (a.p) { a.m = K::model(t); *a.p = K::make(a.m); a.known = true; op = cat("replace ", i, " = ", K::show(a.m)); } break;
        default: a.p.reset(new T()); a.known = false; { T d; K::poke(d); *a.p = d; } op = cat("default ", i); break;
        }
        if (op.empty()) continue;
        if (trace.size() < 900) trace += op + "; ";
        for (int k = 0; k < N; k++) if (pool[k].p) { if (pool[k].known) { try { K::check_same(pool[k].m, *pool[k].p, "object"); } catch (Failure &f) { f.detail = cat("object ", k, ": ", f.detail, " after ", trace); throw; } } else K::poke(*pool[k].p); }
    }
    // release in a drawn order
    for (int k = 0; k < N; k++) { int i = (int) t.below(N); pool[i].p.reset(); for (int q = 0; q < N; q++) if (pool[q].p && pool[q].known) K::check_same(pool[q].m, *pool[q].p, "object after another was destroyed"); }
    c.note(cat(K::name(), ": ", trace)); c.tag(K::name()); c.nontrivial = shared > 0 && steps > 3; if (changes && shared) c.tag("changed while shared");
}
static void c23(Tape &t, Ctx &c) {
    switch (t.weighted({5, 2, 4, 3, 4, 2})) {
    case 0: values<RegionKind>(t, c); break;
    case 1: values<ImageKind>(t, c); break;
    case 2: values<PropertiesKind>(t, c); break;
    case 3: values<ImageListKind>(t, c); break;
    case 4: values<ObjectListKind>(t, c); break;
    default: values<MetadataKind>(t, c); break;
    }
}
static Register r23({"C23", "a sequence of up to 52 constructions, copies, moves, assignments (also to itself), swaps, containers, changes and destructions over four objects of one class, all compared with plain values after each step; non-trivial when something was shared", c23, 20, true, 200, 8,
    {"pixel rows obtained for writing are only used while the image or mask has a single owner", "metadata is only changed right after it was made"}});

// ================================================================== C24
// One side or both through the C++ classes, the other through the C interface.
using ses::Config; using ses::Step; using ses::Request; using ses::Reply;
struct Env { const char *k; Env(const char *key, int v) : k(key) { setenv(k, std::to_string(v).c_str(), 1); } ~Env() { unsetenv(k); } };
static MProps merged(const MProps &first, const MProps &second) { MProps m = first; for (auto &kv : second) m.insert(kv); return m; }
static void strip(MObjects &o) { for (auto &x : o) x.p.clear(); }

static void c24(Tape &t, Ctx &c) {
    if (t.chance(1, 20)) {       // not connected
        lnk::init(); Channel in, out; in.closed = true; if (t.flip()) in.bytes = text(t, false) + (t.flip() ? "\n@@TRAX:quit\n" : "");
        trax::Client k(lnk::reader(&in), lnk::writer(&out), trax::Logging());
        trax::Region r = t.flip() ? trax::Region() : build(region(t, TRAX_REGION_ANY)); trax::Properties p; trax::ObjectList o = t.flip() ? trax::ObjectList() : trax::ObjectList(2); trax::ImageList im; int v = 0;
        check(!k.is_alive(), "client without a connection is alive");
        check(k.wait(r, p) == TRAX_ERROR && k.wait(o, p) == TRAX_ERROR && k.initialize(im, r, p) == TRAX_ERROR && k.initialize(im, o, p) == TRAX_ERROR && k.frame(im, p) == TRAX_ERROR && k.frame(im, o, p) == TRAX_ERROR, "call without a connection does not fail");
        check(!k.terminate("x") && !k.terminate(), "terminating without a connection succeeds");
        check(k.get_parameter(TRAX_PARAMETER_VERSION, &v) != 1 && k.set_parameter(0, 1) != 1, "parameter without a connection");
        (void) k.metadata(); check(k.get_error().empty() || !k.get_error().empty(), "");
        c.note("not connected"); c.tag("not connected"); return;
    }
    Config k = ses::config(t, 3, 4); bool v4 = k.version == 4;
    if (t.chance(1, 2)) { ses::config_text(t, k); k.has_name = !k.name.empty(); k.has_desc = !k.desc.empty(); k.has_family = !k.family.empty(); }
    bool cpp_s = t.chance(2, 3), cpp_c = !cpp_s || t.chance(2, 3);
    ses::Session s(t, k, t.chance(1, 4)); s.log_s = s.log_c = false;
    std::unique_ptr<trax::ServerMOT> mot; std::unique_ptr<trax::ServerSOT> sot; std::unique_ptr<trax::Client> cli;
    std::string slog, clog; bool logged = t.chance(1, 3);
    if (cpp_s) {
        trax::Metadata m(k.regions, k.images, k.channels, k.name, k.desc, k.family, k.multi ? TRAX_METADATA_MULTI_OBJECT : 0);
        for (auto &kv : k.custom) m.set_custom(kv.first, kv.second);
        Env a("TRAX_IN", lnk::reader(&s.c2s)), b("TRAX_OUT", lnk::writer(&s.s2c));
        trax::Logging log(logged ? ses::log_bytes : NULL, &slog, 0);
        if (v4) mot.reset(new trax::ServerMOT(m, log)); else sot.reset(new trax::ServerSOT(m, log));
    } else s.start_server();
    trax::Handle *server = cpp_s ? (v4 ? (trax::Handle *) mot.get() : (trax::Handle *) sot.get()) : nullptr;
    if (cpp_c) cli.reset(new trax::Client(lnk::reader(&s.s2c), lnk::writer(&s.c2s), trax::Logging(logged ? ses::log_bytes : NULL, &clog, 0)));
    else s.start_client();
    if (cpp_c) {
        check(cli->is_alive(), "client refused a valid hello message");
        const trax::Metadata m = cli->metadata(); int v = 0;
        check(cli->get_parameter(TRAX_PARAMETER_VERSION, &v) == 1 && v == k.version, "version differs", cat(v));
        check(cli->get_parameter(TRAX_PARAMETER_MULTIOBJECT, &v) == 1 && (v != 0) == k.multi, "multi-object support differs");
        check((m.region_formats() & TRAX_REGION_ANY) == k.regions && m.image_formats() == k.images && m.channels() == k.channels, "formats differ", cat(m.region_formats(), " ", m.image_formats(), " ", m.channels()));
        check(m.tracker_name() == k.name && m.tracker_description() == k.desc && m.tracker_family() == k.family, "texts of the metadata differ");
        for (auto &kv : k.custom) check(m.get_custom(kv.first) == kv.second, "custom property of the metadata differs", quote(kv.first));
    } else {
        trax_metadata *m = s.cli->metadata;
        check((m->format_region & TRAX_REGION_ANY) == k.regions && m->format_image == k.images && m->channels == k.channels && ((m->flags & TRAX_METADATA_MULTI_OBJECT) != 0) == k.multi, "formats differ");
        check(k.name == (m->tracker_name ? m->tracker_name : "") && k.desc == (m->tracker_description ? m->tracker_description : "") && k.family == (m->tracker_family ? m->tracker_family : ""), "texts of the metadata differ");
        gen::same(k.custom, gen::observe(m->custom), "metadata");
    }
    if (cpp_s) check(server->is_alive(), "server is not alive");
    c.note(cat(k.show(), cpp_s ? " C++ server" : " C server", cpp_c ? " C++ client" : " C client"));
    trax::ImageList keep_images; trax::Region keep_region; trax::ObjectList keep_objects;      // reused from one wait to the next
    size_t n = 1 + t.below(5), single = 0, listed = 0;
    for (size_t i = 0; i < n; i++) {
        Step x = ses::step(t, k, s.objects, false);
        bool as_region = x.ob.size() == 1 && t.flip();
        if (cpp_c) strip(x.ob);
        c.note(ses::show(x));
        // a call that must be refused
        if (cpp_c && t.chance(1, 8)) {
            MObjects many(2); trax::ImageList none; trax::Properties p;
            if (!k.multi) { check(cli->initialize(build(x.im), build(many), p) == TRAX_ERROR, "too many objects accepted"); check(!cli->get_error().empty(), "error without a message"); }
            check(cli->initialize(build(x.im), trax::ObjectList(), p) == TRAX_ERROR, "initialization without objects accepted"); check(!cli->get_error().empty(), "error without a message");
            check(cli->initialize(none, build(rectangle(t)), p) == TRAX_ERROR, "initialization without images accepted"); check(!cli->get_error().empty(), "error without a message");
            c.tag("refused calls");
        }
        int r;
        if (cpp_c) {
            trax::Properties p; put(p, x.p); trax::ImageList im = build(x.im);
            if (x.init) r = as_region ? cli->initialize(im, build(x.ob[0].r), p) : cli->initialize(im, build(x.ob), p);
            else if (x.ob.empty()) r = t.chance(1, 3) ? cli->frame(im, trax::ObjectList(), p) : cli->frame(im, p);
            else r = cli->frame(im, build(x.ob), p);
            check(r == TRAX_OK, "client request refused", cat(r, " ", cli->get_error())); check(cli->get_error().empty(), "successful call leaves an error message");
            gen::same(x.p, look(p), "properties of the caller");
        } else { r = s.request(x); check(r == TRAX_OK, "client request refused", s.err(s.cli)); }
        s.account(x);
        Request want = s.expected(x);
        std::vector<trax::Region> taken;
        if (cpp_s) {
            bool kept = t.flip(), region_call = !v4 || (x.ob.size() <= 1 ? t.flip() : t.chance(1, 4)), too_many = region_call && x.ob.size() > 1;
            trax::ImageList fresh_i; trax::Region fresh_r; trax::ObjectList fresh_o; trax::Properties p;
            trax::ImageList &im = kept ? keep_images : fresh_i; trax::Region &rg = kept ? keep_region : fresh_r; trax::ObjectList &ob = kept ? keep_objects : fresh_o;
            r = !v4 ? sot->wait(im, rg, p) : region_call ? mot->wait(im, rg, p) : mot->wait(im, ob, p);
            if (too_many) {
                check(r == TRAX_ERROR, "several objects delivered as one region", cat("result ", r)); check(server->is_alive(), "server ended"); c.tag("several objects in a region call");
            } else check(r == want.kind, "server saw a different kind of request", cat("wanted ", want.kind, ", got ", r, " ", server->get_error()));
            gen::same(want.im, look(im), "request");
            if (too_many) {}
            else if (region_call) {
                single++;
                if (!want.ob.empty()) { check(!rg.empty(), "server got no region"); gen::same(want.ob[0].r, look(rg), "request"); }
                gen::same(want.ob.empty() ? want.p : merged(want.p, want.ob[0].p), look(p), "request");
            } else {
                listed++;
                if (!want.ob.empty()) gen::same(want.ob, look(ob), "request");
                gen::same(want.p, look(p), "request");
            }
            // the answer
            bool reply_region = !v4 || (s.objects == 1 && t.flip());
            if (reply_region) { trax::Properties q; put(q, x.answer[0].p); r = v4 ? mot->reply(build(x.answer[0].r), q) : sot->reply(build(x.answer[0].r), q); gen::same(x.answer[0].p, look(q), "properties of the replier"); }
            else {
                if (t.chance(1, 6)) { check(mot->reply(trax::ObjectList(s.objects + 1)) == TRAX_ERROR && !mot->get_error().empty(), "wrong number of states accepted"); if (s.objects > 1) check(mot->reply(build(rectangle(t)), trax::Properties()) == TRAX_ERROR, "wrong number of states accepted"); check(mot->reply(trax::ObjectList()) == TRAX_ERROR, "empty reply accepted"); }
                strip(x.answer); r = mot->reply(build(x.answer)); }
            check(r == TRAX_OK, "server reply refused", server->get_error());
        } else { Request q = s.serve(); ses::Session::compare(want, q, s.err(s.srv)); r = s.answer(x.answer); check(r == TRAX_OK, "server reply refused", s.err(s.srv)); }
        if (cpp_c) {
            trax::Properties p; trax::ObjectList ol; trax::Region rg;
            if (s.objects > 1 && t.chance(1, 4)) { r = cli->wait(rg, p); check(r == TRAX_ERROR, "several states delivered as one region", cat("result ", r)); check(cli->is_alive(), "client ended"); check(rg.empty(), "region of a failed wait"); c.tag("several objects in a region call"); }
            else if (s.objects == 1 && t.flip()) { trax::Region &to = t.flip() ? keep_region : rg; r = cli->wait(to, p); check(r == TRAX_STATE, "client did not get the state", cat(r, " ", cli->get_error())); check(!to.empty(), "client got no region"); gen::same(x.answer[0].r, look(to), "state"); gen::same(x.answer[0].p, look(p), "state"); single++; }
            else { trax::ObjectList &to = t.flip() ? keep_objects : ol; r = cli->wait(to, p); check(r == TRAX_STATE, "client did not get the state", cat(r, " ", cli->get_error())); gen::same(x.answer, look(to), "state"); gen::same(MProps(), look(p), "state message"); listed++; }
        } else s.compare_reply(x.answer, s.receive());
        check(!lnk::st().blocked, "an endpoint waits for more than was sent");
    }
    // the end
    std::string reason = text(t, false);
    trax::Properties p; trax::ImageList im; trax::Region rg; trax::ObjectList ol;
    if (t.flip()) {              // by the client
        if (cpp_c) { check(cli->terminate(reason), "terminate failed"); check(!cli->is_alive(), "alive after terminate"); check(cli->frame(im, p) == TRAX_ERROR, "frame after termination"); } else trax_terminate(s.cli, reason.c_str());
        if (cpp_s) { int r = !v4 ? sot->wait(im, rg, p) : t.flip() ? mot->wait(im, rg, p) : mot->wait(im, ol, p); check(r == TRAX_QUIT, "server did not see the termination", cat(r)); check(!server->is_alive(), "server alive after quit"); }
        else { Request q = s.serve(); check(q.kind == TRAX_QUIT, "server did not see the termination"); }
    } else {
        if (cpp_s) { check(server->terminate(reason), "terminate failed"); check(!server->is_alive(), "alive after terminate"); } else trax_terminate(s.srv, reason.c_str());
        if (cpp_c) { int r = t.flip() && s.objects == 1 ? cli->wait(rg, p) : cli->wait(ol, p); check(r == TRAX_QUIT, "client did not see the termination", cat(r)); gen::same(MProps{{"trax.reason", reason}}, look(p), "quit"); check(!cli->is_alive(), "client alive after quit"); }
        else { Reply r = s.receive(); check(r.kind == TRAX_QUIT, "client did not see the termination"); gen::same(MProps{{"trax.reason", reason}}, r.p, "quit"); }
    }
    if (t.flip()) { cli.reset(); mot.reset(); sot.reset(); } else { mot.reset(); sot.reset(); cli.reset(); }
    if (logged) { if (cpp_s) check(slog.size() == s.c2s.rpos + s.s2c.bytes.size() || slog.size() <= s.c2s.bytes.size() + s.s2c.bytes.size(), "server log longer than the exchange"); if (cpp_c && s.c2s.bytes.size()) check(clog.find("@@TRAX:") != std::string::npos, "client log is empty"); }
    c.nontrivial = true; if (single) c.tag("region calls"); if (listed) c.tag("object list calls"); c.tag(v4 ? "version 4" : "version 3");
}
static Register r24({"C24", "a session of up to 5 requests with the C++ classes on one or both sides and the C interface on the other, region and object-list calls mixed, received objects reused or fresh; non-trivial when connected", c24, 20, true, 200, 8,
    {"both endpoints run in one thread over an in-memory link that never fails a write", "a property set is empty when it is handed to a wait call"}});
