// Sessions and objects used from several threads at once (C38). Built with ThreadSanitizer.
#include "cppgen.hpp"
#include <atomic>
#include <thread>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <poll.h>
#include <netinet/in.h>
using namespace pbt;
using namespace gen;

extern "C" const char *__tsan_default_options() { return "exitcode=98:halt_on_error=1:report_signal_unsafe=0:history_size=3:second_deadlock_stack=0"; }

static Tape branch(uint64_t seed) { Tape t; t.generating = true; t.state = seed * 0x9E3779B97F4A7C15ull + 17; return t; }
static std::string seen(const MRegion &m) { std::string s = show(m); for (auto &p : m.pts) s += cat(" ", p.first, ",", p.second); s += cat(" ", m.x, " ", m.y, " ", m.w, " ", m.h, " ", m.mx, " ", m.my); for (char b : m.bits) s += (char) ('0' + b); return s; }
static std::string seen(const MProps &m) { std::string s; for (auto &kv : m) s += kv.first + "=" + kv.second + "|"; return s; }
static std::string seen(const MImages &m) { std::string s; for (auto &i : m) s += cat(i.type, " ", i.w, "x", i.h, " ", i.format, " ") + i.s + "|"; return s; }
static std::string seen(const MObjects &m) { std::string s; for (auto &o : m) s += seen(o.r) + seen(o.p) + "|"; return s; }
static std::string seen(const trax_bounds &b) { return cat(b.left, " ", b.top, " ", b.right, " ", b.bottom); }
static std::string take(char *s) { std::string r = s ? s : "(nothing)"; free(s); return r; }
// a region whose pixels stay near the origin
static MRegion small_region(Tape &t, int types = TRAX_REGION_ANY | TRAX_REGION_SPECIAL) {
    MRegion r = region(t, types); auto near_ = [](float v) { return std::fmod(v, 60.f); };
    r.x = near_(r.x); r.y = near_(r.y); r.w = near_(r.w); r.h = near_(r.h); r.mx %= 60; r.my %= 60; for (auto &p : r.pts) p = {near_(p.first), near_(p.second)};
    return r;
}
static std::string ask(const trax_region *r, const trax_region *o, Tape &t) {
    switch (t.below(6)) {
    case 0: return take(trax_region_encode(r));
    case 1: { float x = coord(t), y = coord(t); return cat("c", trax_region_contains(r, x, y)); }
    case 2: return seen(trax_region_bounds(r));
    case 3: return cat("o", trax_region_overlap(r, o, t.flip() ? trax_no_bounds : trax_bounds{0, 0, 50, 50}));
    case 4: { static const int k[] = {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL}; trax_region *n = trax_region_convert(r, k[t.below(4)]); std::string s = n ? seen(observe(n)) : "(none)"; if (n) trax_region_release(&n); return s; }
    default: { trax_region *n = trax_region_clone(r); std::string s = seen(observe(n)); trax_region_release(&n); return s; }
    }
}
static std::string regions(Tape &t) {
    MRegion m = small_region(t), q = small_region(t); trax_region *a = make(m), *b = make(q); std::string s;
    for (size_t i = 0, n = 1 + t.below(4); i < n; i++) s += ask(a, b, t) + "\n";
    std::string text = take(trax_region_encode(a)); if (t.flip() && !text.empty()) text[t.below(text.size())] = (char) (32 + t.below(90));
    trax_region *d = trax_region_decode(text.c_str()); s += d ? seen(observe(d)) : "(none)"; if (d) trax_region_release(&d);
    trax_region_release(&a); trax_region_release(&b); return s;
}
static std::string properties(Tape &t) {
    Props p(props(t, 6, false)); std::string s;
    for (size_t i = 0, n = t.below(6); i < n; i++) {
        std::string k = key(t);
        switch (t.below(5)) { case 0: trax_properties_set_float(p.p, k.c_str(), coord(t) / 3); break; case 1: trax_properties_set_int(p.p, k.c_str(), (int) t.range(-1000000, 1000000)); break; case 2: { Props o(props(t, 3, false)); trax_properties_append(o.p, p.p, t.flip()); break; }
        case 3: s += cat(trax_properties_get_float(p.p, k.c_str(), 1), " ", trax_properties_get_int(p.p, k.c_str(), 2)); break; default: s += take(trax_properties_get(p.p, k.c_str())); }
    }
    return s + seen(observe(p.p));
}
static std::string wrapped(Tape &t) {
    MRegion m = small_region(t); trax::Region a = cppgen::build(m), b = a, c; c = t.flip() ? b.convert(TRAX_REGION_MASK) : b; std::ostringstream o; o << a << " " << b << " ";
    std::istringstream i(o.str()); trax::Region d; i >> d;
    trax::ImageList l = cppgen::build(images(t, TRAX_CHANNEL_COLOR | TRAX_CHANNEL_DEPTH, TRAX_IMAGE_ANY, false)), l2 = l;
    trax::ObjectList ol((int) t.below(4)); for (int k = 0; k < ol.size(); k++) { ol.set(k, a); ol.properties(k).set("k", k); } trax::ObjectList ol2 = ol;
    trax::Properties p; cppgen::put(p, props(t, 4, false)); p.set("f", 0.5f); p.set("b", t.flip()); trax::Properties q(p); q.set("f", 2);
    return o.str() + (d.empty() ? "(none)" : seen(cppgen::look(d))) + (c.empty() ? "(none)" : cat(c.type())) + seen(cppgen::look(l2)) + seen(cppgen::look(ol2)) + seen(cppgen::look(p)) + seen(cppgen::look(q)) + cat(a.overlap(b));
}

// ------------------------------------------------------------------ sessions
struct Log { std::string s; static void add(const char *m, int n, void *o) { Log *l = (Log *) o; if (m) l->s.append(m, n); } };
// what a session does, drawn in advance so that both ends know it
struct Step { int kind; MImages im; MObjects ob, reply; MProps p, rp; };       // 0 initialize, 1 frame, 2 a call that is refused
struct Plan { int version, formats, channels; bool stop_server, cpp, net; std::string name, reason; std::vector<Step> steps; MProps last; };
static Plan plan(Tape &t) {
    Plan k; k.version = 1 + (int) t.below(4); k.channels = k.version > 1 && t.flip() ? TRAX_CHANNEL_COLOR | TRAX_CHANNEL_IR : TRAX_CHANNEL_COLOR; k.stop_server = t.flip(); k.name = "t" + key(t); k.cpp = t.chance(1, 4); k.net = t.chance(1, 4);
    if (t.flip()) k.reason = "because " + key(t);
    size_t objects = 0;
    for (size_t i = 0, n = 1 + t.below(4); i < n; i++) {
        Step s; s.kind = i == 0 ? 0 : (int) t.below(3); if (s.kind == 2 && k.cpp) s.kind = 1;
        s.im = images(t, k.channels, TRAX_IMAGE_ANY, t.chance(1, 6)); s.p = props(t, 4, false);
        if (s.kind == 0) { objects = k.version == 4 && !k.cpp ? 1 + t.below(3) : 1; for (size_t j = 0; j < objects; j++) s.ob.push_back({small_region(t, TRAX_REGION_ANY), MProps()}); }
        for (size_t j = 0; j < objects; j++) s.reply.push_back({small_region(t, TRAX_REGION_ANY), k.cpp ? MProps() : props(t, 3, false)});
        k.steps.push_back(s);
    }
    return k;
}
static std::string error_of(trax_handle *h) { const char *e = trax_get_error(h); return e ? e : "(none)"; }
static std::string server_side(const Plan &k, int in, int out) {
    Log log; trax_metadata *m = trax_metadata_create(TRAX_REGION_ANY, TRAX_IMAGE_ANY, k.channels, k.name.c_str(), NULL, NULL, k.version == 4 && !k.cpp ? TRAX_METADATA_MULTI_OBJECT : 0);
    trax_handle *h = trax_server_setup_file_v(m, in, out, trax_logger_setup(Log::add, &log, 0), k.version); trax_metadata_release(&m);
    if (!h) return "no server";
    std::string s; size_t i = 0;
    while (true) {
        while (i < k.steps.size() && k.steps[i].kind == 2) i++;
        if (i == k.steps.size() && k.stop_server) break;
        trax_image_list *im = NULL; trax_object_list *ob = NULL; trax_region *r = NULL; Props p; int w;
        if (k.version == 4 && !k.cpp) w = trax_server_wait_mot(h, &im, &ob, p.p); else w = trax_server_wait_sot(h, &im, &r, p.p);
        Images own_im(im); Objects own_ob(ob);
        s += cat("wait ", w, " ") + seen(observe(p.p)); if (im) s += seen(observe(im)); if (ob) s += seen(observe(ob)); if (r) { s += seen(observe(r)); trax_region_release(&r); }
        if (w != TRAX_INITIALIZE && w != TRAX_FRAME) { s += error_of(h); break; }
        if (i >= k.steps.size()) { s += "too many requests"; break; }
        const Step &st = k.steps[i]; int a;
        if (k.version == 4 && !k.cpp) { Objects o(st.reply); a = trax_server_reply_mot(h, o.l); }
        else { trax_region *q = make(st.reply[0].r); Props rp(st.reply[0].p); a = trax_server_reply_sot(h, q, rp.p); trax_region_release(&q); }
        s += cat(" reply ", a, "\n"); i++;
    }
    if (k.stop_server) s += cat("stop ", trax_terminate(h, k.reason.empty() ? NULL : k.reason.c_str()));
    trax_cleanup(&h); return s + "\nlog " + log.s;
}
static std::string client_side(const Plan &k, int in, int out, int listening) {
    Log log; trax_logging lg = trax_logger_setup(Log::add, &log, 0);
    if (k.cpp) {
        std::string s; trax::Client c(in, out, trax::Logging(Log::add, &log));
        for (auto &st : k.steps) {
            trax::ImageList im = cppgen::build(st.im); trax::Properties p; cppgen::put(p, st.p); int a;
            trax::ObjectList ob(st.kind == 0 ? 1 : 0); if (st.kind == 0) ob.set(0, cppgen::build(st.ob[0].r));
            a = st.kind == 0 ? c.initialize(im, ob, p) : c.frame(im, ob, p); trax::ObjectList got; trax::Properties q; int w = c.wait(got, q);
            s += cat("call ", a, " wait ", w, " ") + seen(cppgen::look(q)) + (got.size() ? seen(cppgen::look(got.get(0))) : "") + "\n";
        }
        if (k.stop_server) { trax::ObjectList got; trax::Properties q; s += cat("end ", c.wait(got, q)); } else s += cat("stop ", c.terminate(k.reason));
        return s + "\nlog " + log.s;
    }
    trax_handle *h = k.net ? trax_client_setup_socket(listening, 10, lg) : trax_client_setup_file(in, out, lg);
    if (!h) return "no client";
    std::string s = h->metadata ? cat(h->metadata->tracker_name ? h->metadata->tracker_name : "", " ", h->metadata->channels, " ", h->version, "\n") : std::string();
    for (auto &st : k.steps) {
        Images im(st.im); Props p(st.p); int a;
        if (st.kind == 2) { MImages none(3); Images no(none); a = trax_client_frame(h, no.l, NULL, p.p); s += cat("refused ", a, " ") + error_of(h) + "\n"; continue; }
        if (st.kind == 0) { Objects o(st.ob); a = trax_client_initialize(h, im.l, o.l, p.p); } else a = trax_client_frame(h, im.l, NULL, p.p);
        trax_object_list *ob = NULL; Props q; int w = trax_client_wait(h, &ob, q.p); Objects own(ob);
        s += cat("call ", a, " wait ", w, " ") + seen(observe(q.p)); if (ob) s += seen(observe(ob)); s += "\n";
    }
    if (k.stop_server) { trax_object_list *ob = NULL; Props q; s += cat("end ", trax_client_wait(h, &ob, q.p), " ") + seen(observe(q.p)) + error_of(h); if (ob) trax_object_list_release(&ob); }
    else s += cat("stop ", trax_terminate(h, k.reason.empty() ? NULL : k.reason.c_str()));
    trax_cleanup(&h); return s + "\nlog " + log.s;
}

// ------------------------------------------------------------------ threads
struct Shared { trax_region *a, *b; trax_properties *p; trax_image_list *im; trax_object_list *ob; };
static std::string reading(const Shared &x, Tape &t) {
    switch (t.below(5)) {
    case 0: case 1: return ask(t.flip() ? x.a : x.b, t.flip() ? x.a : x.b, t);
    case 2: return seen(observe(x.p)) + take(trax_properties_get(x.p, "k")) + cat(trax_properties_has(x.p, "k"), trax_properties_get_float(x.p, "k", 1));
    case 3: return seen(observe(x.im));
    default: return seen(observe(x.ob)); }
}
struct Job { int kind; uint64_t seed; size_t ops; Plan plan; };       // 0 data, 1 a session with both ends in threads of their own, 2 reading shared objects
struct Gate { std::atomic<int> waiting{0}; int n; void pass() { waiting++; while (waiting < n) std::this_thread::yield(); } };
static std::string data_job(const Job &j) {
    Tape t = branch(j.seed); std::string s;
    for (size_t i = 0; i < j.ops; i++) switch (t.below(4)) { case 0: case 1: s += regions(t) + "\n"; break; case 2: s += properties(t) + "\n"; break; default: s += wrapped(t) + "\n"; }
    return s;
}
static int listener(int &port) {
    int f = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a;
    if (f < 0 || bind(f, (struct sockaddr *) &a, sizeof a) || listen(f, 1) || getsockname(f, (struct sockaddr *) &a, &n)) { fprintf(stderr, "no loopback network\n"); _exit(96); }
    port = ntohs(a.sin_port); return f;
}
static std::vector<std::string> run(const std::vector<Job> &jobs, const Shared &x) {
    struct End { size_t job; bool client; int in, out, listening; };
    std::vector<End> ends; std::vector<int> close_after;
    for (size_t i = 0; i < jobs.size(); i++) {
        if (jobs[i].kind != 1) { ends.push_back({i, false, -1, -1, -1}); continue; }
        if (jobs[i].plan.net && !jobs[i].plan.cpp) {
            int port, l = listener(port); int c = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (connect(c, (struct sockaddr *) &a, sizeof a)) { fprintf(stderr, "no loopback network\n"); _exit(96); }
            int d = dup(c); ends.push_back({i, true, -1, -1, l}); ends.push_back({i, false, c, d, -1}); close_after.insert(close_after.end(), {l, c, d}); continue;
        }
        int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(96);
        ends.push_back({i, true, b[0], a[1], -1}); ends.push_back({i, false, a[0], b[1], -1}); close_after.insert(close_after.end(), {a[0], a[1], b[0], b[1]});
    }
    std::vector<std::string> out(ends.size()); std::vector<std::thread> th; std::vector<Failure> bad(ends.size()); Gate g; g.n = (int) ends.size();
    for (size_t e = 0; e < ends.size(); e++) th.emplace_back([&, e]() {
        const End &n = ends[e]; const Job &j = jobs[n.job]; g.pass();
        try {
            if (j.kind == 0) out[e] = data_job(j);
            else if (j.kind == 2) { Tape t = branch(j.seed); for (size_t i = 0; i < j.ops; i++) out[e] += reading(x, t) + "\n"; }
            else out[e] = n.client ? client_side(j.plan, n.in, n.out, n.listening) : server_side(j.plan, n.in, n.out);
        } catch (const Failure &f) { bad[e] = f; }
    });
    for (auto &t : th) t.join();
    for (int f : close_after) close(f);
    for (auto &f : bad) if (!f.kind.empty()) throw f;
    return out;
}
static void c38(Tape &t, Ctx &c) {
    std::vector<Job> jobs; size_t n = 2 + t.below(4); bool sessions = false, readers = false;
    for (size_t i = 0; i < n; i++) {
        Job j; j.kind = t.weighted({3, 3, 2}); j.seed = t.below(1 << 16); j.ops = 2 + t.below(8); if (j.kind == 1) { Tape b = branch(j.seed); j.plan = plan(b); sessions = true; } readers |= j.kind == 2;
        c.note(j.kind == 0 ? cat("data ", j.seed, " x", j.ops) : j.kind == 2 ? cat("readers ", j.seed, " x", j.ops) : cat("session ", j.seed, " version ", j.plan.version, ", ", j.plan.steps.size(), " steps", j.plan.cpp ? ", C++ client" : "", j.plan.net ? ", socket" : ""));
        jobs.push_back(j);
    }
    Tape b = branch(t.below(1 << 16)); MRegion ra = small_region(b), rb = small_region(b); MProps mp = props(b, 5, false); MImages mi = images(b, TRAX_CHANNEL_COLOR | TRAX_CHANNEL_IR, TRAX_IMAGE_ANY, false); MObjects mo{{ra, mp}, {rb, MProps()}};
    Props sp(mp); Images si(mi); Objects so(mo); Shared x{make(ra), make(rb), sp.p, si.l, so.l};
    std::vector<std::string> alone;
    for (auto &j : jobs) for (auto &s : run({j}, x)) alone.push_back(s);
    for (int round = 0; round < 3; round++) {
        std::vector<std::string> got = run(jobs, x);
        for (size_t i = 0; i < got.size(); i++) if (got[i] != alone[i]) {
            size_t p = 0; while (p < got[i].size() && p < alone[i].size() && got[i][p] == alone[i][p]) p++; p = p > 40 ? p - 40 : 0;
            fail("a thread saw something else next to others than alone", cat("thread ", i, ": ", quote(got[i].substr(p, 160)), " instead of ", quote(alone[i].substr(p, 160))));
        }
    }
    trax_region_release(&x.a); trax_region_release(&x.b);
    c.nontrivial = jobs.size() > 1; if (sessions) c.tag("with sessions"); if (readers) c.tag("with objects read by several threads"); if (!sessions) c.tag("only data");
}
static Register r38({"C38", "2 to 5 activities (work on regions, properties and C++ objects; sessions over pipes or sockets with both ends in threads of their own; reading objects that all threads share), each run alone and then all at once under ThreadSanitizer: no data race, and every thread sees what it saw alone; every case is non-trivial", c38, 30, false, 100, 8, {"ThreadSanitizer sees races between accesses that really happened in the explored runs"}});
