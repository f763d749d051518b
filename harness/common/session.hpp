// Sessions between a client and a server handle over the in-memory link, and transcripts of one
// endpoint fed with given bytes.
#pragma once
#include "link.hpp"
#include "gen.hpp"

namespace ses {
using namespace pbt;
using namespace gen;
using lnk::Channel;
using lnk::Frag;

struct Config {
    int version = 4, regions = TRAX_REGION_ANY, images = TRAX_IMAGE_ANY, channels = TRAX_CHANNEL_COLOR;
    bool multi = false;
    bool boast = false;              // a legacy tracker that sends the multi-object setting of version 4
    bool has_name = false, has_desc = false, has_family = false;
    std::string name, desc, family;
    MProps custom;
    std::string show() const { return cat("v", version, multi ? " multi" : "", " regions=", regions, " images=", images, " channels=", channels); }
};
inline Config config(Tape &t, int vmin, int vmax) {
    Config k;
    k.version = (int) (vmax - (int) t.below(vmax - vmin + 1));
    k.multi = k.version >= 4 && t.chance(2, 3); k.boast = k.version < 4 && t.chance(1, 6);
    static const std::vector<int> types{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK};
    k.regions = t.chance(1, 2) ? TRAX_REGION_ANY : 0;
    if (!k.regions) { for (int r : types) if (t.flip()) k.regions |= r; if (!k.regions) k.regions = t.pick(types); }
    k.images = t.chance(1, 2) ? TRAX_IMAGE_ANY : (int) (1 + t.below(15));
    k.channels = k.version < 2 ? TRAX_CHANNEL_COLOR : t.chance(1, 2) ? TRAX_CHANNEL_COLOR : (int) (1 + t.below(7));
    return k;
}
inline void config_text(Tape &t, Config &k) {
    if ((k.has_name = t.flip())) k.name = text(t);
    if ((k.has_desc = t.flip())) k.desc = text(t);
    if ((k.has_family = t.flip())) k.family = text(t);
    if (t.flip()) k.custom = props(t);
}

inline void log_bytes(const char *s, int n, void *o) { Untracked u; if (s) ((std::string *) o)->append(s, (size_t) n); }

struct Request {
    int kind = TRAX_ERROR; MImages im = MImages(3); MObjects ob; bool has_ob = false; MProps p;
};
struct Reply { int kind = TRAX_ERROR; MObjects st; MProps p; };

inline std::string dump(const MRegion &r) {
    std::string s = show(r);
    if (r.type == TRAX_REGION_MASK) { s += " "; for (char c : r.bits) s += (char) ('0' + c); }
    if (r.type == TRAX_REGION_POLYGON) for (auto &q : r.pts) s += cat(" ", q.first, ",", q.second);
    return s;
}
inline std::string dump(const MProps &p) { std::string s; for (auto &kv : p) s += " " + quote(kv.first, 1 << 24) + "=" + quote(kv.second, 1 << 24); return s; }
inline std::string dump(const MObjects &o) { std::string s; for (auto &x : o) s += " <" + dump(x.r) + dump(x.p) + ">"; return s; }
inline std::string dump(const Request &r) {
    std::string s = cat("request ", r.kind);
    for (auto &i : r.im) if (i.type) s += cat(" [", i.type, " ", i.w, " ", i.h, " ", i.format, " ", quote(i.s, 1 << 24), "]");
    if (r.has_ob) s += " objects" + dump(r.ob);
    return s + dump(r.p);
}
inline std::string dump(const Reply &r) { return cat("reply ", r.kind) + dump(r.st) + dump(r.p); }

struct Meta {
    trax_metadata *m;
    explicit Meta(const Config &k) {
        m = trax_metadata_create(k.regions, k.images, k.channels, k.has_name ? k.name.c_str() : NULL, k.has_desc ? k.desc.c_str() : NULL, k.has_family ? k.family.c_str() : NULL,
                                 k.multi ? TRAX_METADATA_MULTI_OBJECT : 0);
        for (auto &kv : k.custom) trax_properties_set(m->custom, kv.first.c_str(), kv.second.c_str());
        if (k.boast) trax_properties_set(m->custom, "trax.multiobject", "1");
    }
    ~Meta() { trax_metadata_release(&m); }
    Meta(const Meta &) = delete;
};

// server side of the interface, the same for both protocol generations
// an error is explained, a success leaves no explanation behind
inline void explained(trax_handle *h, int result, const char *call) {
    const char *e = trax_get_error(h);
    if (result == TRAX_ERROR) check(e && *e, cat(call, " failed without an error message")); else check(!e || !*e, cat(call, " succeeded but left an error message"), e ? e : "");
}
inline Request server_wait(trax_handle *h, bool v4, bool want_props = true) {
    Request q; trax_image_list *il = NULL; Props pr; trax_properties *pp = want_props ? pr.p : NULL;
    if (v4) {
        trax_object_list *ol = NULL;
        q.kind = trax_server_wait_mot(h, &il, &ol, pp);
        if (q.kind == TRAX_INITIALIZE || q.kind == TRAX_FRAME) {
            Images own(il); Objects objs(ol);
            q.im = observe(il); if (ol) { q.has_ob = true; q.ob = observe(ol); }
        }
    } else {
        trax_region *r = NULL;
        q.kind = trax_server_wait_sot(h, &il, &r, pp);
        if (q.kind == TRAX_INITIALIZE || q.kind == TRAX_FRAME) {
            Images own(il);
            q.im = observe(il);
            if (q.kind == TRAX_INITIALIZE) { q.has_ob = true; check(r != NULL, "initialize without a region"); q.ob.push_back({observe(r), {}}); }
            if (r) trax_region_release(&r);
        }
    }
    if (q.kind >= 0) q.p = observe(pr.p);
    check(q.kind == TRAX_ERROR || q.kind == TRAX_INITIALIZE || q.kind == TRAX_FRAME || q.kind == TRAX_QUIT, "server wait returned an undocumented result", cat(q.kind)); explained(h, q.kind, "server wait");
    return q;
}
inline int server_reply(trax_handle *h, bool v4, const MObjects &s) {
    if (v4) { Objects o(s); return trax_server_reply_mot(h, o.l); }
    trax_region *r = make(s[0].r); Props p(s[0].p);
    int x = trax_server_reply_sot(h, r, s[0].p.empty() && (s[0].r.type & 1) ? NULL : p.p);      // NULL stands for no properties
    trax_region_release(&r);
    return x;
}
inline Reply client_wait(trax_handle *h, bool want_props = true) {
    Reply r; trax_object_list *ol = NULL; Props pr;
    r.kind = trax_client_wait(h, &ol, want_props ? pr.p : NULL);
    if (r.kind == TRAX_STATE) { Objects own(ol); r.st = observe(ol); }
    if (r.kind >= 0) r.p = observe(pr.p);
    check(r.kind == TRAX_ERROR || r.kind == TRAX_STATE || r.kind == TRAX_QUIT, "client wait returned an undocumented result", cat(r.kind)); explained(h, r.kind, "client wait");
    return r;
}

struct Step {                         // one request of the client, with what the tracker answers
    bool init = false; MObjects ob; MImages im; MProps p; MObjects answer;
    bool reports_init = false;        // how the server sees it
};

struct Session {
    Config k; bool v4;
    Channel c2s, s2c;
    trax_handle *srv = nullptr, *cli = nullptr;
    std::string slog, clog;           // what the logging callbacks were given
    int objects = 0;                  // objects being tracked, by the model
    bool log_s = false, log_c = false;
    unsigned lazy = 0;                // which calls pass NULL instead of an empty property set

    Session(Tape &t, const Config &cfg, bool fragments) : k(cfg), v4(cfg.version >= 4) {
        lnk::init();
        log_s = t.chance(1, 3); log_c = t.chance(1, 3); if (t.chance(1, 3)) lazy = 1 + (unsigned) t.below(15);
        if (fragments) { c2s.rd = Frag::draw(t); s2c.rd = Frag::draw(t); c2s.wr = Frag::draw(t); s2c.wr = Frag::draw(t); }
    }
    void start_server() {
        Meta m(k);
        srv = trax_server_setup_file_v(m.m, lnk::reader(&c2s), lnk::writer(&s2c), log_s ? trax_logger_setup(log_bytes, &slog, 0) : trax_no_log, k.version);
        check(srv != nullptr, "server setup failed");
    }
    void start_client() {
        cli = trax_client_setup_file(lnk::reader(&s2c), lnk::writer(&c2s), log_c ? trax_logger_setup(log_bytes, &clog, 0) : trax_no_log);
        check(cli != nullptr, "client refused a valid hello message");
    }
    void start() { start_server(); start_client(); }
    ~Session() { if (cli) trax_cleanup(&cli); if (srv) trax_cleanup(&srv); }

    int request(const Step &s) {
        Images il(s.im); Props pr(s.p); trax_properties *pp = s.p.empty() && (lazy & 1) ? NULL : pr.p;
        if (s.init) { Objects ol(s.ob); return trax_client_initialize(cli, il.l, ol.l, pp); }
        if (s.ob.empty()) return trax_client_frame(cli, il.l, NULL, pp);
        Objects ol(s.ob); return trax_client_frame(cli, il.l, ol.l, pp);
    }
    Request serve(bool want_props = true) { return server_wait(srv, v4, want_props); }
    int answer(const MObjects &s) { return server_reply(srv, v4, s); }
    Reply receive(bool want_props = true) { return client_wait(cli, want_props); }

    std::string err(trax_handle *h) { const char *e = trax_get_error(h); return e ? e : ""; }

    // what the server must see for this step
    Request expected(const Step &s) const {
        Request q; q.kind = s.init ? TRAX_INITIALIZE : TRAX_FRAME; q.p = s.p;
        for (int i = 0; i < 3; i++) if (k.channels & CHANNEL_IDS[i]) q.im[i] = s.im[i];
        q.ob = s.ob; q.has_ob = !s.ob.empty();
        if (!v4) for (auto &o : q.ob) o.p.clear();
        return q;
    }
    void account(const Step &s) { objects = s.init ? (int) s.ob.size() : objects + (int) s.ob.size(); }
    static void compare(const Request &want, const Request &got, const std::string &error) {
        check(want.kind == got.kind, "server saw a different kind of request", cat("wanted ", want.kind, ", got ", got.kind, " ", error));
        same(want.im, got.im, "request");
        check(want.has_ob == got.has_ob, want.has_ob ? "server got no objects" : "server got unexpected objects");
        same(want.ob, got.ob, "request");
        same(want.p, got.p, "request");
    }
    void compare_reply(const MObjects &want, const Reply &got) {
        check(got.kind == TRAX_STATE, "client did not get the state", cat("got ", got.kind, " ", err(cli)));
        same(want, got.st, "state");
        same(MProps(), got.p, "state message");
    }
    // one complete exchange
    void exchange(const Step &s) {
        int r = request(s);
        check(r == TRAX_OK, "client request refused", cat(r, " ", err(cli)));
        account(s);
        Request q = serve(!(s.p.empty() && (lazy & 2)));
        compare(expected(s), q, err(srv));
        r = answer(s.answer);
        check(r == TRAX_OK, "server reply refused", cat(r, " ", err(srv)));
        compare_reply(s.answer, receive(!(lazy & 4)));
        check(!lnk::st().blocked, "an endpoint waits for more than was sent");
    }
};

// ------------------------------------------------------------------ generators of steps
inline MObjects objects(Tape &t, const Config &k, size_t n, bool state, bool text_heavy) {
    MObjects o;
    for (size_t i = 0; i < n; i++) {
        MObject m; m.r = region(t, state ? (TRAX_REGION_ANY | TRAX_REGION_SPECIAL) : k.regions);
        if (k.version >= 4 || state) { if (text_heavy ? t.chance(2, 3) : t.chance(1, 3)) m.p = props(t, text_heavy ? 4 : 2, text_heavy, true); }
        o.push_back(m);
    }
    return o;
}
inline size_t object_count(Tape &t, const Config &k) { return !k.multi ? 1 : t.chance(1, 20) ? 1 + t.below(40) : 1 + t.below(5); }
inline Step step(Tape &t, const Config &k, int tracked, bool text_heavy) {
    Step s;
    bool v4 = k.version >= 4;
    if (tracked == 0) s.init = true;
    else s.init = t.chance(1, 5);
    if (s.init) s.ob = objects(t, k, object_count(t, k), false, text_heavy);
    else if (v4 && k.multi && t.chance(1, 3)) s.ob = objects(t, k, 1 + t.below(3), false, text_heavy);
    int given = k.channels | (t.chance(1, 4) ? (int) t.below(8) : 0);      // channels nobody asked for may be given
    s.im = images(t, given, k.images, text_heavy);
    if (text_heavy ? t.chance(2, 3) : t.chance(1, 3)) s.p = props(t, text_heavy ? 5 : 2, text_heavy, true);
    int now = s.init ? (int) s.ob.size() : tracked + (int) s.ob.size();
    s.answer = objects(t, k, now, true, text_heavy);
    return s;
}
inline std::string show(const Step &s) {
    std::string r = s.init ? "initialize" : "frame";
    if (!s.ob.empty()) r += cat(" ", s.ob.size(), " object(s) ", gen::show(s.ob[0].r), gen::show(s.ob[0].p));
    for (auto &i : s.im) if (i.type) r += " " + gen::show(i);
    return r + " " + gen::show(s.p) + " -> " + (s.answer.empty() ? "" : gen::show(s.answer[0].r) + gen::show(s.answer[0].p));
}

// ------------------------------------------------------------------ one endpoint fed with given bytes
struct Recorded { Config k; std::vector<Step> steps; std::string c2s, s2c; std::vector<size_t> c2s_end, s2c_end; size_t hello = 0; bool quit_from_client = false, quit_from_server = false; };
// plays a session through the library and keeps its bytes
inline Recorded record(Tape &t, const Config &k, size_t max_steps, bool text_heavy, bool quit) {
    Recorded r; r.k = k;
    Session s(t, k, false); s.log_s = s.log_c = false;
    s.start();
    r.hello = s.s2c.bytes.size();
    size_t n = 1 + t.below(max_steps);
    for (size_t i = 0; i < n; i++) {
        Step x = step(t, k, s.objects, text_heavy);
        s.exchange(x);
        r.steps.push_back(x); r.c2s_end.push_back(s.c2s.bytes.size()); r.s2c_end.push_back(s.s2c.bytes.size());
    }
    if (quit) {
        std::string reason = text(t, false);
        if (t.flip()) { trax_terminate(s.srv, reason.c_str()); r.quit_from_server = true; s.receive(); } else { trax_terminate(s.cli, reason.c_str()); r.quit_from_client = true; s.serve(); }
    }
    r.c2s = s.c2s.bytes; r.s2c = s.s2c.bytes;
    return r;
}

struct Entry { std::string text; int kind; Request q; Reply r; };
// what a server reports when its peer sends exactly these bytes and goes away
inline std::vector<Entry> server_transcript(const Config &k, const std::string &bytes, Frag f, size_t max_calls, size_t after_error = 2) {
    std::vector<Entry> out;
    lnk::init();
    Channel in, sink; in.bytes = bytes; in.closed = true; in.rd = f;
    Meta m(k);
    trax_handle *h = trax_server_setup_file_v(m.m, lnk::reader(&in), lnk::writer(&sink), trax_no_log, k.version);
    check(h != nullptr, "server setup failed");
    size_t errors = 0;
    for (size_t i = 0; i < max_calls; i++) {
        Request q = server_wait(h, k.version >= 4);
        const char *e = trax_get_error(h);
        out.push_back({dump(q) + (e ? std::string(" error: ") + e : std::string()), q.kind, q, {}});
        if (q.kind == TRAX_QUIT) check(!trax_is_alive(h), "server alive after quit");
        if (q.kind == TRAX_ERROR || q.kind == TRAX_QUIT) { if (++errors >= after_error) break; }
    }
    trax_cleanup(&h);
    return out;
}
// what a client reports when it makes these requests and the tracker sends exactly these bytes
inline std::vector<Entry> client_transcript(const std::vector<Step> &steps, const std::string &bytes, Frag f, size_t after_error = 2, size_t extra_waits = 0) {
    std::vector<Entry> out;
    lnk::init();
    Channel in, sink; in.bytes = bytes; in.closed = true; in.rd = f;
    trax_handle *h = trax_client_setup_file(lnk::reader(&in), lnk::writer(&sink), trax_no_log);
    if (!h) { out.push_back({"refused", -2, {}, {}}); return out; }
    {
        trax_metadata *m = h->metadata; int v = -1; trax_get_parameter(h, TRAX_PARAMETER_VERSION, &v);
        out.push_back({cat("hello v", v, " ", m->format_region, " ", m->format_image, " ", m->channels, " ", m->flags, " ", m->tracker_name ? quote(m->tracker_name, 1 << 24) : "-",
                       m->tracker_description ? quote(m->tracker_description, 1 << 24) : "-", m->tracker_family ? quote(m->tracker_family, 1 << 24) : "-") + dump(observe(m->custom)), 0, {}, {}});
    }
    size_t errors = 0;
    auto wait = [&]() {
        Reply r = client_wait(h);
        const char *e = r.kind == TRAX_ERROR ? trax_get_error(h) : NULL;
        out.push_back({dump(r) + (e ? std::string(" error: ") + e : std::string()), r.kind, {}, r});
        if (r.kind == TRAX_QUIT) check(!trax_is_alive(h), "client alive after quit");
        if (r.kind == TRAX_ERROR || r.kind == TRAX_QUIT) errors++;
    };
    for (auto &s : steps) {
        int x;
        { Images il(s.im); Props pr(s.p);
          if (s.init) { Objects ol(s.ob); x = trax_client_initialize(h, il.l, ol.l, pr.p); }
          else if (s.ob.empty()) x = trax_client_frame(h, il.l, NULL, pr.p);
          else { Objects ol(s.ob); x = trax_client_frame(h, il.l, ol.l, pr.p); } }
        out.push_back({cat("call ", x), x, {}, {}});
        check(x == TRAX_OK || x == TRAX_ERROR, "client request returned an undocumented result", cat(x)); explained(h, x, "client request");
        if (x == TRAX_OK) wait(); else errors++;
        if (errors >= after_error) break;
    }
    for (size_t i = 0; i < extra_waits; i++) wait();
    trax_cleanup(&h);
    return out;
}
inline std::string first_difference(const std::vector<Entry> &a, const std::vector<Entry> &b) {
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        std::string x = i < a.size() ? a[i].text : "(nothing)", y = i < b.size() ? b[i].text : "(nothing)";
        if (x != y) { size_t p = 0; while (p < x.size() && p < y.size() && x[p] == y[p]) p++; p = p > 40 ? p - 40 : 0; return cat("call ", i, ": ...", quote(x.substr(p), 200), " versus ...", quote(y.substr(p), 200)); }
    }
    return "";
}
}
