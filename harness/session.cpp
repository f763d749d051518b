#include "session.hpp"
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
using namespace ses;

static const char *ASSUME_LINK = "both endpoints run in one thread over an in-memory link that never fails a write";

// ================================================================== C01
static void c01(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4); config_text(t, k);
    Session s(t, k, t.chance(1, 3));
    s.start();
    trax_metadata *m = s.cli->metadata;
    auto str = [](const char *p) { return p ? std::string(p) : std::string("<none>"); };
    check(str(m->tracker_name) == (k.has_name ? k.name : "<none>"), "tracker name differs", quote(str(m->tracker_name)));
    check(str(m->tracker_description) == (k.has_desc ? k.desc : "<none>"), "tracker description differs", quote(str(m->tracker_description)));
    check(str(m->tracker_family) == (k.has_family ? k.family : "<none>"), "tracker family differs", quote(str(m->tracker_family)));
    same(k.custom, observe(m->custom), "hello");
    c.note(k.show() + " hello " + gen::show(k.custom));
    size_t n = t.below(5), weight = k.custom.size();
    for (size_t i = 0; i < n; i++) {
        Step x = step(t, k, s.objects, true);
        c.note(ses::show(x));
        s.exchange(x);
        weight += x.p.size(); for (auto &o : x.ob) weight += o.p.size(); for (auto &o : x.answer) weight += o.p.size();
    }
    if (t.chance(1, 2)) {
        std::string reason = text(t);
        check(trax_terminate(s.srv, reason.c_str()) == TRAX_OK, "terminate failed");
        if (s.objects > 0) {
            Reply r = s.receive();
            check(r.kind == TRAX_QUIT, "client did not see the termination", cat(r.kind));
            same(MProps{{"trax.reason", reason}}, r.p, "quit");
        }
        c.note("quit " + quote(reason, 40)); weight++;
    }
    c.nontrivial = weight >= 2;
    size_t biggest = std::max(s.c2s.bytes.size(), s.s2c.bytes.size());
    if (biggest > 4096) c.tag("more than one read buffer");
    if (biggest > 65536) c.tag("more than 64 kB");
}
static Register r01({"C01", "a whole session (hello, requests, states, quit) with generated text content; non-trivial when at least two properties or a quit reason were carried", c01, 20, true, 200, 8, {ASSUME_LINK, "property keys are legal and values are free of NUL; the hello and quit keys starting with trax. belong to the library, everywhere else they are carried like any other"}});

// ================================================================== C02
// The same recorded bytes are read whole and in pieces; the same calls are written whole and in pieces.
static int listen_local(int &port) {
    int s = socket(AF_INET, SOCK_STREAM, 0); if (s < 0) return -1;
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(s, (struct sockaddr *) &a, sizeof a) || listen(s, 4)) { close(s); return -1; }
    socklen_t l = sizeof a; getsockname(s, (struct sockaddr *) &a, &l); port = ntohs(a.sin_port);
    return s;
}
static int open_descriptors() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void socket_session(Tape &t, const Recorded &r, bool &used) {
    int before = open_descriptors(), port = 0, ls = listen_local(port);
    if (ls < 0) return;
    used = true;
    lnk::init(); lnk::st().tcp_rd = Frag::draw(t); lnk::st().tcp_wr = Frag::draw(t);
    char b[16]; snprintf(b, sizeof b, "%d", port); setenv("TRAX_SOCKET", b, 1);
    {
        Meta m(r.k);
        trax_handle *srv = trax_server_setup_v(m.m, trax_no_log, r.k.version);
        unsetenv("TRAX_SOCKET");
        check(srv != nullptr, "server setup over a socket failed");
        trax_handle *cli = trax_client_setup_socket(ls, 5, trax_no_log);
        check(cli != nullptr, "client setup over a socket failed");
        int v = 0; check(trax_get_parameter(srv, TRAX_PARAMETER_SOCKET, &v) && v == 1, "server does not report a socket");
        Session *dummy = nullptr; (void) dummy;
        Config k = r.k; bool v4 = k.version >= 4;
        for (auto &x : r.steps) {
            Images il(x.im); Props pr(x.p); int ret;
            if (x.init) { Objects ol(x.ob); ret = trax_client_initialize(cli, il.l, ol.l, pr.p); }
            else if (x.ob.empty()) ret = trax_client_frame(cli, il.l, NULL, pr.p);
            else { Objects ol(x.ob); ret = trax_client_frame(cli, il.l, ol.l, pr.p); }
            check(ret == TRAX_OK, "socket: client request refused");
            Request q = server_wait(srv, v4), e; e.kind = x.init ? TRAX_INITIALIZE : TRAX_FRAME; e.p = x.p; e.ob = x.ob; e.has_ob = !x.ob.empty();
            for (int i = 0; i < 3; i++) if (k.channels & CHANNEL_IDS[i]) e.im[i] = x.im[i];
            if (!v4) for (auto &o : e.ob) o.p.clear();
            Session::compare(e, q, "over a socket");
            check(server_reply(srv, v4, x.answer) == TRAX_OK, "socket: reply refused");
            Reply a = client_wait(cli);
            check(a.kind == TRAX_STATE, "socket: client did not get the state", cat(a.kind));
            same(x.answer, a.st, "socket state");
        }
        if (t.flip()) {
            trax_terminate(srv, "bye"); Reply a = client_wait(cli);
            check(r.steps.empty() || a.kind == TRAX_QUIT, "socket: termination not seen");
            trax_cleanup(&srv); trax_cleanup(&cli);
        } else { trax_cleanup(&cli); Request q = server_wait(srv, v4); check(q.kind == TRAX_QUIT, "socket: termination not seen"); trax_cleanup(&srv); }
    }
    close(ls);
    check(open_descriptors() == before, "socket session left descriptors open", cat(before, " before, ", open_descriptors(), " after"));
}
static void c02(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4); if (t.chance(1, 4)) config_text(t, k);
    bool over_socket = t.chance(1, 10);
    Recorded r = record(t, k, 4, !over_socket && t.chance(1, 2), true);
    std::string c2s = r.c2s, s2c = r.s2c;
    int damage = t.weighted({4, 1, 1});       // the relation also holds for foreign lines and broken streams
    if (damage == 1) { size_t at = t.below(c2s.size() + 1); c2s.insert(at, text(t)); at = t.below(s2c.size() + 1); s2c.insert(at, text(t)); }
    if (damage == 2) { c2s.resize(t.below(c2s.size() + 1)); s2c.resize(t.below(s2c.size() + 1)); }
    c.note(cat(k.show(), ", ", r.steps.size(), " steps, ", c2s.size(), "+", s2c.size(), " bytes", damage ? " damaged" : ""));
    Frag a = Frag::draw(t), b = Frag::draw(t);
    size_t calls = r.steps.size() + 4;
    auto s0 = server_transcript(k, c2s, Frag(), calls), s1 = server_transcript(k, c2s, a, calls);
    std::string d = first_difference(s0, s1);
    check(d.empty(), "server result depends on fragmentation", d);
    auto c0 = client_transcript(r.steps, s2c, Frag()), c1 = client_transcript(r.steps, s2c, b);
    d = first_difference(c0, c1);
    check(d.empty(), "client result depends on fragmentation", d);
    // short writes: the receiver of a message written in pieces gets what was written
    if (!damage) {
        Session s(t, k, false); s.c2s.wr = Frag::draw(t); s.s2c.wr = Frag::draw(t); s.log_s = s.log_c = false;
        s.start();
        for (size_t i = 0; i < r.steps.size(); i++) { s.exchange(r.steps[i]); }
        if (s.c2s.wr.mode || s.s2c.wr.mode) c.tag("short writes");
    }
    c.nontrivial = (a.mode || b.mode) && r.steps.size() > 0;
    if (a.mode == 1 || b.mode == 1) c.tag("single bytes");
    if (damage) c.tag("damaged stream");
    if (over_socket && c2s.size() < 60000 && s2c.size() < 60000) { bool used = false; socket_session(t, r, used); if (used) c.tag("TCP socket"); lnk::st().tcp_rd = lnk::st().tcp_wr = Frag(); }
}
static Register r02({"C02", "a recorded session read whole and again in generated pieces (differential), written through short writes, and in some cases replayed over a TCP socket; non-trivial when some stream was cut", c02, 30, true, 150, 8, {ASSUME_LINK, "reads and writes are not interrupted by signals"}});

// ================================================================== C03
static std::string foreign_line(Tape &t) {
    static const std::vector<std::string> near{"", "@", "@@", "@@TRAX", "@@TRAX;quit", "@TRAX:quit", "@@@TRAX:quit", " @@TRAX:quit", "x@@TRAX:frame \"a\"", "@@trax:quit", "@@TRAX :quit", "\t@@TRAX:hello", "@@TRA@@TRAX:quit ",
        "@@@@TRAX:quit ", "quit", "\"", "\\", "a=b", "\"unterminated", "hello \"trax.version=4\"", "@@TRAX\r", "\r", "@@ TRAX:quit", "@@TRAX@@TRAX:quit "};
    static const std::vector<std::string> unknown{"@@TRAX:foo", "@@TRAX:foo \"a\" ", "@@TRAX:", "@@TRAX: ", "@@TRAX:quitt ", "@@TRAX:qui", "@@TRAX:stat \"1,2,3,4\" ", "@@TRAX:frames \"x\" \"k=v\"", "@@TRAX:initialise x", "@@TRAX::quit", "@@TRAX:\"quit\"", "@@TRAX:@@TRAX:quit", "@@TRAX:1", "@@TRAX:helloworld a=b"};
    std::string s;
    switch (t.weighted({3, 3, 2, 2, 1})) {
    case 0: s = t.pick(near); break;
    case 1: s = text(t); break;
    case 2: s = t.pick(unknown); break;
    case 3: s = t.pick(near) + text(t, false); break;
    default: s = bytes(t, t.below(9000)); break;
    }
    for (char &ch : s) if (ch == '\n') ch = '~';
    bool known = false;
    if (s.compare(0, 7, "@@TRAX:") == 0) {         // keep it foreign: no known name may follow the prefix
        std::string name; size_t i = 7; while (i < s.size() && isalnum((unsigned char) s[i])) name += (char) tolower((unsigned char) s[i++]);
        for (const char *n : {"hello", "initialize", "frame", "state", "status", "quit"}) known |= name == n;
    }
    if (known) s = "#" + s;
    return s + "\n";
}
static std::string with_foreign(Tape &t, const std::string &b, size_t &count) {
    std::string r; size_t pos = 0;
    while (true) {
        size_t n = t.chance(1, 2) ? 0 : t.below(4);
        for (size_t i = 0; i < n; i++) { r += foreign_line(t); count++; }
        if (pos >= b.size()) break;
        size_t e = b.find('\n', pos); if (e == std::string::npos) e = b.size() - 1;
        r.append(b, pos, e + 1 - pos); pos = e + 1;
    }
    return r;
}
static void c03(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4);
    Recorded r = record(t, k, 4, t.chance(1, 4), t.chance(2, 3));
    size_t n = 0;
    std::string c2s = with_foreign(t, r.c2s, n), s2c = with_foreign(t, r.s2c, n);
    Frag f = Frag::draw(t);
    size_t calls = r.steps.size() + 3;
    auto s0 = server_transcript(k, r.c2s, Frag(), calls), s1 = server_transcript(k, c2s, f, calls);
    c.note(cat(k.show(), ", ", r.steps.size(), " steps, ", n, " foreign lines; server stream ", quote(c2s, 500)));
    std::string d = first_difference(s0, s1);
    check(d.empty(), "foreign lines change what the server sees", d);
    auto c0 = client_transcript(r.steps, r.s2c, Frag()), c1 = client_transcript(r.steps, s2c, f);
    d = first_difference(c0, c1);
    check(d.empty(), "foreign lines change what the client sees", d);
    check(c0.size() >= 1 + 2 * r.steps.size() && c0[0].kind == 0, "the clean stream was not understood");
    c.nontrivial = n >= 2;
}
static Register r03({"C03", "a recorded session with generated foreign lines between its messages in both directions, compared with the clean session; non-trivial when at least two foreign lines were inserted", c03, 20, true, 150, 8, {ASSUME_LINK}});

// ================================================================== C04
struct Spelled { std::string name; std::vector<std::string> args; std::vector<std::pair<std::string, std::string>> props; };
static std::string canonical(const Spelled &m) {
    auto esc = [](const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else r += ch; } return r; };
    std::string r = "@@TRAX:" + m.name + " ";
    for (auto &a : m.args) r += "\"" + esc(a) + "\" ";
    for (auto &p : m.props) r += "\"" + p.first + "=" + esc(p.second) + "\" ";
    return r + "\n";
}
static std::string respell(Tape &t, const Spelled &m, int &variants) {
    std::string name = m.name;
    if (t.chance(1, 3)) { unsigned bits = (unsigned) t.below(1024); for (size_t i = 0; i < name.size(); i++) if (bits >> i & 1) name[i] = (char) toupper(name[i]); variants++; }
    // arguments in any interleaving that keeps the order of positional ones
    struct Item { bool prop; size_t i; }; std::vector<Item> items; size_t a = 0, p = 0;
    int order = (int) t.below(3);
    while (a < m.args.size() || p < m.props.size()) {
        bool take_prop = order == 0 ? a >= m.args.size() : order == 1 ? p < m.props.size() : (p < m.props.size() && (a >= m.args.size() || t.flip()));
        if (take_prop) items.push_back({true, p++}); else items.push_back({false, a++});
    }
    if (order && !m.props.empty() && !m.args.empty()) variants++;
    std::string r = "@@TRAX:" + name, gap;
    bool quoted_last = true;
    for (auto &it : items) {
        size_t sp = 1; if (t.chance(1, 4)) { sp += t.below(4); variants++; }
        r += std::string(sp, ' ');
        std::string key = it.prop ? m.props[it.i].first : "", v = it.prop ? m.props[it.i].second : m.args[it.i];
        // an unquoted argument cannot be empty and cannot start with a quote, a backslash or a carriage return
        bool plain = t.flip();
        if (!it.prop && (v.empty() || v[0] == '"' || v[0] == '\\' || v[0] == '\n' || v[0] == '\r' || v[0] == ' ')) plain = false;
        std::string body; int style = (int) t.below(3);
        for (size_t i = 0; i < v.size(); i++) {
            char ch = v[i];
            if (ch == '\n') { body += "\\n"; continue; }
            bool need = ch == '\\' || (plain ? ch == ' ' : ch == '"');
            bool extra = style == 1 && ch != 'n' && (i || it.prop || !plain) && (unsigned char) ch > 32 && t.chance(1, 6); // any other character may be escaped as itself
            if (extra && !it.prop && ch == '=') extra = false;
            if (need || extra) body += '\\';
            body += ch;
        }
        if (plain) { r += (it.prop ? key + "=" : "") + body; variants++; } else r += "\"" + (it.prop ? key + "=" : "") + body + "\"";
        quoted_last = !plain;
    }
    (void) gap;
    switch (t.below(4)) {
    case 0: r += " \n"; break;
    case 1: r += "\n"; variants++; break;
    case 2: r += " \r\n"; variants++; break;
    default: r += "   \n"; variants++; break;
    }
    (void) quoted_last;
    return r;
}
// A positional argument whose text is free, in a place where it becomes an image path.
static std::string free_argument(Tape &t) {
    switch (t.below(5)) {
    case 0: return "file://" + text(t, false);
    case 1: { std::string k(65 + t.below(20), 'k'); return k + "=" + text(t, false); }                 // too long for a key
    case 2: return std::string("/a-b=") + text(t, false);
    case 3: { static const std::vector<std::string> bad{"a-b", "a b", "a/b", "a+b", "\xc3\xa9", "a;b", "(x)", "a,b", "a*"}; return t.pick(bad) + "=" + text(t, false); }
    default: return "/data/" + text(t, false) + "=" + text(t, false);
    }
}
static bool scheme_like(const std::string &s) { for (size_t i = 0; i < s.size() && i < 17; i++) { char ch = s[i]; if ((ch >= 'a' && ch <= 'z') || ch == '+' || ch == '.' || ch == '-') continue; return ch == ':'; } return false; }
static void c04(Tape &t, Ctx &c) {
    Config k = config(t, 1, 3); k.images = TRAX_IMAGE_ANY; k.regions = TRAX_REGION_ANY;
    int nch = 0; for (int id : CHANNEL_IDS) if (k.channels & id) nch++;
    int variants = 0; size_t n = 1 + t.below(4);
    std::string plain, other; std::vector<Request> want;
    auto add_props = [&](Spelled &m, MProps &p) { MProps x = props(t, 4, false); for (auto &kv : x) m.props.push_back(kv); p = x; };
    for (size_t i = 0; i < n; i++) {
        Spelled m; Request q; bool init = t.chance(1, 3); m.name = init ? "initialize" : "frame"; q.kind = init ? TRAX_INITIALIZE : TRAX_FRAME;
        for (int j = 0; j < 3; j++) if (k.channels & CHANNEL_IDS[j]) {
            std::string a = free_argument(t);
            if (scheme_like(a) && a.compare(0, 7, "file://")) a = "/" + a;
            m.args.push_back(a);
            q.im[j].type = TRAX_IMAGE_PATH; q.im[j].s = a.compare(0, 7, "file://") == 0 ? a.substr(7) : a;
        }
        if (init) {
            MRegion r = region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL);
            trax_region *x = make(r); char *e = trax_region_encode(x); m.args.push_back(e); free(e); trax_region_release(&x);
            q.has_ob = true; q.ob.push_back({r, {}});
        }
        add_props(m, q.p);
        plain += canonical(m); other += respell(t, m, variants);
        want.push_back(q);
    }
    c.note(cat(k.show(), " ", quote(other, 700)));
    auto a = server_transcript(k, plain, Frag(), n, 1), b = server_transcript(k, other, Frag::draw(t), n, 1);
    check(a.size() == n && b.size() == n, "message not understood", cat("of ", n, " messages the canonical form gave ", a.size(), ", the other ", b.size(), ": ", b.empty() ? "" : b.back().text.substr(0, 200)));
    for (size_t i = 0; i < n; i++) {
        Session::compare(want[i], a[i].q, "canonical spelling");
        Session::compare(want[i], b[i].q, "other spelling");
    }
    // and the same towards the client
    {
        Spelled h; h.name = "hello"; h.props = {{"trax.version", "3"}, {"trax.region", "rectangle;polygon;mask;"}, {"trax.image", "path;"}, {"trax.channels", "color;"}};
        MProps custom = props(t, 3, false); for (auto &kv : custom) h.props.push_back(kv);
        std::string ha = canonical(h), hb = respell(t, h, variants);
        Spelled s; s.name = "state"; MRegion r = region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL); trax_region *x = make(r); char *e = trax_region_encode(x); s.args.push_back(e); free(e); trax_region_release(&x);
        MProps sp; add_props(s, sp);
        ha += canonical(s); hb += respell(t, s, variants);
        Spelled q; q.name = "quit"; MProps qp; add_props(q, qp);
        ha += canonical(q); hb += respell(t, q, variants);
        Step init; init.init = true; init.ob.push_back({rectangle(t), {}}); init.im = MImages(3); init.im[0].type = TRAX_IMAGE_PATH; init.im[0].s = "x"; Step frame = init; frame.init = false; frame.ob.clear();
        auto u = client_transcript({init, frame}, ha, Frag(), 1), v = client_transcript({init, frame}, hb, Frag::draw(t), 1);
        std::string d = first_difference(u, v);
        check(d.empty(), "client understands another spelling differently", d + " in " + quote(hb, 300));
        check(v.size() == 5 && v[2].kind == TRAX_STATE && v[4].kind == TRAX_QUIT, "client did not understand the messages", v.back().text);
        same(MObjects{{r, sp}}, v[2].r.st, "state"); same(qp, v[4].r.p, "quit");
    }
    c.nontrivial = variants >= 2;
}
static Register r04({"C04", "generated messages written in the canonical and in a generated other spelling of the documented grammar, fed to a server and a client; non-trivial when at least two deviations from the canonical spelling occur", c04, 20, true, 150, 8, {"positional arguments are observed as image paths and regions of a version 1 to 3 session"}});

// ================================================================== C05
static bool subset(const MProps &a, const MProps &b) { for (auto &kv : a) { auto i = b.find(kv.first); if (i == b.end() || i->second != kv.second) return false; } return true; }
static void c05(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4); if (t.chance(1, 4)) config_text(t, k);
    bool heavy = t.chance(1, 8);
    Recorded r = record(t, k, 3, heavy, t.chance(1, 2));
    bool server_side = t.flip();
    const std::string &full = server_side ? r.c2s : r.s2c;
    size_t calls = r.steps.size() + 2;
    std::vector<Entry> whole = server_side ? server_transcript(k, full, Frag(), calls) : client_transcript(r.steps, full, Frag());
    const std::vector<size_t> &ends = server_side ? r.c2s_end : r.s2c_end;
    bool all = full.size() <= 700;
    size_t ncuts = all ? full.size() + 1 : 24;
    c.note(cat(server_side ? "server" : "client", " ", k.show(), ", ", r.steps.size(), " steps, ", full.size(), " bytes, ", ncuts, " cuts; ", quote(full, 500)));
    for (size_t ci = 0; ci < ncuts; ci++) {
        size_t cut = all ? ci : t.below(full.size() + 1);
        Frag f = ci % 16 == 0 ? Frag::draw(t) : Frag();
        size_t complete = 0; while (complete < ends.size() && ends[complete] <= cut) complete++;
        std::string b = full.substr(0, cut), where = cat("cut at byte ", cut, " of ", full.size(), ": ...", quote(b.substr(b.size() > 60 ? b.size() - 60 : 0), 100));
        if (server_side) {
            auto x = server_transcript(k, b, f, calls + 3, 2);
            bool quit_complete = (r.quit_from_client && cut == full.size());
            for (size_t i = 0; i < complete; i++) check(i < x.size() && x[i].text == whole[i].text, "complete request lost or changed", where + " got " + (i < x.size() ? x[i].text.substr(0, 200) : "nothing"));
            check(x.size() > complete, "no result for the broken stream", where);
            if (quit_complete) { check(x[complete].kind == TRAX_QUIT, "complete termination lost", where); continue; }
            size_t i = complete;
            if (x[i].kind != TRAX_ERROR) {
                // only a final message with every quoted part complete may still count, without its line end
                check(i < whole.size() && x[i].kind == whole[i].kind, "unfinished request delivered as another kind", where + " got " + x[i].text.substr(0, 200));
                const Request &w = whole[i].q, &g = x[i].q;
                check(w.im == g.im, "unfinished request delivered with other images", where);
                check(subset(g.p, w.p), "partly received property delivered", where + " got " + gen::show(g.p));
                same(w.ob, g.ob, "unfinished request");
                i++;
            }
            for (; i < x.size(); i++) check(x[i].kind == TRAX_ERROR, "a request out of nowhere after the end of the stream", where + " got " + x[i].text.substr(0, 200));
        } else {
            auto x = client_transcript(r.steps, b, f, 2, 1);
            if (cut < r.hello) { // hello itself is broken
                check(x.size() >= 1, "no result");
                if (x[0].kind == -2) continue;
                for (size_t i = 1; i < x.size(); i++) check(x[i].kind == TRAX_ERROR || x[i].kind == TRAX_OK, "a state out of nowhere", where);
                continue;
            }
            check(x[0].text == whole[0].text, "hello changed", where);
            size_t i = 1, done = 0;
            for (; done < complete; done++, i += 2) check(i + 1 < x.size() && x[i + 1].text == whole[i + 1].text, "complete state lost or changed", where + " got " + (i + 1 < x.size() ? x[i + 1].text.substr(0, 200) : "nothing"));
            if (done < r.steps.size()) {
                check(i + 1 < x.size() && x[i].kind == TRAX_OK, "request failed", where);
                i++;
                if (x[i].kind != TRAX_ERROR) {
                    check(x[i].kind == TRAX_STATE, "unfinished state delivered as another kind", where + " got " + x[i].text.substr(0, 200));
                    const MObjects &w = r.steps[done].answer, &g = x[i].r.st;
                    check(w.size() == g.size(), "unfinished state with another number of objects", where);
                    for (size_t j = 0; j < w.size(); j++) { same(w[j].r, g[j].r, "unfinished state"); check(subset(g[j].p, w[j].p), "partly received property delivered", where); }
                    i++; done++;
                } else { i++; done++; }
                // afterwards nothing but errors
                for (; i < x.size(); i++) check(x[i].kind == TRAX_ERROR || x[i].text == "call 0", "a result out of nowhere after the end of the stream", where + " got " + x[i].text.substr(0, 200));
            } else {
                // every state was complete: what follows is the termination, whole or cut
                for (; i < x.size(); i++) check(x[i].kind == TRAX_ERROR || (x[i].kind == TRAX_QUIT && r.quit_from_server), "a result out of nowhere after the end of the stream", where + " got " + x[i].text.substr(0, 200));
            }
        }
    }
    if (all) c.tag("every byte of the stream"); else c.tag("sampled cuts of a long stream");
    c.tag(server_side ? "server side" : "client side");
    c.nontrivial = ncuts > 20;
}
static Register r05({"C05", "a recorded session cut after every byte (streams up to 700 bytes; 24 generated cuts for longer ones), on the server or the client side; non-trivial when more than 20 cuts were tried", c05, 60, true, 60, 8, {"the end of the stream is seen as end of file, as after the death of the peer"}});

// ================================================================== C06
static std::string hostile_argument(Tape &t) {
    static const std::vector<std::string> a{"", "image:", "image:;", "image:1", "image:1;1", "image:1;1;", "image:1;1;gray8", "image:1;1;gray8;", "image:1;1;gray8;AA==", "image:1;1;gray8;AAAA", "image:1;1;gray8;A", "image:1;1;gray8;=", "image:1;1;gray8;==",
        "image:1;1;foo;AA==", "image:1;1;foo;", "image:0;0;gray8;", "image:-1;-1;gray8;AA==", "image:65536;65536;gray8;", "image:46341;46341;rgb;AAAA", "image:2;1;gray16;AAAAAA==", "image:1;1;rgb;AAAA", "image:1;1;rgb;A*AA", "image:1;1;rgb;****", "image:2;2;gray8;AA======",
        "image:1;1;rgb;=AA=", "image:1;1;gray8;A===", "image:2147483647;2;gray8;AA==", "image:1;1;rgb;AAA", "image:1;4;gray8;AAAAAA", "image:99999999999;1;gray8;", "image:1;1;GRAY8;QQ==", "image:1;1;gray8aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa;AA==",
        "data:", "data:;", "data:image/png", "data:image/png;", "data:image/png;=", "data:image/png;==", "data:image/png;iVBORw==", "data:image/jpeg;/9j/4AA=", "data:image/png;AAAAAAAA", "data:foo;AAAA", "data:;;;;", "data:image/png;*", "data:image/png;iVBORw0*AAAA", "data:image/png;A", "data:image/png;====",
        "file:", "file:/", "file://", "file://x", "http:", "http://x/y", ":", "::", "a:", "x", "-", "abcdefghijklmnopq:x", "abcdefghijklmnop:x", "abcdefghijklmno:x", "http", "file", "image", "data",
        "1,2,3,4", "1", "1,2,3", "1,2,3,4,5", "1,2,3,4,5,6", "1,2,3,4,5,6,7", "nan", "nan,nan,nan,3", "nan,1", "inf,inf,inf,inf", "mask:", "mask:1", "mask:1,2,3,4", "mask:0,0,2,2,1,2", "mask:0,0,-2,2,1", "mask:0,0,0,0,1", "mask:0,0,2,2,-5,2", "mask:0,0,99999,99999,1",
        "mask:0,0,2,2,1e30", "mask:0,0,65536,65536,5", "mask:0,0,3,3,1000000", "rect:1,2,3,4", "rect:1,2", "poly:1,2,3,4,5,6", "poly:1,2", "special:1", "special:", "special:1,2", "p:1,2,3,4,5,6", "m:0,0,2,2,1,2", "a:1,2,3,4", ":1,2,3,4", ",", ",,,", "1e99,1,1,1", "1e38,1e38,1e38,1e38", ",,,1", "nan,nan,nan,nan", "x,y,z,w"};
    switch (t.weighted({4, 2, 1, 1})) {
    case 0: return t.pick(a);
    case 1: { std::string s = t.pick(a); size_t n = 1 + t.below(4); for (size_t i = 0; i < n && !s.empty(); i++) { size_t p = t.below(s.size()); switch (t.below(3)) { case 0: s[p] = (char) (1 + t.below(255)); break; case 1: s.erase(p, 1 + t.below(4)); break; default: s.insert(p, t.pick(a).substr(0, 6)); } } return s; }
    case 2: return text(t, false);
    default: { std::string s = t.pick(a); size_t n = t.below(6000); static const std::string alpha = "ABCDwxyz0189+/=,;"; uint64_t st = t.below(1 << 16); while (s.size() < n) s += alpha[splitmix(st) % alpha.size()]; return s; }
    }
}
static std::string hostile_message(Tape &t, int nargs) {
    static const std::vector<std::string> names{"initialize", "frame", "state", "quit", "hello", "status", "foo", "", "FRAME", "frame frame"};
    auto esc = [](const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch) r += ch; } return r; };
    std::string m = "@@TRAX:" + names[t.weighted({5, 5, 4, 1, 1, 1, 1, 1, 1, 1})] + (t.chance(1, 12) ? "" : " ");
    size_t n = t.chance(2, 3) ? nargs : t.below(6);
    for (size_t i = 0; i < n; i++) { std::string a = hostile_argument(t); if (t.chance(1, 6)) m += a + " "; else m += "\"" + esc(a) + (t.chance(1, 20) ? "" : "\" "); }
    size_t p = t.below(3);
    for (size_t i = 0; i < p; i++) m += "\"" + (t.chance(1, 4) ? text_of(t, t.below(80)) : key(t)) + "=" + esc(text(t, false)) + "\" ";
    if (!t.chance(1, 12)) m += "\n";
    return m;
}
static std::string hostile_hello(Tape &t) {
    static const std::vector<std::string> ver{"4", "3", "2", "1", "0", "-1", "99", "", "x", "4.5", "2147483648", "1e10", "nan"};
    static const std::vector<std::string> fmt{"", ";", "rectangle;", "polygon;", "mask;", "path;", "memory;url;", "foo;", "rectangle;foo", " ;", "path", "color;", "color;depth;ir;", "ir;", "special;", ";;;", "depth"};
    std::string m = t.chance(1, 15) ? "@@TRAX:frame " : "@@TRAX:hello ";
    for (const char *k : {"trax.version", "trax.region", "trax.image", "trax.channels", "trax.multiobject", "trax.name"})
        if (t.chance(3, 4)) m += std::string("\"") + k + "=" + (std::string(k) == "trax.version" ? t.pick(ver) : std::string(k) == "trax.multiobject" ? t.pick(ver) : t.chance(2, 3) ? (std::string(k) == "trax.region" ? "rectangle;polygon;mask;" : std::string(k) == "trax.image" ? "path;memory;buffer;url;" : "color;") : t.pick(fmt)) + "\" ";
    if (t.chance(1, 12)) m += "\"" + text_of(t, t.below(20)) + "\" ";
    return m + "\n";
}
static std::string mutate(Tape &t, std::string s) {
    static const std::vector<std::string> tok{"@@TRAX:", "\n", "\"", "\\", " ", "=", "@@TRAX:quit \n", "@@TRAX:initialize \n", "@@TRAX:frame \n", "\"\" ", ",", ";", "0", "-", "9999999999", "\\\n", "nan", "mask:"};
    size_t n = 1 + t.below(6);
    for (size_t i = 0; i < n && !s.empty(); i++) {
        size_t p = t.below(s.size());
        switch (t.below(5)) {
        case 0: s[p] = (char) t.below(256); break;
        case 1: s.erase(p, 1 + t.size(40)); break;
        case 2: s.insert(p, t.pick(tok)); break;
        case 3: s.insert(p, s.substr(t.below(s.size()), 1 + t.size(80))); break;
        default: s.resize(p); break;
        }
    }
    return s;
}
static void inspect(const Request &q, const Config &k, trax_handle *probe) {
    for (int i = 0; i < 3; i++) {
        const MImage &m = q.im[i];
        if ((q.kind == TRAX_FRAME || q.kind == TRAX_INITIALIZE)) {
            check(!!(k.channels & CHANNEL_IDS[i]) == (m.type != 0), "images of a request do not match the announced channels");
            if (m.type) check(TRAX_SUPPORTS(k.images, m.type), "image of a type that was not announced", cat(m.type));
        }
        if (m.type == TRAX_IMAGE_BUFFER) check(m.format == TRAX_IMAGE_BUFFER_JPEG || m.format == TRAX_IMAGE_BUFFER_PNG, "image buffer of an undocumented format", cat(m.format));
    }
    (void) probe;
}
static void sound_region(trax_region *r) {
    MRegion a = observe(r);
    if (a.type == TRAX_REGION_MASK) { size_t all = (size_t) a.mw * a.mh; check(a.mw > 0 && a.mh > 0 && (all > (1u << 22) ? a.bits.size() > 0 : a.bits.size() == all), "mask of an impossible size"); }
    if (a.type == TRAX_REGION_POLYGON) check(a.pts.size() >= 3, "polygon with too few points");
    char *e = trax_region_encode(r); check(e != nullptr, "delivered region cannot be encoded", show(a)); free(e);
    trax_region *cl = trax_region_clone(r); check(cl != nullptr, "delivered region cannot be cloned"); check(dump(observe(cl)) == dump(a), "clone differs"); trax_region_release(&cl);
}
static void c06_server(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4);
    int nch = 0; for (int id : CHANNEL_IDS) if (k.channels & id) nch++;
    std::string b;
    switch (t.weighted({4, 3, 1})) {
    case 0: { size_t n = 1 + t.below(6); for (size_t i = 0; i < n; i++) b += hostile_message(t, k.version >= 4 ? (t.flip() ? 1 : nch) : nch + (int) t.below(2)); break; }
    case 1: { Recorded r = record(t, k, 3, false, t.flip()); b = mutate(t, r.c2s); break; }
    default: b = bytes(t, t.below(3000)); break;
    }
    c.note(cat("server ", k.show(), " fed ", quote(b, 600)));
    lnk::init();
    Channel in, sink, hello, back; in.bytes = b; in.closed = true; in.rd = Frag::draw(t);
    Meta m(k);
    trax_handle *h = trax_server_setup_file_v(m.m, lnk::reader(&in), lnk::writer(&sink), trax_no_log, k.version);
    check(h != nullptr, "server setup failed");
    // a second endpoint that passes everything on again
    hello.bytes = "@@TRAX:hello \"trax.version=4\" \"trax.region=rectangle;polygon;mask;\" \"trax.image=path;url;memory;buffer;\" \"trax.channels=color;\" \"trax.multiobject=1\" \n";
    trax_handle *fwd = trax_client_setup_file(lnk::reader(&hello), lnk::writer(&back), trax_no_log);
    check(fwd != nullptr, "forwarding client failed");
    int delivered = 0, errors = 0; size_t calls = 0;
    while (errors < 3 && calls < b.size() / 8 + 8) {
        calls++;
        trax_image_list *il = NULL; trax_object_list *ol = NULL; trax_region *r = NULL; Props pr; int kind;
        if (k.version >= 4) kind = trax_server_wait_mot(h, &il, &ol, pr.p); else kind = trax_server_wait_sot(h, &il, &r, pr.p);
        check(kind == TRAX_ERROR || kind == TRAX_QUIT || kind == TRAX_INITIALIZE || kind == TRAX_FRAME, "undocumented result of a server wait", cat(kind)); explained(h, kind, "server wait");
        if (kind == TRAX_ERROR || kind == TRAX_QUIT) { errors++; if (kind == TRAX_QUIT) break; continue; }
        delivered++;
        Request q; q.kind = kind; q.im = observe(il); inspect(q, k, fwd);
        for (int i = 0; i < 3; i++) if (trax_image *im = trax_image_list_get(il, CHANNEL_IDS[i])) {
            trax_image_list *one = trax_image_list_create(); trax_image_list_set(one, im, TRAX_CHANNEL_COLOR);
            check(trax_client_frame(fwd, one, NULL, NULL) == TRAX_OK, "delivered image cannot be passed on");
            trax_image_list_release(&one);
        }
        if (kind == TRAX_INITIALIZE && k.version >= 4) check(ol != nullptr, "initialize without objects");
        if (kind == TRAX_INITIALIZE && k.version < 4) check(r != nullptr, "initialize without a region");
        if (ol) { for (int i = 0; i < trax_object_list_count(ol); i++) { sound_region(trax_object_list_get(ol, i)); observe(trax_object_list_properties(ol, i)); } }
        if (r) { sound_region(r); }
        observe(pr.p);
        // the tracker goes on as usual
        if (k.version >= 4) { Objects o(MObjects((size_t) std::max(0, h->objects), MObject())); trax_server_reply_mot(h, o.l); }
        else { trax_region *a = trax_region_create_special(0); trax_server_reply_sot(h, a, NULL); trax_region_release(&a); }
        if (il) { trax_image_list_clear(il); trax_image_list_release(&il); }
        if (ol) trax_object_list_release(&ol);
        if (r) trax_region_release(&r);
    }
    trax_cleanup(&h); trax_cleanup(&fwd);
    c.nontrivial = b.size() > 10;
    c.tag("server");
    if (delivered) c.tag("server accepted a request");
    if (errors) c.tag("server reported an error");
}
// the client's own regions stay small: what is converted to a mask should fit
static void tame(MRegion &r) {
    auto small = [](float v) { return std::fabs(v) <= 300 ? v : (float) std::fmod(v, 300.f); };
    r.w = small(r.w); r.h = small(r.h);
    for (auto &p : r.pts) { p.first = small(p.first); p.second = small(p.second); }
}
static void c06_client(Tape &t, Ctx &c) {
    std::string b; std::vector<Step> steps; Config k = config(t, 1, 4);
    switch (t.weighted({4, 3, 1})) {
    case 0: { if (t.chance(4, 5)) b = hostile_hello(t); size_t n = 1 + t.below(6); for (size_t i = 0; i < n; i++) b += t.chance(2, 3) ? "@@TRAX:state \"" + std::string(1, ' ').substr(1) + hostile_argument(t) + "\" \n" : hostile_message(t, 1); break; }
    case 1: { Recorded r = record(t, k, 3, false, t.flip()); b = mutate(t, r.s2c); steps = r.steps; break; }
    default: b = (t.flip() ? hostile_hello(t) : "") + bytes(t, t.below(3000)); break;
    }
    if (steps.empty()) {
        Config all; all.images = TRAX_IMAGE_PATH; all.channels = 7; all.regions = TRAX_REGION_ANY; all.multi = t.flip();
        int n = 0; size_t cnt = 1 + t.below(4);
        for (size_t i = 0; i < cnt; i++) { Step s = step(t, all, n, false); s.answer.clear(); n = s.init ? (int) s.ob.size() : n + (int) s.ob.size(); steps.push_back(s); }
    } else for (auto &s : steps) for (auto &i : s.im) if (!i.type) { i.type = TRAX_IMAGE_PATH; i.s = "x"; }
    for (auto &s : steps) for (auto &o : s.ob) tame(o.r);
    c.note(cat("client fed ", quote(b, 600), " making ", steps.size(), " requests"));
    auto x = client_transcript(steps, b, Frag::draw(t), 3, 2);
    int states = 0;
    for (auto &e : x) if (e.kind == TRAX_STATE) { states++; for (auto &o : e.r.st) { if (o.r.type == TRAX_REGION_MASK && o.r.bits.size() != (size_t) o.r.mw * o.r.mh) continue; trax_region *r = make(o.r); sound_region(r); trax_region_release(&r); } }
    c.nontrivial = b.size() > 10;
    c.tag("client");
    if (x[0].kind == -2) c.tag("client refused the hello");
    if (states) c.tag("client accepted a state");
}
static void c06(Tape &t, Ctx &c) { if (t.below(5) < 3) c06_server(t, c); else c06_client(t, c); }
static Register r06({"C06", "a byte stream built from hostile messages, mutated sessions or raw bytes, fed to a server or a client of a generated configuration; everything delivered is inspected, encoded and released under the sanitizers; non-trivial when the stream has more than 10 bytes", c06, 20, true, 300, 8, {"the library is built with AddressSanitizer and UndefinedBehaviorSanitizer; allocations are refused above a limit"}});

// ================================================================== C07
static std::string list_of(int mask, const std::vector<std::pair<int, std::string>> &names, Tape &t, bool shuffle) {
    std::vector<std::string> v; for (auto &n : names) if (mask & n.first) v.push_back(n.second);
    if (shuffle) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[t.below(i)]);
    std::string s; for (size_t i = 0; i < v.size(); i++) s += v[i] + ((i + 1 < v.size() || !shuffle || t.flip()) ? ";" : "");
    return s;
}
static const std::vector<std::pair<int, std::string>> REGION_NAMES{{TRAX_REGION_RECTANGLE, "rectangle"}, {TRAX_REGION_POLYGON, "polygon"}, {TRAX_REGION_MASK, "mask"}};
static const std::vector<std::pair<int, std::string>> IMAGE_NAMES{{TRAX_IMAGE_PATH, "path"}, {TRAX_IMAGE_URL, "url"}, {TRAX_IMAGE_MEMORY, "memory"}, {TRAX_IMAGE_BUFFER, "buffer"}};
static const std::vector<std::pair<int, std::string>> CHANNEL_NAMES{{TRAX_CHANNEL_COLOR, "color"}, {TRAX_CHANNEL_DEPTH, "depth"}, {TRAX_CHANNEL_IR, "ir"}};
static void see_capabilities(trax_handle *h, const Config &k, const MProps &custom) {
    trax_metadata *m = h->metadata; int v = -1;
    auto str = [](const char *p) { return p ? quote(p) : std::string("none"); };
    check(trax_get_parameter(h, TRAX_PARAMETER_VERSION, &v) && v == k.version, "protocol version differs", cat("wanted ", k.version, ", got ", v));
    check(m->format_region == k.regions, "region formats differ", cat("wanted ", k.regions, ", got ", m->format_region));
    check(m->format_image == k.images, "image formats differ", cat("wanted ", k.images, ", got ", m->format_image));
    check(m->channels == k.channels, "channels differ", cat("wanted ", k.channels, ", got ", m->channels));
    v = -1; check(trax_get_parameter(h, TRAX_PARAMETER_MULTIOBJECT, &v) && v == (k.multi ? 1 : 0), "multi-object support differs", cat("wanted ", k.multi, ", got ", v));
    check(!!(m->flags & TRAX_METADATA_MULTI_OBJECT) == k.multi, "multi-object flag differs");
    check(str(m->tracker_name) == (k.has_name ? quote(k.name) : "none"), "tracker name differs", str(m->tracker_name));
    check(str(m->tracker_description) == (k.has_desc ? quote(k.desc) : "none"), "tracker description differs", str(m->tracker_description));
    check(str(m->tracker_family) == (k.has_family ? quote(k.family) : "none"), "tracker family differs", str(m->tracker_family));
    same(custom, observe(m->custom), "hello");
    v = -1; check(trax_get_parameter(h, TRAX_PARAMETER_CLIENT, &v) && v == 1, "client handle does not say it is a client");
}
static void c07(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4); config_text(t, k);
    k.multi = t.flip();
    if (t.below(2) == 0) {                         // announced through the library
        if (t.chance(1, 3)) k.custom["trax.foo"] = text(t, false);
        if (t.chance(1, 10)) k.custom["trax.version"] = "7";
        MProps custom; for (auto &kv : k.custom) if (kv.first.compare(0, 5, "trax.")) custom.insert(kv);
        Session s(t, k, true);
        if (t.chance(1, 6) && k.version == 4) s.k.version = 0;     // 0 means the newest
        s.start();
        Config e = k; if (k.version < 4) e.multi = false;           // only version 4 knows multiple objects
        see_capabilities(s.cli, e, custom);
        int v = -1; check(trax_get_parameter(s.srv, TRAX_PARAMETER_MULTIOBJECT, &v) && v == (e.multi ? 1 : 0), "server's own multi-object parameter differs", cat(v));
        check(trax_get_parameter(s.srv, TRAX_PARAMETER_VERSION, &v) && v == k.version, "server's own version differs");
        check(trax_get_parameter(s.srv, TRAX_PARAMETER_CLIENT, &v) && v == 0, "server handle says it is a client");
        c.note(e.show() + " name " + quote(k.name, 40) + " custom " + gen::show(k.custom));
        c.tag("announced through the library"); c.nontrivial = true;
        return;
    }
    // hello written by hand, with any subset of the settings
    std::vector<std::pair<std::string, std::string>> p; Config e; e.regions = TRAX_REGION_RECTANGLE; e.images = TRAX_IMAGE_PATH; e.channels = TRAX_CHANNEL_COLOR; e.version = 1; e.multi = false;
    int missing = 0; bool shuffle = t.flip();
    if (t.chance(3, 4)) { p.push_back({"trax.version", cat(k.version)}); e.version = k.version; } else missing++;
    if (t.chance(3, 4)) { p.push_back({"trax.region", list_of(k.regions, REGION_NAMES, t, shuffle)}); e.regions = k.regions; } else missing++;
    if (t.chance(3, 4)) { p.push_back({"trax.image", list_of(k.images, IMAGE_NAMES, t, shuffle)}); e.images = k.images; } else missing++;
    if (t.chance(3, 4)) { int ch = (int) (1 + t.below(7)); p.push_back({"trax.channels", list_of(ch, CHANNEL_NAMES, t, shuffle)}); if (e.version >= 2) e.channels = ch; } else missing++;
    if (t.flip()) { bool on = t.flip(); p.push_back({"trax.multiobject", on ? "1" : "0"}); e.multi = on && e.version >= 4; }
    if ((e.has_name = k.has_name)) { p.push_back({"trax.name", k.name}); e.name = k.name; }
    if ((e.has_desc = k.has_desc)) { p.push_back({"trax.description", k.desc}); e.desc = k.desc; }
    if ((e.has_family = k.has_family)) { p.push_back({"trax.family", k.family}); e.family = k.family; }
    if (t.chance(1, 3)) p.push_back({"trax.identifier", text(t, false)});
    for (auto &kv : k.custom) p.push_back(kv);
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[t.below(i)]);
    Spelled m; m.name = "hello"; m.props = p;
    int refuse = t.weighted({6, 1, 1, 1});
    std::string b;
    if (refuse == 1) { m.args.push_back(text(t, false)); }
    if (refuse == 1 && m.args[0].find('=') != std::string::npos) m.args[0] = "word";
    if (refuse == 2) { static const std::vector<std::string> other{"frame", "initialize", "state", "quit"}; m.name = t.pick(other); }
    if (refuse != 3) b = canonical(m);
    lnk::init();
    Channel in, out; in.bytes = b; in.closed = refuse == 3 || t.flip(); in.rd = Frag::draw(t);
    trax_handle *h = trax_client_setup_file(lnk::reader(&in), lnk::writer(&out), trax_no_log);
    c.note(quote(b, 500) + (refuse ? " must be refused" : ""));
    if (refuse) { check(h == nullptr, "client accepted an invalid start of the session", quote(b, 200)); check(out.bytes.empty(), "something was sent to a tracker that was refused"); }
    else { check(h != nullptr, "client refused a valid hello", quote(b, 200)); see_capabilities(h, e, k.custom); trax_cleanup(&h); }
    c.tag(refuse ? "refused hello" : missing ? "hello with settings left out" : "complete hello written by hand");
    c.nontrivial = p.size() >= 2 || refuse;
}
static Register r07({"C07", "a generated capability set announced through the library or by a hand-written hello message with settings left out, or an invalid first message; non-trivial when at least two settings are present or the start must be refused", c07, 20, true, 300, 8, {ASSUME_LINK}});

// ================================================================== C08, C09
static void run_session(Tape &t, Ctx &c, const Config &k) {
    Session s(t, k, t.chance(1, 3));
    s.start();
    size_t n = 1 + t.below(12); int inits = 0, added = 0;
    c.note(k.show());
    for (size_t i = 0; i < n; i++) {
        if (s.objects > 0 && t.chance(1, 8)) {            // several frames under way at once
            size_t m = 2 + t.below(3); std::vector<Step> q;
            for (size_t j = 0; j < m; j++) { Step x = step(t, k, s.objects, false); if (x.init || !x.ob.empty()) { x.init = false; x.ob.clear(); x.answer = objects(t, k, s.objects, true, false); } q.push_back(x); }
            for (auto &x : q) check(s.request(x) == TRAX_OK, "client request refused", s.err(s.cli));
            for (auto &x : q) { Request r = s.serve(); Session::compare(s.expected(x), r, s.err(s.srv)); check(s.answer(x.answer) == TRAX_OK, "server reply refused", s.err(s.srv)); }
            for (auto &x : q) s.compare_reply(x.answer, s.receive());
            c.tag("pipelined frames");
            continue;
        }
        Step x = step(t, k, s.objects, false);
        c.note(ses::show(x));
        if (x.init) inits++; else if (!x.ob.empty()) added++;
        int r = s.request(x);
        check(r == TRAX_OK, "client request refused", cat(r, " ", s.err(s.cli)));
        s.account(x);
        Request q = s.serve();
        Session::compare(s.expected(x), q, s.err(s.srv));
        if (s.v4 && t.chance(1, 4)) {                     // a reply with another number of states is not accepted
            int wrong = (int) t.below(s.objects + 3);
            if (wrong != s.objects && wrong >= 0) {
                size_t sent = s.s2c.bytes.size();
                MObjects bad = objects(t, k, wrong, true, false);
                check(s.answer(bad) == TRAX_ERROR, "reply with a wrong number of states was accepted", cat(wrong, " instead of ", s.objects));
                check(s.s2c.bytes.size() == sent, "refused reply was sent");
            }
        }
        r = s.answer(x.answer);
        check(r == TRAX_OK, "server reply refused", cat(r, " ", s.err(s.srv)));
        s.compare_reply(x.answer, s.receive());
        check(!lnk::st().blocked, "an endpoint waits for more than was sent");
    }
    if (inits > 1) c.tag("re-initialization"); if (added) c.tag("objects added on the way"); if (s.objects > 5) c.tag("many objects");
    c.nontrivial = n >= 3 && (inits > 1 || added || s.objects > 1 || !s.v4);
}
static void c08(Tape &t, Ctx &c) { run_session(t, c, config(t, 4, 4)); }
static Register r08({"C08", "a legal version 4 session of up to 12 generated requests checked against a model of the tracked objects; non-trivial when it has at least three requests and a re-initialization, added objects or several objects", c08, 20, true, 200, 8, {ASSUME_LINK}});
static void c09(Tape &t, Ctx &c) {
    Config k = config(t, 1, 3);
    run_session(t, c, k);
    // exactly one object at initialization, none later
    Session s(t, k, false); s.start();
    Step x = step(t, k, 0, false); size_t sent = s.c2s.bytes.size();
    Step none = x; none.ob.clear(); check(s.request(none) == TRAX_ERROR, "initialization without objects accepted");
    Step two = x; two.ob.push_back(two.ob[0]); check(s.request(two) == TRAX_ERROR, "initialization with two objects accepted");
    check(s.c2s.bytes.size() == sent, "refused initialization was sent");
    s.exchange(x);
    sent = s.c2s.bytes.size();
    Step add = step(t, k, 1, false); add.init = false; add.ob = x.ob; check(s.request(add) == TRAX_ERROR, "object added in a single-object session");
    check(s.c2s.bytes.size() == sent, "refused frame was sent");
}
static Register r09({"C09", "a legal version 1 to 3 session of up to 12 generated requests checked against a model, plus refused object counts; non-trivial when it has at least three requests", c09, 20, true, 200, 8, {ASSUME_LINK}});

// ================================================================== C10
static void readable(trax_handle *h, const std::string &what) {
    const char *e = trax_get_error(h);
    check(e && *e, "refused call left no error message", what);
    std::string s(e); long long v = 0; bool num = false;
    for (size_t i = 0; i <= s.size(); i++) {
        unsigned char ch = i < s.size() ? (unsigned char) s[i] : ' ';
        check(ch >= 32 && ch < 127, "error message is not readable", what + ": " + quote(s));
        if (isdigit(ch)) { v = std::min<long long>(v * 10 + (ch - '0'), 1ll << 60); num = true; } else { check(!num || v < 1000000, "error message with a senseless number", what + ": " + quote(s)); v = 0; num = false; }
    }
    check(s.find('%') == std::string::npos, "error message with unexpanded format", what + ": " + quote(s));
}
static void no_error(trax_handle *h, const char *what) { const char *e = trax_get_error(h); check(e == NULL, "successful call left a stale error message", cat(what, ": ", e ? e : "")); }

// one refused call; returns false if none of the drawn kind exists in this state
static bool refused(Tape &t, Ctx &c, Session &s, bool server_turn) {
    const Config &k = s.k; bool v4 = s.v4;
    size_t c0 = s.c2s.bytes.size(), s0 = s.s2c.bytes.size(), r0 = s.c2s.rpos, r1 = s.s2c.rpos; int reads = lnk::st().reads;
    std::string what; int result = TRAX_ERROR; trax_handle *h = s.cli;
    auto full = [&]() { Step x = step(t, k, s.objects, false); return x; };
    auto drop_channel = [&](Step &x) { std::vector<int> have; for (int i = 0; i < 3; i++) if (k.channels & CHANNEL_IDS[i]) have.push_back(i); x.im[t.pick(have)] = MImage(); };
    if (!server_turn) {
        switch (t.below(9)) {
        case 0: { what = "initialize without objects"; Step x = full(); x.init = true; x.ob.clear(); result = s.request(x); break; }
        case 1: { if (k.multi) return false; what = "initialize with too many objects"; Step x = full(); x.init = true; x.ob = objects(t, k, 2 + t.below(3), false, false); result = s.request(x); break; }
        case 2: { what = "initialize with a missing channel image"; Step x = full(); x.init = true; if (x.ob.empty()) x.ob = objects(t, k, 1, false, false); drop_channel(x); result = s.request(x); break; }
        case 3: { if (s.objects == 0) return false; what = "frame with a missing channel image"; Step x = full(); x.init = false; x.ob.clear(); drop_channel(x); result = s.request(x); break; }
        case 4: { if (s.objects == 0 || k.multi) return false; what = "frame with too many objects"; Step x = full(); x.init = false; x.ob = objects(t, k, 1, false, false); result = s.request(x); break; }
        case 5: { if (s.objects == 0 || !k.multi) return false; what = "frame with new objects and a missing channel image"; Step x = full(); x.init = false; x.ob = objects(t, k, 1 + t.below(2), false, false); drop_channel(x); result = s.request(x); break; }
        case 6: { what = "initialize with a region that cannot be converted"; Step x = full(); x.init = true; x.ob = objects(t, k, k.multi ? 1 + t.below(3) : 1, false, false); x.ob.back().r = special(t); result = s.request(x); break; }
        case 7: {      // a slot that was never set holds a special region
            bool init = s.objects == 0 || !k.multi || t.flip(); what = init ? "initialize with an object that was never set" : "frame with an object that was never set";
            Step x = full(); size_t cnt = k.multi ? 1 + t.below(3) : 1; Images il(x.im); Props pr(x.p); Objects have(objects(t, k, cnt, false, false)), ol(trax_object_list_create((int) cnt));
            size_t hole = t.below(cnt); for (size_t i = 0; i < cnt; i++) if (i != hole) trax_object_list_set(ol.l, (int) i, trax_object_list_get(have.l, (int) i));
            result = init ? trax_client_initialize(s.cli, il.l, ol.l, pr.p) : trax_client_frame(s.cli, il.l, ol.l, pr.p); break; }
        default: { if (s.objects) return false; what = "wait before any object was given"; result = s.receive().kind; break; }
        }
    } else {
        h = s.srv;
        switch (t.below(5)) {
        case 4: {
            if (!v4 || s.objects == 0) return false;
            what = "reply with a missing region"; Objects ol(objects(t, k, s.objects, true, false)); trax_object_list_set(ol.l, (int) t.below(s.objects), NULL); result = trax_server_reply_mot(s.srv, ol.l); break; }
        case 3: {
            if (v4) return false;
            what = "reply without a region"; Props pr; result = trax_server_reply_sot(s.srv, NULL, t.flip() ? pr.p : NULL); break; }
        case 0: { if (!v4) return false; what = "reply with a wrong number of states"; int n = (int) t.below(s.objects + 4); if (n == s.objects) return false; result = s.answer(objects(t, k, n, true, false)); break; }
        case 1: { if (!v4) return false; what = "single-object reply in a version 4 session"; trax_region *r = make(rectangle(t)); result = trax_server_reply_sot(s.srv, r, NULL); trax_region_release(&r); break; }
        default: { if (!v4) return false; what = "single-object wait in a version 4 session"; trax_image_list *il = NULL; trax_region *r = NULL; Props p; result = trax_server_wait_sot(s.srv, &il, &r, p.p); check(il == NULL && r == NULL, "refused wait handed something out"); break; }
        }
    }
    c.note("refused: " + what); c.tag(what.c_str());
    check(result == TRAX_ERROR, "call that must be refused succeeded", cat(what, ": ", result));
    readable(h, what);
    check(s.c2s.bytes.size() == c0 && s.s2c.bytes.size() == s0, "refused call sent something", what + ": " + quote(s.c2s.bytes.substr(c0) + s.s2c.bytes.substr(s0)));
    check(lnk::st().reads == reads && s.c2s.rpos == r0 && s.s2c.rpos == r1, "refused call consumed input", what);
    check(trax_is_alive(s.cli) && trax_is_alive(s.srv), "refused call ended the session", what);
    return true;
}
static void c10(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4);
    Session s(t, k, false); s.start();
    size_t n = 1 + t.below(8); int bad = 0;
    c.note(k.show());
    for (size_t i = 0; i < n; i++) {
        for (size_t j = t.below(4); j > 0; j--) bad += refused(t, c, s, false);
        Step x = step(t, k, s.objects, false);
        c.note(ses::show(x));
        check(s.request(x) == TRAX_OK, "legal request refused", s.err(s.cli)); no_error(s.cli, "request");
        s.account(x);
        Request q = s.serve(); Session::compare(s.expected(x), q, s.err(s.srv)); no_error(s.srv, "server wait");
        for (size_t j = t.below(4); j > 0; j--) bad += refused(t, c, s, true);
        check(s.answer(x.answer) == TRAX_OK, "legal reply refused", s.err(s.srv)); no_error(s.srv, "server reply");
        s.compare_reply(x.answer, s.receive()); no_error(s.cli, "client wait");
    }
    if (t.flip()) {       // the end: nothing works any more, with a message
        bool by_client = t.flip();
        if (by_client) { trax_terminate(s.cli, NULL); s.serve(); } else { trax_terminate(s.srv, "x"); s.receive(); }
        size_t c0 = s.c2s.bytes.size(), s0 = s.s2c.bytes.size();
        Step x = step(t, k, s.objects, false);
        check(s.request(x) == TRAX_ERROR, "request accepted after the end"); readable(s.cli, "request after the end");
        check(s.receive().kind == TRAX_ERROR, "wait succeeded after the end"); readable(s.cli, "wait after the end");
        check(s.serve().kind == TRAX_ERROR, "server wait succeeded after the end"); readable(s.srv, "server wait after the end");
        check(s.answer(x.answer) == TRAX_ERROR, "reply accepted after the end"); readable(s.srv, "reply after the end");
        check(s.c2s.bytes.size() == c0 && s.s2c.bytes.size() == s0, "something was sent after the end");
        bad += 4;
    }
    c.nontrivial = bad > 0;
}
static Register r10({"C10", "a legal session with calls that must be refused inserted between its steps, on both sides; every refused call must send, consume and change nothing; non-trivial when at least one such call was made", c10, 20, true, 200, 8, {ASSUME_LINK}});

// ================================================================== C11
static size_t count_quit(const std::string &b) { size_t n = 0, p = 0; while (p < b.size()) { size_t e = b.find('\n', p); if (e == std::string::npos) e = b.size(); if (b.compare(p, 11, "@@TRAX:quit") == 0) n++; p = e + 1; } return n; }
static void c11(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4);
    bool have_client = !t.chance(1, 20);
    Session s(t, k, t.chance(1, 4)); s.start_server(); if (have_client) s.start_client();
    c.note(k.show());
    size_t n = have_client ? t.below(4) : 0;
    for (size_t i = 0; i < n; i++) s.exchange(step(t, k, s.objects, false));
    int where = have_client ? (int) t.below(4) : 0;   // 0 between exchanges, 1 after a request, 2 after the server took it, 3 after the reply
    Step x = have_client ? step(t, k, s.objects, false) : Step();
    if (where >= 1) { check(s.request(x) == TRAX_OK, "request refused", s.err(s.cli)); s.account(x); }
    if (where >= 2) Session::compare(s.expected(x), s.serve(), s.err(s.srv));
    if (where >= 3) check(s.answer(x.answer) == TRAX_OK, "reply refused");
    bool by_client = have_client && t.flip(); bool cleanup = t.flip(); bool both = have_client && t.chance(1, 6);
    std::string reason = text(t, true); bool has_reason = t.chance(2, 3);
    trax_handle *&actor = by_client ? s.cli : s.srv, *&other = by_client ? s.srv : s.cli;
    Channel &out = by_client ? s.c2s : s.s2c, &back = by_client ? s.s2c : s.c2s;
    c.note(cat(by_client ? "client" : "server", cleanup ? " cleans up" : " terminates", " at point ", where, has_reason && !cleanup ? " with reason " + quote(reason, 60) : ""));
    check(trax_is_alive(actor), "not alive before the end");
    if (both) check(trax_terminate(other, has_reason ? reason.c_str() : NULL) == TRAX_OK, "terminate failed");
    if (cleanup) { check(trax_cleanup(&actor) == 0 && actor == NULL, "cleanup failed"); }
    else check(trax_terminate(actor, has_reason ? reason.c_str() : NULL) == TRAX_OK, "terminate failed");
    check(count_quit(out.bytes) == 1, "not exactly one quit message", cat(count_quit(out.bytes)));
    auto dead = [&](trax_handle *h, bool client) {
        size_t a = s.c2s.bytes.size(), b = s.s2c.bytes.size(); int reads = lnk::st().reads;
        check(!trax_is_alive(h), "alive after the end");
        if (client) {
            Step y = step(t, k, s.objects, false);
            check(s.request(y) == TRAX_ERROR, "request accepted after the end"); check(s.receive().kind == TRAX_ERROR, "wait succeeded after the end");
        } else {
            check(s.serve().kind == TRAX_ERROR, "server wait succeeded after the end");
            check(s.answer(objects(t, k, std::max(1, s.objects), true, false)) == TRAX_ERROR, "reply accepted after the end");
        }
        check(trax_terminate(h, "again") == TRAX_OK, "second terminate failed");
        check(s.c2s.bytes.size() == a && s.s2c.bytes.size() == b, "something was sent after the end");
        check(lnk::st().reads == reads, "something was read after the end");
    };
    if (actor) dead(actor, by_client);
    if (have_client && !both) {
        check(trax_is_alive(other), "the other side ended by itself");
        if (by_client) {
            if (where == 1) Session::compare(s.expected(x), s.serve(), s.err(s.srv));    // what was sent before is still delivered
            Request q = s.serve(!(s.lazy & 8)); check(q.kind == TRAX_QUIT, "server did not see the termination", cat(q.kind, " ", s.err(s.srv)));
            check(q.im == MImages(3) && !q.has_ob, "termination with images or objects");
        } else if (s.objects > 0) {
            if (where == 3) s.compare_reply(x.answer, s.receive());
            bool ask = !(s.lazy & 8);
            Reply r = s.receive(ask); check(r.kind == TRAX_QUIT, "client did not see the termination", cat(r.kind, " ", s.err(s.cli)));
            MProps want; if (has_reason && !cleanup) want["trax.reason"] = reason;
            if (ask) same(want, r.p, "quit"); else c.tag("termination without asking for properties");
        } else trax_terminate(other, NULL);
        dead(other, !by_client);
    } else if (both) dead(other, !by_client);
    size_t a = count_quit(s.c2s.bytes), b = count_quit(s.s2c.bytes);
    if (actor) trax_cleanup(&actor);
    if (other) { trax_cleanup(&other); }
    check(actor == NULL && other == NULL, "cleanup left a handle");
    check(count_quit(s.c2s.bytes) == a && count_quit(s.s2c.bytes) == b, "cleanup after the end sent something");
    check(trax_cleanup(&actor) == -1, "cleanup of nothing");
    (void) back;
    c.nontrivial = have_client && (n > 0 || where > 0);
    c.tag(by_client ? "ended by the client" : "ended by the server"); if (both) c.tag("both sides at once");
}
static Register r11({"C11", "a session ended by terminate or cleanup of either side at a generated point; non-trivial when at least one request was made before", c11, 20, true, 200, 8, {ASSUME_LINK, "a client that has no object yet does not wait for states, so it cannot see a termination before its first request"}});

// ================================================================== C12
static void c12(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4);
    bool refuse = t.chance(1, 5) && k.images != TRAX_IMAGE_ANY;
    Session s(t, k, t.chance(1, 3)); s.start();
    size_t n = 1 + t.below(4);
    c.note(k.show());
    for (size_t i = 0; i < n; i++) {
        Step x; x.init = i == 0; if (x.init) x.ob.push_back({rectangle(t), {}});
        if (x.init && !(k.regions & TRAX_REGION_RECTANGLE)) x.ob[0].r = region(t, k.regions);
        int given = k.channels | (int) t.below(8);
        x.im = images(t, given, k.images, true);
        for (auto &im : x.im) { c.note(gen::show(im)); if (im.type == TRAX_IMAGE_MEMORY) c.tag("raw pixels"); if (im.type == TRAX_IMAGE_BUFFER) c.tag("encoded buffer"); if (im.type == TRAX_IMAGE_URL) c.tag("url"); if (im.type == TRAX_IMAGE_PATH) c.tag("path"); }
        x.answer = objects(t, k, 1, true, false);
        s.exchange(x);
    }
    if (refuse) {
        Step x; x.init = false; x.im = images(t, k.channels, k.images, false);
        std::vector<int> have; for (int i = 0; i < 3; i++) if (k.channels & CHANNEL_IDS[i]) have.push_back(i);
        x.im[t.pick(have)] = image(t, TRAX_IMAGE_ANY & ~k.images, false);
        int r = s.request(x);
        if (r == TRAX_OK) check(s.serve().kind == TRAX_ERROR, "image in a format that was not announced was delivered");
        c.tag("refused format"); c.note("then an image of another format");
    }
    c.nontrivial = true;
}
static Register r12({"C12", "a session whose requests carry generated images of every kind on generated channels; every case is non-trivial (at least one image is sent)", c12, 20, true, 200, 8, {ASSUME_LINK, "URLs have a lower-case scheme of at most 15 letters other than file, image and data; image buffers start with a JPEG or PNG signature, which the constructor requires"}});

// ================================================================== C19
static void c19(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4);
    Session s(t, k, false); s.start();
    c.note(k.show());
    size_t n = 1 + t.below(4); int converted = 0, refused = 0;
    for (size_t i = 0; i < n; i++) {
        Step x; bool first = s.objects == 0; x.init = first || t.flip() || !k.multi;
        size_t cnt = k.multi ? 1 + t.below(3) : 1;
        bool impossible = t.chance(1, 5);
        for (size_t j = 0; j < cnt; j++) {
            MObject o;
            // whole-pixel shapes, so that the described area is exact
            switch (t.below(3)) {
            case 0: o.r.type = TRAX_REGION_RECTANGLE; o.r.x = (float) t.range(-30, 200); o.r.y = (float) t.range(-30, 200); o.r.w = (float) t.range(1, 40); o.r.h = (float) t.range(1, 40); break;
            case 1: { o.r.type = TRAX_REGION_POLYGON; int px = (int) t.range(-30, 200), py = (int) t.range(-30, 200), w = (int) t.range(0, 40), h = (int) t.range(0, 40);
                o.r.pts = {{(float) px, (float) py}, {(float) (px + w), (float) py}, {(float) (px + w), (float) (py + h)}, {(float) px, (float) (py + h)}}; break; }
            default: o.r = mask(t, 20, false); break;
            }
            x.ob.push_back(o);
        }
        if (impossible) x.ob[t.below(cnt)].r = special(t);
        x.im = images(t, k.channels, k.images, false);
        x.answer = objects(t, k, (x.init ? 0 : s.objects) + cnt, true, false);
        size_t sent = s.c2s.bytes.size();
        int r = s.request(x);
        c.note(cat(x.init ? "initialize" : "add", " ", cnt, " ", gen::show(x.ob[0].r)));
        if (impossible) {
            check(r == TRAX_ERROR, "region that cannot be converted was accepted"); readable(s.cli, "unconvertible region");
            check(s.c2s.bytes.size() == sent, "refused call sent something");
            refused++; continue;
        }
        check(r == TRAX_OK, "request refused", s.err(s.cli));
        s.account(x);
        Request q = s.serve();
        check(q.kind == (x.init ? TRAX_INITIALIZE : TRAX_FRAME), "server did not get the request", cat(q.kind, " ", s.err(s.srv)));
        check(q.ob.size() == cnt, "number of objects differs", cat(q.ob.size()));
        for (size_t j = 0; j < cnt; j++) {
            const MRegion &w = x.ob[j].r, &g = q.ob[j].r;
            check(TRAX_SUPPORTS(k.regions, g.type), "region of a type that was not announced", gen::show(g));
            if (TRAX_SUPPORTS(k.regions, w.type)) { same(w, g, "announced type"); continue; }
            converted++;
            // the pixel box around the area stays the same, and so do the pixels when the target can show them
            auto box = [](const MRegion &r) { float l, tp, rt, b;
                if (r.type == TRAX_REGION_RECTANGLE) { l = r.x; tp = r.y; rt = r.x + r.w - 1; b = r.y + r.h - 1; }
                else if (r.type == TRAX_REGION_POLYGON) { l = rt = r.pts[0].first; tp = b = r.pts[0].second; for (auto &p : r.pts) { l = std::min(l, p.first); rt = std::max(rt, p.first); tp = std::min(tp, p.second); b = std::max(b, p.second); } }
                else { l = tp = 1e9f; rt = b = -1e9f; for (int y = 0; y < r.mh; y++) for (int xx = 0; xx < r.mw; xx++) if (r.bits[(size_t) y * r.mw + xx]) { l = std::min(l, (float) (r.mx + xx)); rt = std::max(rt, (float) (r.mx + xx)); tp = std::min(tp, (float) (r.my + y)); b = std::max(b, (float) (r.my + y)); } }
                return std::vector<float>{l, tp, rt, b}; };
            auto a = box(w), b = box(g);
            // a polygon's rectangle is the smallest one around its corners, which may or may not count the last row and column
            float slack = w.type == TRAX_REGION_POLYGON && g.type == TRAX_REGION_RECTANGLE ? 1 : 0;
            for (int e = 0; e < 4; e++) check(std::fabs(a[e] - b[e]) <= (e >= 2 ? slack : 0), "converted region describes another area", gen::show(w) + " became " + gen::show(g));
            if (g.type == TRAX_REGION_MASK) for (int yy = 0; yy < g.mh; yy++) for (int xx = 0; xx < g.mw; xx++) {
                float fx = (float) (g.mx + xx), fy = (float) (g.my + yy); bool in = fx >= a[0] && fx <= a[2] && fy >= a[1] && fy <= a[3];
                if (in != (g.bits[(size_t) yy * g.mw + xx] != 0)) fail("converted mask covers other pixels", gen::show(w) + " became " + gen::show(g));
            }
        }
        check(s.answer(x.answer) == TRAX_OK, "reply refused", s.err(s.srv)); s.compare_reply(x.answer, s.receive());
    }
    if (converted) c.tag("converted"); if (refused) c.tag("not convertible");
    c.nontrivial = converted > 0 || refused > 0;
}
static Register r19({"C19", "a session whose initial regions are drawn from all types regardless of what the tracker announced; non-trivial when a conversion took place or was impossible", c19, 20, true, 200, 8, {"shapes have whole-pixel coordinates so that the area is exact"}});

// ================================================================== C25
static void c25(Tape &t, Ctx &c) {
    Config k = config(t, 1, 4); if (t.flip()) config_text(t, k);
    bool foreign = t.chance(1, 2);
    Session s(t, k, true); s.log_s = true; s.log_c = t.chance(3, 4);
    size_t lines = 0;
    auto inject = [&](Channel &ch) { if (foreign) for (size_t i = t.below(3); i > 0; i--) { ch.bytes += foreign_line(t); lines++; } };
    size_t in_s = 0, in_c = 0;       // how far each endpoint has consumed, by its log
    auto wrote = [&](Channel &ch, size_t from, const std::string &log, size_t lfrom, bool on, const char *who) {
        std::string w = ch.bytes.substr(from), l = log.substr(lfrom);
        if (on) check(w == l, cat(who, " log differs from what was sent"), cat("sent ", quote(w, 300), ", logged ", quote(l, 300))); else check(l.empty(), "log without callback");
    };
    auto took = [&](Channel &ch, size_t &from, const std::string &log, size_t lfrom, bool on, const char *who, bool message) {
        std::string l = log.substr(lfrom);
        if (!on) { check(l.empty(), "log without callback"); return; }
        check(ch.bytes.compare(from, l.size(), l) == 0 && from + l.size() <= ch.bytes.size(), cat(who, " log differs from what was received"), cat("received ", quote(ch.bytes.substr(from, l.size() + 20), 300), ", logged ", quote(l, 300)));
        from += l.size();
        if (message) check(!l.empty() && l.back() == '\n', cat(who, " log does not end with the message"), quote(l, 200));
        check(from <= ch.rpos, cat(who, " logged more than it read"));
    };
    // before the handshake
    s.start_server(); wrote(s.s2c, 0, s.slog, 0, true, "server");
    if (foreign) { std::string h = s.s2c.bytes; s.s2c.bytes.clear(); inject(s.s2c); s.s2c.bytes += h; }
    s.start_client(); took(s.s2c, in_c, s.clog, 0, s.log_c, "client", true);
    size_t n = 1 + t.below(4);
    c.note(k.show());
    for (size_t i = 0; i < n; i++) {
        Step x = step(t, k, s.objects, t.chance(1, 3)); c.note(ses::show(x));
        inject(s.c2s);
        size_t a = s.c2s.bytes.size(), la = s.clog.size();
        check(s.request(x) == TRAX_OK, "request refused", s.err(s.cli)); s.account(x);
        wrote(s.c2s, a, s.clog, la, s.log_c, "client");
        size_t lb = s.slog.size();
        Session::compare(s.expected(x), s.serve(), s.err(s.srv)); took(s.c2s, in_s, s.slog, lb, true, "server", true);
        inject(s.s2c);
        a = s.s2c.bytes.size(); lb = s.slog.size();
        check(s.answer(x.answer) == TRAX_OK, "reply refused"); wrote(s.s2c, a, s.slog, lb, true, "server");
        la = s.clog.size();
        s.compare_reply(x.answer, s.receive()); took(s.s2c, in_c, s.clog, la, s.log_c, "client", true);
    }
    // a broken end: everything received is still logged, and nothing else
    if (t.flip()) {
        inject(s.c2s);
        std::string tail = "@@TRAX:frame \"file://x\" \"a=b\" \n"; s.c2s.bytes += tail.substr(0, t.below(tail.size() + 1)); s.c2s.closed = true;
        size_t lb = s.slog.size();
        s.serve(); took(s.c2s, in_s, s.slog, lb, true, "server", false);
        lb = s.slog.size(); s.serve(); took(s.c2s, in_s, s.slog, lb, true, "server", false);
        c.tag("broken stream");
    } else {
        size_t a = s.c2s.bytes.size(), la = s.clog.size(); trax_terminate(s.cli, "done"); wrote(s.c2s, a, s.clog, la, s.log_c, "client");
        size_t lb = s.slog.size(); s.serve(); took(s.c2s, in_s, s.slog, lb, true, "server", true);
    }
    if (lines) c.tag("with foreign lines");
    c.nontrivial = n >= 1 && (lines > 0 || s.c2s.bytes.size() > 300);
}
static Register r25({"C25", "a session with foreign lines in which each call's addition to the log is compared with the bytes that call consumed or produced; non-trivial with foreign lines or more than 300 bytes of requests", c25, 20, true, 200, 8, {ASSUME_LINK}});

// ================================================================== C26
static void c26(Tape &t, Ctx &c) {
    // everything allocated during the case is released at its end (the engine counts live allocations);
    // in the middle, repeating one request must not grow the number of live allocations.
    Config k = config(t, 1, 4); if (t.chance(1, 4)) config_text(t, k);
    int fds = open_descriptors();
    {
        Session s(t, k, t.chance(1, 4)); s.log_s = s.log_c = false; s.start();
        c.note(k.show());
        size_t n = t.below(4); int bad = 0;
        for (size_t i = 0; i < n; i++) {
            for (size_t j = t.below(3); j > 0; j--) bad += refused(t, c, s, false);
            Step x = step(t, k, s.objects, t.chance(1, 6)); c.note(ses::show(x)); s.exchange(x);
        }
        Step x = step(t, k, s.objects, false);
        if (!x.init && !x.ob.empty()) { x.ob.clear(); x.answer = objects(t, k, s.objects, true, false); }
        s.exchange(x);
        if (x.init && s.objects) { Step y = x; s.exchange(y); }
        long a = live_allocations(); size_t reps = 3 + t.below(6);
        for (size_t i = 0; i < reps; i++) s.exchange(x);
        long b = live_allocations();
        check(b <= a, "repeating a request keeps memory", cat(b - a, " allocations after ", reps, " repetitions of ", ses::show(x)));
        int fault = t.weighted({3, 2, 2, 1});
        if (fault == 1) { for (size_t i = t.below(3); i > 0; i--) s.c2s.bytes += "@@TRAX:initialize \"1,2,3,4\" \"a=b\"\n"; s.c2s.bytes += t.chance(1, 3) ? "@@TRAX:quit \"c=d\"\n" : hostile_message(t, 1 + (int) t.below(2)); s.c2s.closed = true; for (int i = 0; i < 3; i++) s.serve(); c.tag("protocol error at the server"); }
        if (fault == 2) { for (size_t i = t.below((size_t) s.objects + 1); i > 0; i--) s.s2c.bytes += "@@TRAX:state \"1,2,3,4\" \"a=b\"\n"; s.s2c.bytes += t.chance(1, 3) ? "@@TRAX:quit \"c=d\"\n" : hostile_message(t, 1); s.s2c.closed = true; s.receive(); s.receive(); c.tag("protocol error at the client"); }
        if (fault == 3) { s.c2s.closed = s.s2c.closed = true; s.serve(); s.receive(); c.tag("peer gone"); }
        c.nontrivial = n > 0 || fault || bad;
    }
    // failed handshakes, too
    if (t.chance(1, 4)) {
        lnk::init(); Channel in, out; in.bytes = hostile_hello(t); if (t.flip()) in.bytes = mutate(t, in.bytes); in.closed = true;
        trax_handle *h = trax_client_setup_file(lnk::reader(&in), lnk::writer(&out), trax_no_log);
        if (h) trax_cleanup(&h); else c.tag("failed handshake");
    }
    if (t.chance(1, 40)) {       // a tracker that never connects, and one that connects and says nonsense
        int port = 0, ls = listen_local(port);
        if (ls >= 0) {
            trax_handle *h = trax_client_setup_socket(ls, 0, trax_no_log); check(h == nullptr, "client without a tracker");
            int p = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (connect(p, (struct sockaddr *) &a, sizeof a) == 0) { std::string b = "nonsense\n"; ssize_t w = write(p, b.data(), b.size()); (void) w; shutdown(p, SHUT_WR); h = trax_client_setup_socket(ls, 2, trax_no_log); if (h) trax_cleanup(&h); c.tag("failed socket handshake"); }
            close(p); close(ls);
        }
    }
    check(open_descriptors() == fds, "descriptors left open", cat(fds, " before, ", open_descriptors(), " after"));
}
static Register r26({"C26", "a session with refused calls, protocol errors and early ends after which every allocation and descriptor must be gone, and during which a repeated request must not keep memory; non-trivial when it has at least one step or fault before", c26, 20, true, 200, 8, {"allocations are counted through the allocator hooks of the sanitizer"}});
