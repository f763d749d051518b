// C33: a tracker written in Octave or MATLAB converses with a client of the C library.  The server
// function runs in this process on top of harness/mex, connected to the client over the in-memory link.
#include "session.hpp"
#include "mex/mexrt.hpp"
#include "mexgen.hpp"
using namespace ses;
using namespace mxg;

extern "C" void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);

static mx::Result ask(Tape &t, const std::string &op, int nlhs, std::vector<mx::Arr *> rest = {}) {
    std::string o = op; if (t.chance(1, 6)) o[t.below(o.size())] &= ~0x20;         // the case of the operation does not matter
    std::vector<mx::Arr *> in{mx::str(o)}; for (auto a : rest) in.push_back(a);
    return mx::call(mexFunction, nlhs, in);
}
static const std::vector<std::string> RESERVED{"propstruct", "name", "description", "family", "debug", "timeout", "environment", "data", "connection", "directory", "log", "channels"};

struct Mex {
    Tape &t; Ctx &c; Config k;
    Channel c2s, s2c; trax_handle *cli = nullptr;
    Mex(Tape &t, Ctx &c) : t(t), c(c) {
        lnk::init();
        if (t.chance(1, 2)) { c2s.rd = Frag::draw(t); s2c.rd = Frag::draw(t); c2s.wr = Frag::draw(t); s2c.wr = Frag::draw(t); }
        setenv("TRAX_IN", cat(lnk::reader(&c2s)).c_str(), 1); setenv("TRAX_OUT", cat(lnk::writer(&s2c)).c_str(), 1);
    }
    ~Mex() {
        if (cli) trax_cleanup(&cli);
        unsetenv("TRAX_IN"); unsetenv("TRAX_OUT");
    }
    // a call that cannot be carried out ends with an error and leaves everything as it was
    void refused(bool running) {
        if (!t.chance(1, 5)) return;
        c.tag("refused call");
        size_t in = c2s.rpos, out = s2c.bytes.size();
        auto bad = [&](const char *what, mx::Result r) { check(r.error, "a call that makes no sense was accepted", what); };
        switch (t.below(running ? 13 : 8)) {
        case 0: bad("no arguments", mx::call(mexFunction, 0, {})); break;
        case 1: bad("operation is a number", mx::call(mexFunction, 0, {mx::number(3)})); break;
        case 2: bad("unknown operation", ask(t, "setups", 0)); break;
        case 3: if (running) bad("wait with an unknown argument", ask(t, "wait", 3, {mx::str("color"), mx::number(1)})); else bad("wait before setup", ask(t, "wait", 3)); break;
        case 4: if (running) bad("status without a region", ask(t, "status", 0)); else bad("status before setup", ask(t, "status", 0, {mxg::region(t, gen::rectangle(t))})); break;
        case 5: if (running) bad("wait with four outputs", ask(t, "wait", 4)); else bad("setup without formats", ask(t, "setup", 0, {mx::str("rectangle")})); break;
        case 6: if (running) bad("status with too many arguments", ask(t, "status", 0, {mxg::region(t, gen::rectangle(t)), mx::record({}), mx::number(1)}));
                else switch (t.below(5)) {
                    case 0: bad("setup with an unknown region format", ask(t, "setup", 1, {mx::str("circle"), mx::str("path")})); break;
                    case 1: bad("setup with an unknown image format", ask(t, "setup", 1, {mx::str("rectangle"), mx::cell({1, 2}, {mx::str("path"), mx::str("video")})})); break;
                    case 2: bad("setup with an argument of the wait operation", ask(t, "setup", 1, {mx::str("rectangle"), mx::str("path"), mx::str("propstruct"), mx::str("x")})); break;
                    case 3: bad("setup with a reserved name", ask(t, "setup", 1, {mx::str("rectangle"), mx::str("path"), mx::str("trax.version"), mx::str("9")})); break;
                    default: bad("setup with an unknown channel", ask(t, "setup", 1, {mx::str("rectangle"), mx::str("path"), mx::str("channels"), mx::str("uv")})); break;
                } break;
        case 7: {
            if (running) { bad("wait with an argument without a value", ask(t, "wait", 3, {mx::str("propstruct")})); }
            else bad("setup with an argument without a value", ask(t, "setup", 1, {mx::str("rectangle"), mx::str("path"), mx::str("name")}));
            break; }
        case 8: bad("status with a region of three numbers", ask(t, "status", 0, {mx::array(mxDOUBLE_CLASS, {1, 3})})); break;
        case 9: bad("status with a region of five numbers", ask(t, "status", 0, {mx::array(mxDOUBLE_CLASS, {1, 5})})); break;
        case 10: bad("status with text for a region", ask(t, "status", 0, {mx::str("region")})); break;
        case 11: bad("status with a number for the parameters", ask(t, "status", 0, {mxg::region(t, gen::rectangle(t)), mx::number(5)})); break;
        case 12: bad("status with parameters in three columns", ask(t, "status", 0, {mxg::region(t, gen::rectangle(t)), mx::cell({2, 3}, {mx::str("a"), mx::str("b"), mx::str("c"), mx::str("d"), mx::str("e"), mx::str("f")})})); break;
        }
        check(in == c2s.rpos && out == s2c.bytes.size(), "a refused call read or sent something");
    }
    void setup() {
        k = config(t, 4, 4); k.multi = false; config_text(t, k);
        std::vector<mx::Arr *> in{flags(t, k.regions, REGION_NAMES), flags(t, k.images, IMAGE_NAMES)};
        std::vector<std::pair<std::string, mx::Arr *>> named;
        if (k.has_name) named.push_back({cased(t, "name"), text_value(t, k.name)});
        if (k.has_desc) named.push_back({cased(t, "description"), text_value(t, k.desc)});
        if (k.has_family) named.push_back({cased(t, "family"), text_value(t, k.family)});
        if (k.channels != TRAX_CHANNEL_COLOR || t.chance(1, 4)) named.push_back({cased(t, "channels"), flags(t, k.channels, CHANNEL_NAMES)});
        for (auto it = k.custom.begin(); it != k.custom.end();) {
            std::string low = it->first; for (char &x : low) x = (char) tolower(x);
            if (std::count(RESERVED.begin(), RESERVED.end(), low)) { it = k.custom.erase(it); continue; }
            named.push_back({it->first, text_value(t, it->second)}); ++it;
        }
        for (size_t i = named.size(); i > 1; i--) std::swap(named[i - 1], named[t.below(i)]);
        for (auto &n : named) { in.push_back(mx::str(n.first)); in.push_back(n.second); }
        int nlhs = (int) t.below(2);
        mx::Result r = ask(t, "setup", nlhs, in);
        check(!r.error, "setup refused valid arguments", r.message);
        if (nlhs) check(mx::value(r.out[0], 0) != 0 && r.out[0]->count() == 1, "setup did not report success", mx::show(r.out[0]));
        cli = trax_client_setup_file(lnk::reader(&s2c), lnk::writer(&c2s), trax_no_log);
        check(cli != nullptr, "client refused the hello message of the server function", quote(s2c.bytes));
        trax_metadata *m = cli->metadata;
        auto s = [](const char *x) { return std::string(x ? x : ""); };
        check(m->format_region == k.regions, "declared region formats differ", cat("wanted ", k.regions, ", got ", m->format_region));
        check(m->format_image == k.images, "declared image formats differ", cat("wanted ", k.images, ", got ", m->format_image));
        check(m->channels == k.channels, "declared channels differ", cat("wanted ", k.channels, ", got ", m->channels));
        check(s(m->tracker_name) == k.name, "tracker name differs", cat("wanted ", quote(k.name), ", got ", quote(s(m->tracker_name))));
        check(s(m->tracker_description) == k.desc, "tracker description differs", cat("wanted ", quote(k.desc), ", got ", quote(s(m->tracker_description))));
        check(s(m->tracker_family) == k.family, "tracker family differs", cat("wanted ", quote(k.family), ", got ", quote(s(m->tracker_family))));
        same(k.custom, observe(m->custom), "custom metadata");
        int v = 0; trax_get_parameter(cli, TRAX_PARAMETER_VERSION, &v); k.version = v;
        check(!(m->flags & TRAX_METADATA_MULTI_OBJECT), "server function declares several objects");
        c.note(cat("setup ", k.show(), named.empty() ? "" : " with names"));
    }
    void images(const MImages &want, const mx::Arr *a) {
        std::vector<const MImage *> w; for (int i = 0; i < 3; i++) if (want[i].type && (k.channels & CHANNEL_IDS[i])) w.push_back(&want[i]);
        check(a->cls == mxCELL_CLASS && a->dims == std::vector<mwSize>({1, (mwSize) w.size()}), "images are not a row of as many cells as there are channels", mx::show(a));
        for (size_t i = 0; i < w.size(); i++) same_image(*w[i], a->cells[i], cat("image ", i).c_str());
    }
    void exchange(bool first) {
        Step s = step(t, k, first ? 0 : 1, t.chance(1, 3));
        s.answer.clear();
        for (auto &o : s.ob) nearby(t, o.r);
        bool named = t.chance(1, 3);
        if (named) { MProps p; for (auto &kv : s.p) { std::string key = "k" + kv.first.substr(0, 40); bool clash = false; for (auto &q : p) clash |= field_name(q.first) == field_name(key); if (!clash) p[key] = kv.second; } s.p = p; }
        MProps want = s.p; if (s.init && !s.ob[0].p.empty()) { if (named) s.ob[0].p.clear(); for (auto &kv : s.ob[0].p) want.insert(kv); }
        c.note(ses::show(s));
        int x;
        { Images il(s.im); Props pr(s.p);
          if (s.init) { Objects ol(s.ob); x = trax_client_initialize(cli, il.l, ol.l, pr.p); } else x = trax_client_frame(cli, il.l, NULL, pr.p); }
        check(x == TRAX_OK, "client request refused", cat(x, " ", trax_get_error(cli) ? trax_get_error(cli) : ""));
        int nlhs = t.chance(1, 5) ? (int) t.range(1, 2) : 3;
        std::vector<mx::Arr *> in; if (named) { in.push_back(mx::str(cased(t, "propstruct"))); in.push_back(mx::number(1, t.flip() ? mxLOGICAL_CLASS : mxDOUBLE_CLASS)); }
        else if (t.chance(1, 8)) { in.push_back(mx::str("propstruct")); in.push_back(mx::number(0, t.flip() ? mxLOGICAL_CLASS : mxDOUBLE_CLASS)); }
        mx::Result r = ask(t, "wait", nlhs, in);
        check(!r.error, "wait failed on a valid request", r.message);
        images(s.im, r.out[0]);
        if (nlhs > 1) { if (s.init) same_region(s.ob[0].r, r.out[1], "region given to the tracker"); else check(mx::is_empty(r.out[1]), "a frame came with a region", mx::show(r.out[1])); }
        if (nlhs > 2) same_params(want, r.out[2], named, "parameters given to the tracker");
        refused(true);
        MRegion a = answer_region(t); MProps p; std::vector<std::pair<std::string, double>> nums;
        mx::Arr *params = t.chance(2, 3) ? parameters(t, p, nums) : nullptr;
        c.note("-> " + gen::show(a) + gen::show(p));
        std::vector<mx::Arr *> out{mxg::region(t, a)}; if (params) out.push_back(params);
        int n2 = (int) t.below(2);
        mx::Result q = ask(t, "status", n2, out);
        check(!q.error, "status failed on a valid state", q.message);
        if (n2) check(mx::value(q.out[0], 0) != 0 && q.out[0]->count() == 1, "status did not report success", mx::show(q.out[0]));
        Reply got = client_wait(cli);
        check(got.kind == TRAX_STATE && got.st.size() == 1, "client did not get the state", cat(got.kind, " ", trax_get_error(cli) ? trax_get_error(cli) : ""));
        MProps all = got.st[0].p; for (auto &kv : got.p) all[kv.first] = kv.second;
        same(a, got.st[0].r, "state reported by the tracker");
        same_sent(p, nums, all, "parameters reported by the tracker");
        check(!lnk::st().blocked, "an endpoint waits for more than was sent");
        c.tag(s.init ? "initialize" : "frame"); c.tag(a.type == TRAX_REGION_MASK ? "mask reported" : a.type == TRAX_REGION_POLYGON ? "polygon reported" : "rectangle reported");
    }
    void finish() {
        std::string reason = t.chance(1, 3) ? "" : text(t, false);
        switch (t.below(4)) {
        case 0: case 1: {        // the client ends it
            if (t.flip()) { trax_terminate(cli, reason.c_str()); } else { trax_cleanup(&cli); }
            mx::Result r = ask(t, "wait", 3);
            check(!r.error, "wait failed when the client ended the session", r.message);
            for (auto a : r.out) check(mx::is_empty(a), "an ended session gave something to the tracker", mx::show(a));
            check(ask(t, "wait", 3).error, "wait after the end did not fail");
            check(!ask(t, "quit", 0).error, "quit after the end failed");
            c.tag("ended by the client");
            break; }
        case 2: {                // the tracker ends it
            std::vector<mx::Arr *> in; bool given = t.chance(3, 4); if (given) in.push_back(text_value(t, reason)); else reason.clear();
            mx::Result r = ask(t, "quit", 0, in);
            check(!r.error, "quit failed", r.message);
            Reply got = client_wait(cli);
            check(got.kind == TRAX_QUIT, "client did not see the end of the session", cat(got.kind));
            if (!reason.empty()) check(got.p.count("trax.reason") && got.p.at("trax.reason") == reason, "reason of the end differs", cat("wanted ", quote(reason), ", got ", gen::show(got.p)));
            check(ask(t, "wait", 3).error, "wait after the end did not fail");
            c.tag("ended by the tracker");
            break; }
        default: {               // the client vanishes, possibly in the middle of a message
            if (t.flip()) { c2s.bytes += "@@TRAX:frame \"file:///a"; }
            c2s.closed = true;
            mx::Result r = ask(t, "wait", 3);
            if (!r.error) for (auto a : r.out) check(mx::is_empty(a), "a lost client gave something to the tracker", mx::show(a));
            c.tag("client vanished");
            ask(t, "quit", 0);
            break; }
        }
    }
};

static Register c33({"C33",
    "a case sets up the server function with generated formats, channels, names and custom metadata and exchanges several generated requests and states with a client; it counts as non-trivial when at least one initialization and one frame went through",
    [](Tape &t, Ctx &c) {
        Mex m(t, c);
        m.refused(false);
        if (t.chance(1, 12)) check(!ask(t, "quit", 0).error, "quit before setup failed");
        check(m.s2c.bytes.empty() && m.c2s.rpos == 0, "something was sent before setup");
        m.setup();
        size_t n = 1 + t.below(6);
        for (size_t i = 0; i < n; i++) { m.refused(true); m.exchange(i == 0); }
        m.finish();
        c.nontrivial = n > 1;
    }, 10, false, 200, 8, {"the MEX interface is played by harness/mex, which follows Octave's; arrays there hold 8-bit text as in Octave"}});
