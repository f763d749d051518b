// The command-line client (C31): traxclient runs generated experiments with a scripted tracker.
#include "cligen.hpp"
using namespace pbt;
using namespace gen;
using namespace cppgen;
using namespace procgen;
using namespace cligen;

// ------------------------------------------------------------------ experiments
static MRegion box(Tape &t) {
    MRegion m;
    switch (t.weighted({5, 2, 1})) {
    case 0: m.type = TRAX_REGION_RECTANGLE; m.x = (float) t.range(0, 30); m.y = (float) t.range(0, 30); m.w = (float) t.range(1, 30); m.h = (float) t.range(1, 30); return m;
    case 1: m.type = TRAX_REGION_POLYGON; for (size_t i = 0, k = 3 + t.below(4); i < k; i++) m.pts.push_back({(float) (t.range(-160, 960) / 16.), (float) (t.range(-160, 960) / 16.)}); return m;
    default: m = region(t, TRAX_REGION_MASK); m.mx %= 50; m.my %= 50; return m; // overlaps of distant regions take much memory
    }
}
static std::string png(int w, int h, const std::string &rest) { std::string s("\x89PNG\r\n\x1a\n\0\0\0\rIHDR", 16); for (int v : {w, h}) for (int b = 24; b >= 0; b -= 8) s += (char) (v >> b & 255); return s + std::string("\x08\x02\0\0\0", 5) + rest; }
static std::string text_of(const std::vector<MRegion> &v, const std::string &eol, bool last) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (v[i].type) s += encoded(v[i]); if (i + 1 < v.size() || last || !v[i].type) s += eol; } return s; }
static std::string file_name(Tape &t) { std::string s; for (char c : text(t, false)) if (c != '\n' && c != '\r' && c != ';' && c != '/' && c != 1 && c != 2) s += c; if (s.size() > 60) s.resize(60); return "/img" + s; }
static const int CH[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}; static const char *CHN[] = {"color", "depth", "ir"};

static void c31(Tape &t, Ctx &c) {
    Dir dir; std::string pids = dir.path + "/pids", rec = dir.path + "/requests", dumpf = dir.path + "/dump";
    // the sequence
    size_t n = t.chance(1, 40) ? 0 : 1 + t.size(9), m = t.chance(1, 4) ? t.size(10) : n; int channels = t.chance(1, 2) ? 1 : 1 + (int) t.below(7); bool buffer = t.chance(1, 4), bounded = !buffer && t.chance(1, 4);
    std::vector<std::vector<std::string>> paths(n); std::vector<std::pair<int, int>> sizes(n, {0, 0}); std::map<std::string, std::string> content;
    int per = 1; for (int k = 0; k < 3; k++) if (channels & CH[k]) per = k + 1;
    if (t.chance(1, 4)) per = 3;
    for (size_t i = 0; i < n; i++) {
        for (int k = 0; k < per; k++) {
            std::string p = dir.path + file_name(t) + std::to_string(i) + (k == 0 ? "c" : k == 1 ? "d" : "i");
            if (buffer || bounded) { sizes[i] = {1 + (int) t.below(40), 1 + (int) t.below(40)}; std::string s = png(sizes[i].first, sizes[i].second, text(t, false)); content[p] = s; spit(p, s); }
            paths[i].push_back(p);
        }
        // the size is that of the first channel the client holds
        if (bounded) for (int k = 0; k < 3; k++) if (channels & CH[k]) { std::string &s = content[paths[i][k]]; sizes[i] = {(unsigned char) s[19], (unsigned char) s[23]}; break; }
    }
    std::vector<MRegion> gt, init; MRegion none; none.type = 0;
    for (size_t i = 0; i < m; i++) gt.push_back(t.chance(1, 8) ? none : i && gt.back().type && t.flip() ? gt.back() : box(t));
    bool own_init = t.chance(1, 4); size_t len = std::min(n, m);
    if (own_init) { size_t k = t.chance(2, 3) ? len : t.size(12); for (size_t i = 0; i < k; i++) init.push_back(t.chance(1, 3) ? none : box(t)); } else init = gt;
    init.resize(std::max(init.size(), len), none);
    std::string eol = t.chance(1, 4) ? "\r\n" : "\n"; bool last = t.chance(3, 4);
    { std::string s; for (size_t i = 0; i < n; i++) { for (size_t k = 0; k < paths[i].size(); k++) s += (k ? ";" : "") + paths[i][k]; if (i + 1 < n || last) s += eol; } spit(dir.path + "/images.txt", s); spit(dir.path + "/groundtruth.txt", text_of(gt, eol, last)); }
    // the options
    double threshold = t.flip() ? -1 : t.pick(std::vector<double>{0, 0.1, 0.5, 0.75, 1}); int again = t.flip() ? 0 : (int) t.range(1, 4); int mode = (int) t.below(3); Port port(mode == 2);
    std::vector<std::string> args; auto opt = [&](const char *o, const std::string &v) { args.push_back(o); args.push_back(v); };
    opt("-I", dir.path + "/images.txt"); opt("-G", dir.path + "/groundtruth.txt"); std::string out = dir.path + "/output.txt", timing = dir.path + "/timing.txt"; opt("-O", out);
    bool timed = t.flip(); if (timed) opt("-T", timing);
    if (own_init) { std::vector<MRegion> v(init); if (t.flip()) while (!v.empty() && !v.back().type) v.pop_back(); spit(dir.path + "/init.txt", text_of(v, eol, last)); opt("-S", dir.path + "/init.txt"); }
    { char b[32]; snprintf(b, sizeof b, "%g", threshold); if (threshold >= 0) opt("-f", b); } if (again) opt("-r", std::to_string(again));
    if (mode == 1) args.push_back("-x"); if (mode == 2) args.push_back("-X");
    if (t.chance(1, 3)) args.push_back("-s"); else if (t.chance(1, 3)) args.push_back("-d");
    std::map<std::string, std::string> params, evars; for (size_t i = 0, k = t.below(3); i < k; i++) { std::string key = word(t), v = text(t, false); params[key] = v; opt("-p", key + "=" + v); } for (size_t i = 0, k = t.below(3); i < k; i++) { std::string key = word(t), v = text(t, false); evars[key] = v; opt("-e", key + "=" + v); }
    bool faulty = t.chance(1, 4), query = t.chance(1, 16), interrupted = faulty && t.chance(1, 4); int fault = 0, slow = !faulty && !query && !timed ? (int) t.weighted({20, 1, 1}) : 0; size_t pause = t.below(8), requests = 0; opt("-t", slow == 1 ? "0" : slow == 2 ? "3" : faulty && !interrupted ? "1" : "20"); if (slow) c.tag(slow == 1 ? "no timeout" : "slow tracker");
    if (query) args.push_back("-Q");
    args.push_back("--"); std::vector<std::string> targs{child_path()}; for (size_t i = 0, k = t.below(4); i < k; i++) targs.push_back(t.flip() ? word(t) : t.flip() ? text(t, false) : t.pick(std::vector<std::string>{"", " ", "\"", "\\", "a b", "x\\\"y\\", "\\\\", "-O", "--"})); for (auto &a : targs) args.push_back(a);
    c.note(cat(n, " images, ", m, " reference regions", own_init ? ", own initialization" : "", ", channels ", channels, buffer ? " as buffers" : "", ", threshold ", threshold, ", offset ", again, bounded ? ", bounded" : "", faulty ? ", faulty" : "", mode == 0 ? "" : mode == 1 ? ", dedicated streams" : ", socket"));
    // what happens: the tracker's states are drawn while the experiment is played
    std::string chn; for (int k = 0; k < 3; k++) if (channels & CH[k]) chn += (chn.empty() ? "" : ";") + std::string(CHN[k]);
    std::string hello = cat("@@TRAX:hello \"trax.version=4\" \"trax.name=scripted\" \"trax.description=", "a test", "\" \"trax.family=none\" \"trax.region=rectangle;polygon;mask\" \"trax.image=", buffer ? "buffer" : "path", "\" \"trax.channels=", chn, "\"\n");
    std::string script; struct Call { bool initialize; size_t frame; }; std::vector<std::vector<Call>> starts; std::vector<MRegion> result; bool broken = false; size_t restarts = 0;
    auto special = [](int code) { MRegion s; s.type = TRAX_REGION_SPECIAL; s.code = code; return s; };
    size_t frame = 0; std::vector<bool> measured; bool open = false; Script part;
    auto begin = [&] { part = Script(); part.add("R" + rec); if (starts.empty()) part.add("D" + dumpf); part.add("T" + hello); starts.emplace_back(); open = true; };
    auto finish = [&] { if (!starts.empty() && open) { if (starts.size() > 1) script += '\x02'; script += part.s; open = false; } };
    begin(); if (faulty && t.chance(1, 6)) { broken = true; part = Script(); part.add(t.flip() ? "X0" : t.flip() ? "H" : cat("K", SIGSEGV)); if (mode == 2) part.add("H"); fault = 1; }
    while (!broken && frame < len) {
        while (frame < len && !init[frame].type) { result.push_back(special(0)); measured.push_back(false); frame++; }
        if (frame == len) break;
        if (!open) begin();
        starts.back().push_back({true, frame}); bool first = true;
        while (true) {
            part.add("W1");
            if (faulty && t.chance(1, 4)) {
                static const std::vector<std::string> F{"H", "X0", "X1", "b\x01H", "T@@TRAX:state \"1,2,3\"\n\x01H", "T@@TRAX:frame\n\x01H", "C\x01H", "T@@TRAX:sta\x01X3", "J"};
                std::string f = t.pick(F); if (interrupted) f = "H"; if (t.chance(1, 3)) part.add("I"); part.add(f); broken = true; break;
            }
            if (slow == 2) part.add("S700"); if (slow == 1 && requests++ == pause) part.add("S2500");
            MRegion st = gt[frame].type && t.chance(2, 3) ? gt[frame] : box(t); if (st.type == TRAX_REGION_RECTANGLE && t.chance(1, 3)) st.x += (float) t.range(-10, 10);
            part.add("T" + line_state(MObjects{{st, few(t)}}));
            float overlap = 0; if (gt[frame].type) { trax::Region a = build(gt[frame]), b = build(st); trax::Bounds lim; if (bounded) lim = trax::Bounds(0, 0, (float) sizes[frame].first, (float) sizes[frame].second); overlap = a.overlap(b, lim); }
            if (threshold >= 0 && overlap <= (float) threshold) break;
            result.push_back(first ? special(1) : st); measured.push_back(true); first = false;
            if (++frame >= len) break;
            starts.back().push_back({false, frame});
        }
        if (broken || frame >= len) break;
        result.push_back(special(2)); measured.push_back(false); size_t j = frame + 1;
        while (j < len && (again == 0 || j < frame + again)) { result.push_back(special(0)); measured.push_back(false); j++; }
        frame = j; if (again == 0) break;
        finish(); if (frame < len) { begin(); restarts++; }
    }
    finish();
    if (query) { broken = fault != 0; }
    // a file that cannot be read or written
    std::string missing;
    if (!faulty && !query && t.chance(1, 10)) {
        std::vector<std::string> v{"images.txt", "groundtruth.txt"}; if (own_init) v.push_back("init.txt"); if (len) v.push_back("output.txt"); if (len && timed) v.push_back("timing.txt"); if (buffer && !starts[0].empty()) v.push_back("image");
        missing = t.pick(v); c.note("no " + missing);
        if (missing == "image") { size_t f = starts[0][t.below(starts[0].size())].frame; for (auto &p : paths[f]) unlink(p.c_str()); }
        else if (missing == "output.txt" || missing == "timing.txt") { for (auto &a : args) if (a == dir.path + "/" + missing) a = dir.path + "/none/" + missing; }
        else unlink((dir.path + "/" + missing).c_str());
    }
    if (faulty && !broken) c.tag("fault not reached");
    std::map<std::string, std::string> env; env["TRAXV_SCRIPT"] = script; env["TRAXV_PID"] = pids; if (bounded) env["TRAX_BOUNDED_OVERLAP"] = "true";
    for (auto &kv : evars) env.erase(kv.first);
    try {
        Result r = run("traxclient", args, env, dir, 40000 + 4000 * (int64_t) starts.size(), interrupted && broken && !query);
        none_running(pids, "ended");
        if (!missing.empty()) { c.tag(("no " + missing).c_str()); check(r.status != 0, "successful exit code without a file", missing); c.nontrivial = true; return; }
        if (broken) { c.tag(interrupted ? "interrupted" : "tracker failure"); check(r.status != 0, "a failure of the tracker gives a successful exit code", quote(r.err, 200)); c.nontrivial = true; return; }
        check(r.status == 0, "the client fails with a well-behaved tracker", cat("status ", r.status, " ", quote(r.err, 300)));
        Dump d = read_dump(dumpf); connected(d, mode); check(d.args == targs, "arguments of the tracker differ", cat(d.args.size(), " for ", targs.size())); for (auto &kv : evars) check(d.env.count(kv.first) && d.env[kv.first] == kv.second, "environment of the tracker differs", kv.first);
        if (query) { c.tag("query"); check(r.out.find("scripted") != std::string::npos && r.out.find("a test") != std::string::npos && r.out.find("none") != std::string::npos, "description of the tracker not shown", quote(r.out, 300)); check(!exists(out), "output of a query"); c.nontrivial = true; return; }
        if (len == 0) { c.tag("nothing to do"); return; }
        // what the trackers got
        size_t got = started(pids).size(); check(got == starts.size(), "number of starts of the tracker differs", cat("wanted ", starts.size(), ", got ", got));
        for (size_t s = 0; s < starts.size(); s++) {
            std::vector<Message> ms = requests_in(slurp(cat(rec, ".", s))); size_t k = 0; auto next = [&]() -> Message & { check(k < ms.size(), "request missing", cat("start ", s, " request ", k)); return ms[k++]; };
            for (auto &call : starts[s]) {
                std::map<std::string, std::string> want;
                if (call.initialize) { Message &q = next(); check(q.type == "initialize" && q.args.size() == 1, "no initialization", q.type); check(q.args[0] == encoded(init[call.frame]), "the tracker is not initialized with the given region", cat("frame ", call.frame)); want = params; for (auto &kv : q.props) { check(want.count(kv.first) && want[kv.first] == kv.second, "parameter differs", kv.first); } }
                Message &q = next(); check(q.type == "frame", "no frame", q.type); same(want, q.props, "parameters"); size_t a = 0;
                for (int ch = 0; ch < 3; ch++) if (channels & CH[ch]) { check(a < q.args.size(), "image missing", cat("frame ", call.frame)); std::string &p = paths[call.frame][ch], w = buffer ? "data:image/png;" + base64(content[p]) : "file://" + p; check(q.args[a] == w, "image differs", cat("frame ", call.frame, " wanted ", quote(w, 200), " got ", quote(q.args[a], 200))); a++; }
                check(a == q.args.size(), "too many images", cat("frame ", call.frame));
            }
            check(k + 1 >= ms.size() && (k == ms.size() || ms[k].type == "quit"), "more requests than frames", cat("start ", s, ": ", ms.size(), " for ", k));
        }
        // what is recorded
        check(exists(out), "no output");
        std::vector<std::string> lines; { std::string s = slurp(out), l; std::stringstream f(s); while (std::getline(f, l)) lines.push_back(l); }
        check(lines.size() == len, "not one output line per frame", cat("wanted ", len, ", got ", lines.size()));
        for (size_t i = 0; i < len; i++) check(lines[i] == encoded(result[i]), "recorded region differs", cat("frame ", i, " wanted ", quote(encoded(result[i]), 100), " got ", quote(lines[i], 100)));
        if (timed) { std::vector<double> v; double x; std::ifstream f(timing); while (f >> x) v.push_back(x); check(v.size() == len, "not one time per frame", cat("wanted ", len, ", got ", v.size())); for (size_t i = 0; i < len; i++) check(measured[i] ? v[i] >= 0 && v[i] < 40 : v[i] == 0, "time of a frame", cat(i, ": ", v[i])); }
        if (restarts) c.tag("reinitialized"); if (std::count_if(result.begin(), result.end(), [](const MRegion &x) { return x.type == TRAX_REGION_SPECIAL && x.code == 2; })) c.tag("failure marked"); if (timed) c.tag("timings"); if (n != m) c.tag("lengths differ"); if (own_init) c.tag("own initialization"); if (bounded) c.tag("bounded"); if (buffer) c.tag("buffers"); if (params.size()) c.tag("parameters");
        c.nontrivial = len > 0;
    } catch (Failure &) { for (int p : started(pids)) if (running(p)) kill(p, SIGKILL); throw; }
}
static Register r31({"C31", "an experiment of up to ten frames (image list, reference, initialization, thresholds, offsets, parameters) run by traxclient with a scripted tracker, possibly with a fault; non-trivial unless there are no frames", c31, 120, true, 20, 32,
    {"coordinates are multiples of 1/16, exact in the printed decimals", "image paths are absolute and contain no semicolons or line ends", "the tracker follows version 4 of the protocol and does not quit by itself"}});
