// The test client (C35) and the player (C36), run with a scripted tracker.
#include "cligen.hpp"
#include <opencv2/core/core.hpp>
#include <opencv2/imgcodecs.hpp>
using namespace pbt;
using namespace gen;
using namespace cppgen;
using namespace procgen;
using namespace cligen;

static std::string formats(int f) { std::string s; static const std::vector<std::pair<int, const char *>> N{{TRAX_IMAGE_PATH, "path"}, {TRAX_IMAGE_URL, "url"}, {TRAX_IMAGE_MEMORY, "memory"}, {TRAX_IMAGE_BUFFER, "buffer"}}; for (auto &n : N) if (f & n.first) s += (s.empty() ? "" : ";") + std::string(n.second); return s; }
static MRegion rectangle(float x, float y, float w, float h) { MRegion r; r.type = TRAX_REGION_RECTANGLE; r.x = x; r.y = y; r.w = w; r.h = h; return r; }
static std::string unbase64(const std::string &s) { std::string r; unsigned v = 0; int n = 0; for (char c : s) { int k = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (k < 0) break; v = v << 6 | k; n += 6; if (n >= 8) { n -= 8; r += (char) (v >> n & 255); } } return r; }
static std::string tail(const std::string &s, const std::string &prefix, const char *what) { check(s.compare(0, prefix.size(), prefix) == 0, what, quote(s, 60)); return s.substr(prefix.size()); }
// pixels of a request as RGB lines; empty if the image is no image
static std::string rgb(const cv::Mat &m) { std::string r; for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) { cv::Vec3b p = m.at<cv::Vec3b>(y, x); r += (char) p[2]; r += (char) p[1]; r += (char) p[0]; } return r; }
static cv::Mat decoded(const std::string &s) { Untracked u; std::vector<unsigned char> b(s.begin(), s.end()); if (b.empty()) return cv::Mat(); return cv::imdecode(b, cv::IMREAD_COLOR); }
static double difference(const std::string &a, const std::string &b) { if (a.size() != b.size() || a.empty()) return 1e9; double d = 0; for (size_t i = 0; i < a.size(); i++) d += std::abs((int) (unsigned char) a[i] - (int) (unsigned char) b[i]); return d / a.size(); }

// the tracker of both programs: options for it and the faults it may have
struct Options {
    std::vector<std::string> args, targs; std::map<std::string, std::string> params, evars; int mode;
    Options(Tape &t) {
        mode = (int) t.below(3); if (mode == 1) args.push_back("-x"); if (mode == 2) args.push_back("-X"); if (t.chance(1, 4)) args.push_back("-d");
        auto opt = [&](const char *o, const std::string &v) { if (t.chance(1, 4) && !v.empty()) args.push_back(o + v); else { args.push_back(o); args.push_back(v); } };
        for (size_t i = 0, k = t.below(3); i < k; i++) { std::string key = word(t), v = text(t, false); params[key] = v; opt("-p", key + "=" + v); }
        for (size_t i = 0, k = t.below(3); i < k; i++) { std::string key = "E" + word(t), v = text(t, false); evars[key] = v; opt("-e", key + "=" + v); }
        targs.push_back(child_path()); for (size_t i = 0, k = t.below(4); i < k; i++) targs.push_back(t.flip() ? word(t) : t.flip() ? text(t, false) : t.pick(std::vector<std::string>{"", " ", "\"", "\\", "a b", "x\\\"y\\", "\\\\", "-I", "--"}));
    }
    void finish() { args.push_back("--"); for (auto &a : targs) args.push_back(a); }
    void started_as_told(const std::string &file) { Dump d = read_dump(file); check(d.args == targs, "arguments of the tracker differ", cat(d.args.size(), " for ", targs.size())); for (auto &kv : evars) check(d.env.count(kv.first) && d.env[kv.first] == kv.second, "environment of the tracker differs", kv.first); connected(d, mode); }
};
static const std::vector<std::string> FAULTS{"H", "X0", "X1", "b\x01H", "T@@TRAX:state \"1,2,3\"\n\x01H", "T@@TRAX:frame\n\x01H", "C\x01H", "T@@TRAX:sta\x01X3", "J", "T@@TRAX:state\n\x01H"};
struct Requests {                       // reads what was asked in order
    std::vector<Message> m; size_t k = 0;
    Message &next(const char *type) { check(k < m.size(), "request missing", cat("request ", k, ": ", type)); check(m[k].type == type, "unexpected request", cat("request ", k, ": ", m[k].type, " for ", type)); return m[k++]; }
};
static std::map<std::string, std::string> surroundings(const Dir &dir, const std::string &script, const Options &o) {
    std::map<std::string, std::string> env; env["TRAXV_SCRIPT"] = script; env["TRAXV_PID"] = dir.path + "/pids"; env["TMPDIR"] = dir.path; for (auto &kv : o.evars) env.erase(kv.first);
    return env;
}

// ------------------------------------------------------------------ C35
static void c35(Tape &t, Ctx &c) {
    Dir dir; std::string pids = dir.path + "/pids", rec = dir.path + "/requests", dumpf = dir.path + "/dump";
    Options o(t); Port port(o.mode == 2);
    int version = t.chance(1, 5) ? (int) t.range(1, 3) : 4; bool multi = version == 4 && t.flip();
    int images = t.chance(1, 10) ? TRAX_IMAGE_URL : 1 + (int) t.below(15); size_t rounds = t.flip() ? 1 : 1 + t.below(3); const size_t FRAMES = 20;
    if (rounds > 1 || t.chance(1, 4)) { if (t.flip()) o.args.push_back("-I" + std::to_string(rounds)); else { o.args.push_back("-I"); o.args.push_back(std::to_string(rounds)); } }
    bool usable = images & (TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY | TRAX_IMAGE_BUFFER);
    int kind = (int) t.weighted({6, 5, 1, 1, 1, 1});   // 0 well-behaved, 1 a fault on the way, 2 fault at the start, 3 no such command, 4 wrong switch, 5 help
    // a slow tracker: one long pause without a timeout, or many pauses that are each shorter than the timeout
    int slow = kind == 0 ? (int) t.weighted({14, 1, 1}) : 0; size_t pause = t.below(rounds * (FRAMES + 1)); if (slow == 2 && rounds > 1) slow = 1;
    std::string script; Script part; if (version < 4) part.add("V"); part.add("R" + rec).add("D" + dumpf);
    size_t at = kind == 1 ? t.below(rounds * (FRAMES + 1)) : rounds * (FRAMES + 1), seen = 0; bool broken = kind == 2;
    if (kind == 2) part.add(t.pick(std::vector<std::string>{"X0", "X1", "H", cat("K", SIGSEGV), "T" + line_hello(99, multi, formats(images)) + "\x01H", "T@@TRAX:state \"1,2,3,4\"\n\x01H", "b\x01H", "J"}));
    else part.add("T" + line_hello(version, multi, formats(images)));
    struct Call { bool init; size_t objects; }; std::vector<Call> calls;
    for (size_t r = 0; r < rounds && !broken && usable; r++) {
        size_t objects = multi ? 3 : 1;
        for (size_t f = 0; f <= FRAMES && !broken; f++) {
            size_t added = f == 0 ? objects : multi && f % 5 == 4 ? 1 : 0; if (f) objects += added; calls.push_back({f == 0, added});
            part.add("W1");
            if (seen++ == at) {
                std::string x; if (multi && t.chance(1, 3)) { MObjects some; for (size_t i = 0, n = t.below(objects); i < n; i++) some.push_back({region(t, TRAX_REGION_RECTANGLE), {}}); x = "T" + line_state(some) + "\x01H"; if (some.empty()) x = "H"; } else x = t.pick(FAULTS);
                if (t.chance(1, 3)) part.add("I"); part.add(x); broken = true; break;
            }
            if (slow == 2) part.add("S300"); if (slow == 1 && calls.size() - 1 == pause) part.add("S2500");
            MObjects states; for (size_t i = 0; i < objects; i++) { MRegion r = region(t, TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_SPECIAL); states.push_back({r, few(t)}); }
            part.add("T" + line_state(states));
        }
    }
    script = part.s; std::string missing = dir.path + "/none";
    if (kind == 3) o.targs[0] = missing;
    o.args.push_back("-t"); o.args.push_back(slow == 1 ? "0" : slow == 2 ? "4" : kind == 0 ? "20" : "1"); if (slow) c.tag(slow == 1 ? "no timeout" : "slow tracker");
    if (kind == 4) o.args.push_back(t.pick(std::vector<std::string>{"-z", "-Q", "-G"})); if (kind == 5) o.args.push_back("-h");
    if (kind == 4 && t.chance(1, 3)) o.targs.clear();
    o.finish();
    c.note(cat("version ", version, multi ? " multi-object" : "", " formats ", formats(images), ", ", rounds, " initializations", kind == 1 ? cat(", fault at request ", at) : kind == 2 ? ", fault at the start" : kind == 3 ? ", no such command" : kind == 4 ? ", wrong switch" : kind == 5 ? ", help" : "", slow == 1 ? ", no timeout" : slow == 2 ? ", slow" : "", o.mode == 0 ? "" : o.mode == 1 ? ", dedicated streams" : ", socket"));
    try {
        Result r = run("traxtest", o.args, surroundings(dir, script, o), dir, 60000, false);
        none_running(pids, "ended");
        if (kind == 5) { c.tag("help"); check(r.status == 0, "no help", cat("status ", r.status)); check(r.out.find("-I") != std::string::npos && started(pids).empty(), "no help"); return; }
        if (kind >= 3) { c.tag(kind == 3 ? "no such command" : "wrong switch"); check(r.status != 0, "successful exit code without a tracker"); check(started(pids).empty(), "a tracker was started"); c.nontrivial = true; return; }
        if (broken) { c.tag(kind == 2 ? "fault at the start" : "fault"); check(r.status != 0, "a failure of the tracker gives a successful exit code", quote(r.err, 200)); c.nontrivial = true; return; }
        o.started_as_told(dumpf); check(started(pids).size() == 1, "number of starts differs", cat(started(pids).size()));
        if (!usable) { c.tag("no usable format"); check(r.status != 0, "successful exit code although no format is supported"); c.nontrivial = true; return; }
        check(r.status == 0, "the test of a well-behaved tracker fails", cat("status ", r.status, " ", quote(r.err, 300)));
        // what the tracker got
        Requests q; q.m = requests_in(slurp(rec + ".0")); std::string box = encoded(rectangle(130, 80, 70, 110)), first; std::map<std::string, std::string> none; size_t have = 0;
        for (size_t i = 0; i < calls.size(); i++) {
            Call &call = calls[i]; std::string where = cat("request ", i), image;
            if (version < 4 && call.init) { Message &m = q.next("initialize"); check(m.args.size() == 2 && m.args[1] == box, "initialization differs", where); same(o.params, m.props, "parameters"); image = m.args[0]; }
            else {
                if (call.init && have) { Message &m = q.next("initialize"); check(m.args.empty(), "the objects of the last session are not removed", where); }
                for (size_t k = 0; k < call.objects; k++) { Message &m = q.next("initialize"); check(m.args.size() == 1 && m.args[0] == box, "object differs", where); for (auto &kv : m.props) check(o.params.count(kv.first) && o.params[kv.first] == kv.second, "parameter differs", kv.first); }
                Message &m = q.next("frame"); check(m.args.size() == 1, "number of images differs", where); same(call.objects ? o.params : none, m.props, "parameters"); image = m.args[0];
            }
            have = call.init ? call.objects : have + call.objects;
            if (i) { check(image == first, "the image changes", where); continue; }
            first = image; std::string data;
            if (images & TRAX_IMAGE_BUFFER) data = unbase64(tail(image, "data:image/jpeg;", "no buffer although the tracker takes buffers"));
            else if (images & TRAX_IMAGE_MEMORY) data = unbase64(tail(image, "image:320;240;rgb;", "no pixels although the tracker takes them"));
            else data = slurp(tail(image, "file://", "no path although the tracker takes paths"));
            // the picture is the same in every format
            std::string reference = rgb(decoded(slurp(beside("static.jpg")))); std::string pixels = images & TRAX_IMAGE_BUFFER || !(images & TRAX_IMAGE_MEMORY) ? rgb(decoded(data)) : data;
            check(pixels.size() == 320 * 240 * 3, "size of the picture differs", cat(pixels.size())); check(difference(pixels, reference) < 12, "the picture differs from the test picture", cat(difference(pixels, reference)));
        }
        check(q.k + 1 >= q.m.size() && (q.k == q.m.size() || q.m[q.k].type == "quit"), "more requests than frames", cat(q.m.size(), " for ", q.k));
        c.tag(images & TRAX_IMAGE_BUFFER ? "buffer" : images & TRAX_IMAGE_MEMORY ? "memory" : "path"); if (multi) c.tag("multi-object"); if (rounds > 1) c.tag("initialized again"); if (version < 4) c.tag("old version");
        c.nontrivial = true;
    } catch (Failure &) { for (int p : started(pids)) if (running(p)) kill(p, SIGKILL); throw; }
}
static Register r35({"C35", "traxtest tests a scripted tracker: any protocol version and formats, one or several objects and initializations, options, arguments and environment, possibly with a fault at some request or at the start; non-trivial unless only help is asked for", c35, 120, true, 20, 48,
    {"coordinates are multiples of 1/16, exact in the printed decimals", "the tracker takes color images and does not quit by itself", "a list of objects in the middle of a session adds one object after every fifth answer"}});

// ------------------------------------------------------------------ C36
static void c36(Tape &t, Ctx &c) {
    Dir dir; std::string pids = dir.path + "/pids", rec = dir.path + "/requests", dumpf = dir.path + "/dump", shownf = dir.path + "/shown";
    Options o(t); Port port(o.mode == 2);
    int version = t.chance(1, 4) ? (int) t.range(1, 3) : 4, images = t.chance(1, 12) ? t.pick(std::vector<int>{TRAX_IMAGE_PATH, TRAX_IMAGE_URL}) : 1 + (int) t.below(15); bool usable = images & (TRAX_IMAGE_MEMORY | TRAX_IMAGE_BUFFER);
    // the video: smooth pictures, so that lossy encoding changes little
    int w = 16 + (int) t.below(40), h = 16 + (int) t.below(40); size_t n = 1 + t.below(8); std::vector<cv::Mat> video;
    for (size_t i = 0; i < n; i++) {
        int a = (int) t.below(120), b = (int) t.below(120), d = (int) t.below(120); cv::Mat m(h, w, CV_8UC3); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m.at<cv::Vec3b>(y, x) = cv::Vec3b(a + x, b + y, d + (x + y) / 2);
        Untracked u; cv::imwrite(cat(dir.path, "/frame", i, ".png"), m); video.push_back(m);
    }
    // the drawn rectangle, in any direction
    int x1 = (int) t.below(w), y1 = (int) t.below(h), x2 = (int) t.below(w), y2 = (int) t.below(h); if (x2 == x1) x2 = x1 + 1; if (y2 == y1) y2 = y1 + 1; bool drawn = !t.chance(1, 12);
    MRegion box = rectangle((float) std::min(x1, x2), (float) std::min(y1, y2), (float) std::abs(x1 - x2), (float) std::abs(y1 - y2));
    int kind = (int) t.weighted({6, 5, 1, 1, 1});      // 0 well-behaved, 1 a fault on the way, 2 fault at the start, 3 no such command, 4 no video
    int slow = kind == 0 ? (int) t.weighted({14, 1, 1}) : 0; size_t pause = t.below(n);
    Script part; if (version < 4) part.add("V"); part.add("R" + rec).add("D" + dumpf); bool broken = kind == 2; size_t at = kind == 1 ? t.below(n) : n; std::vector<MRegion> answers;
    if (kind == 2) part.add(t.pick(std::vector<std::string>{"X0", "X1", "H", "b\x01H", "J"})); else part.add("T" + line_hello(version, false, formats(images)));
    for (size_t i = 0; i < n && !broken && usable; i++) {
        part.add("W1"); if (i == at) { if (t.chance(1, 3)) part.add("I"); part.add(t.pick(FAULTS)); broken = true; break; }
        if (slow == 2) part.add("S900"); if (slow == 1 && i == pause) part.add("S2500");
        MRegion a = t.chance(1, 4) ? region(t, TRAX_REGION_SPECIAL) : rectangle((float) t.below(w), (float) t.below(h), (float) (1 + t.below(w)), (float) (1 + t.below(h))); if (t.chance(1, 4) && a.type == TRAX_REGION_RECTANGLE) { MRegion p; p.type = TRAX_REGION_POLYGON; p.pts = {{a.x, a.y}, {a.x + a.w, a.y}, {a.x + a.w, a.y + a.h}}; a = p; }
        answers.push_back(a); part.add("T" + line_state(MObjects{{a, few(t)}}));
    }
    if (kind == 3) o.targs[0] = dir.path + "/none";
    o.args.push_back("-t"); o.args.push_back(slow == 1 ? "0" : slow == 2 ? "4" : kind == 0 ? "20" : "1"); if (slow) c.tag(slow == 1 ? "no timeout" : "slow tracker"); o.args.push_back("-V"); o.args.push_back(dir.path + (kind == 4 ? "/other%d.png" : "/frame%d.png")); if (t.chance(1, 4)) o.args.push_back("-g");
    o.finish();
    c.note(cat("version ", version, " formats ", formats(images), ", ", n, " frames of ", w, "x", h, drawn ? "" : ", nothing drawn", kind == 1 ? cat(", fault at request ", at) : kind == 2 ? ", fault at the start" : kind == 3 ? ", no such command" : kind == 4 ? ", no video" : "", slow == 1 ? ", no timeout" : slow == 2 ? ", slow" : "", o.mode == 0 ? "" : o.mode == 1 ? ", dedicated streams" : ", socket"));
    auto env = surroundings(dir, part.s, o); env["TRAXV_SHOWN"] = shownf; env["TRAXV_DRAW"] = drawn ? cat(x1, " ", y1, " ", x2, " ", y2, ";n;") : "n;";
    try {
        Result r = run("traxplayer", o.args, env, dir, 60000, false);
        none_running(pids, "ended");
        if (kind == 4) { c.tag("no video"); check(r.status != 0, "successful exit code without a video"); c.nontrivial = true; return; }
        if (!drawn) { c.tag("nothing drawn"); if (kind < 2) check(r.status == 0, "canceled input fails", cat("status ", r.status, " ", quote(r.err, 300))); check(!exists(rec + ".0") || requests_in(slurp(rec + ".0")).empty() || requests_in(slurp(rec + ".0"))[0].type == "quit", "request although no region was drawn"); return; }
        if (kind == 3) { c.tag("no such command"); check(r.status != 0, "successful exit code without a tracker"); c.nontrivial = true; return; }
        if (broken) { c.tag(kind == 2 ? "fault at the start" : "fault"); check(r.status != 0, "a failure of the tracker gives a successful exit code", quote(r.err, 200)); c.nontrivial = true; return; }
        o.started_as_told(dumpf); check(started(pids).size() == 1, "number of starts differs", cat(started(pids).size()));
        if (!usable) { c.tag("no usable format"); check(r.status != 0, "successful exit code although no format is supported"); c.nontrivial = true; return; }
        check(r.status == 0, "the player fails with a well-behaved tracker", cat("status ", r.status, " ", quote(r.err, 300)));
        Requests q; q.m = requests_in(slurp(rec + ".0"));
        for (size_t i = 0; i < n; i++) {
            std::string where = cat("frame ", i), image; std::map<std::string, std::string> none;
            if (version < 4 && !i) { Message &m = q.next("initialize"); check(m.args.size() == 2 && m.args[1] == encoded(box), "initialization differs", m.args.size() > 1 ? m.args[1] : ""); same(o.params, m.props, "parameters"); image = m.args[0]; }
            else {
                if (!i) { Message &m = q.next("initialize"); check(m.args.size() == 1 && m.args[0] == encoded(box), "the tracker is not initialized with the drawn region", m.args.size() ? m.args[0] : ""); for (auto &kv : m.props) check(o.params.count(kv.first) && o.params[kv.first] == kv.second, "parameter differs", kv.first); }
                Message &m = q.next("frame"); check(m.args.size() == 1, "number of images differs", where); same(i ? none : o.params, m.props, "parameters"); image = m.args[0];
            }
            std::string want = rgb(video[i]);
            if (images & TRAX_IMAGE_BUFFER) { std::string got = rgb(decoded(unbase64(tail(image, "data:image/", "no buffer although the tracker takes buffers").substr(5)))); check(got.size() == want.size() && difference(got, want) < 4, "the picture differs from the frame of the video", cat(where, " difference ", difference(got, want))); }
            else check(unbase64(tail(image, cat("image:", w, ";", h, ";rgb;"), "no pixels although the tracker takes them")) == want, "the picture differs from the frame of the video", where);
        }
        check(q.k + 1 >= q.m.size() && (q.k == q.m.size() || q.m[q.k].type == "quit"), "more requests than frames", cat(q.m.size(), " for ", q.k));
        // what the user sees: the initialization, then every answer on its frame
        std::string s = slurp(shownf); size_t k = 0, i = 0;
        while (k < s.size()) {
            int sw, sh, st, len; check(sscanf(s.c_str() + k, "%d %d %d%n", &sw, &sh, &st, &len) == 3, "the shown image is none"); k += len + 1; check(sw == w && sh == h && st == CV_8UC3 && k + w * h * 3 <= s.size(), "the shown image has another size", cat(sw, "x", sh));
            check(i <= n, "more images shown than frames"); size_t f = i ? i - 1 : 0; MRegion a = i ? answers[f] : box, b; float ax = 0, ay = 0, bx = -100, by = -100;
            if (a.type == TRAX_REGION_RECTANGLE) { ax = a.x; ay = a.y; bx = a.x + a.w; by = a.y + a.h; } else if (a.type == TRAX_REGION_POLYGON) { ax = a.pts[0].first; ay = a.pts[0].second; bx = a.pts[2].first; by = a.pts[2].second; }
            bool marked = false;
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
                bool same = !memcmp(s.data() + k + (y * w + x) * 3, video[f].ptr(y) + x * 3, 3); if (same) continue;
                marked = true; bool near = x >= ax - 3 && x <= bx + 3 && y >= ay - 3 && y <= by + 3; if (i == 1) near = near || (x >= box.x - 3 && x <= box.x + box.w + 3 && y >= box.y - 3 && y <= box.y + box.h + 3);
                check(near, "the shown image differs from the frame outside of the region", cat("image ", i, " at ", x, ",", y, " box ", box.x, " ", box.y, " ", box.w, " ", box.h, " region ", ax, " ", ay, " ", bx, " ", by));
            }
            if (a.type != TRAX_REGION_SPECIAL && ax < w - 1 && ay < h - 1) check(marked, "the region is not shown", cat("image ", i));
            k += w * h * 3; i++;
        }
        check(i == n + 1, "not every answer is shown", cat(i, " for ", n + 1));
        c.tag(images & TRAX_IMAGE_BUFFER ? "buffer" : "memory"); if (version < 4) c.tag("old version"); if (x2 < x1 || y2 < y1) c.tag("drawn backwards");
        c.nontrivial = true;
    } catch (Failure &) { for (int p : started(pids)) if (running(p)) kill(p, SIGKILL); throw; }
}
static Register r36({"C36", "traxplayer plays a generated video to a scripted tracker for a user who draws a rectangle, with options, formats and protocol versions, possibly with a fault; window and video decoder are replaced; non-trivial unless nothing was drawn", c36, 120, true, 20, 48,
    {"the stand-ins of OpenCV's window and video reader follow its documentation", "coordinates are exact in the printed decimals", "the tracker takes color images and does not quit by itself"}});
