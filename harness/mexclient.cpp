// C34: the client function of Octave and MATLAB runs a scripted tracker for a callback.  The function
// runs in this process on top of harness/mex; what the tracker received is read by the C server.
#include "session.hpp"
#include "procgen.hpp"
#include "mex/mexrt.hpp"
#include "mexgen.hpp"
#include <atomic>
#include <chrono>
#include <thread>
#include <octave/quit.h>
#include <octave/sighandlers.h>
using namespace ses;
using namespace procgen;
using namespace mxg;

extern "C" void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);

// the part of the interpreter that deals with interrupts: Octave receives them in a thread of its own and counts them
sig_atomic_t octave_interrupt_state = 0; volatile sig_atomic_t octave_signal_caught = 0;
static void (*handler)(int) = nullptr;
namespace octave { interrupt_handler set_interrupt_handler(const volatile interrupt_handler &h, bool) { interrupt_handler old; old.int_handler = old.brk_handler = handler; handler = h.int_handler; return old; } }
extern "C" void octave_handle_signal(void) { if (octave_interrupt_state > 0) { octave_interrupt_state = -1; throw mx::Error("interrupted"); } }
static void interrupt() { octave_interrupt_state++; octave_signal_caught = 1; }
static void calm() { octave_interrupt_state = 0; octave_signal_caught = 0; }      // what the interpreter does after an error

static const mx::Arr *field(const mx::Arr *a, const char *name) {
    check(a && a->cls == mxSTRUCT_CLASS && a->count() == 1, "not a structure", mx::show(a));
    for (size_t i = 0; i < a->fields.size(); i++) if (a->fields[i] == name) return a->cells[i];
    fail("field missing", name);
}
static bool none(const mx::Arr *a) { return !a || mx::is_empty(a); }
static void same_names(const mx::Arr *a, int value, const Names &names, const char *what) {
    check(a && a->cls == mxCELL_CLASS, cat(what, ": not a cell array"), mx::show(a));
    int got = 0;
    for (auto e : a->cells) { std::string s = mx::text(e, what); bool known = false; for (auto &n : names) if (s == n.second) { check(!(got & n.first), cat(what, ": twice"), s); got |= n.first; known = true; } check(known, cat(what, ": unknown name"), s); }
    check(got == value, cat(what, ": differ"), cat("wanted ", value, ", got ", got));
}
static std::string hello(int version, int regions, int images, int channels, const std::string &name, const std::string &desc, const std::string &family) {
    auto list = [](int v, const Names &n) { std::string s; for (auto &x : n) if (v & x.first) s += (s.empty() ? "" : ";") + std::string(x.second); return s; };
    std::string im; for (auto &x : IMAGE_NAMES) if (images & x.first) im += (im.empty() ? "" : ";") + std::string(x.first == TRAX_IMAGE_BUFFER ? "buffer" : x.second);
    return cat("@@TRAX:hello \"trax.version=", version, "\" \"trax.name=", esc(name), "\" \"trax.description=", esc(desc), "\" \"trax.family=", esc(family), "\" \"trax.region=", list(regions, REGION_NAMES), "\" \"trax.image=", im, "\" \"trax.channels=", list(channels, CHANNEL_NAMES), "\"\n");
}
// any value a script may want to keep
static mx::Arr *anything(Tape &t, int depth = 0) {
    switch (t.below(depth > 2 ? 4 : 6)) {
    case 0: return mx::number((double) t.range(-100, 100));
    case 1: return mx::empty();
    case 2: return mx::str(text(t, false));
    case 3: { std::string d = bytes(t, 1 + t.below(30)); return mx::array(mxUINT8_CLASS, {1, (mwSize) d.size()}, d.data()); }
    case 4: { std::vector<mx::Arr *> e; size_t n = t.below(4); for (size_t i = 0; i < n; i++) e.push_back(anything(t, depth + 1)); return mx::cell({1, (mwSize) n}, e); }
    default: { std::vector<std::pair<std::string, mx::Arr *>> e; size_t n = t.below(4); for (size_t i = 0; i < n; i++) e.push_back({cat("f", i), anything(t, depth + 1)}); return mx::record(e); }
    }
}

// turns a request of the callback into something that is none
static void spoil(Tape &t, std::vector<mx::Arr *> &out, int channels) {
    auto put = [&](size_t i, mx::Arr *a) { mx::drop(out[i]); out[i] = a; };
    auto numbers = [&](mwSize n) { std::vector<double> v; for (mwSize i = 0; i < n; i++) v.push_back((double) t.range(0, 50)); return mx::array(mxDOUBLE_CLASS, {1, n}, v.data()); };
    auto odd = [&]() -> mx::Arr * {          // no image
        switch (t.below(6)) {
        case 0: return mx::array(mxUINT8_CLASS, {2, 2, 1 + (mwSize) t.below(3), 2});
        case 1: return mx::array(mxUINT8_CLASS, {1 + (mwSize) t.below(4), 2, t.flip() ? 2u : 4u});
        case 2: return numbers(1 + (mwSize) t.below(5));
        case 3: return mx::array(mxUINT16_CLASS, {2, 2, 3});
        case 4: return mx::number(1, mxLOGICAL_CLASS);
        default: { std::string d = "ab"; return mx::array(mxCHAR_CLASS, {2, 1}, d.data()); }
        }
    };
    size_t count = (size_t) trax_image_list_count(channels);
    auto picture = [&] { return t.chance(1, 2) ? mx::str("/image") : mx::array(mxUINT8_CLASS, {2, 3}); };
    switch (t.below(5)) {
    case 0: switch (t.below(4)) {
        case 0: put(1, numbers(t.pick(std::vector<mwSize>{1, 2, 3, 5, 7, 9}))); break;
        case 1: put(1, mx::str(t.pick(std::vector<std::string>{"1,2,3,4", "x", "1234"}))); break;
        case 2: put(1, mx::array(mxINT32_CLASS, {1, 4})); break;
        default: put(1, mx::cell({1, 4}, {mx::number(1), mx::number(2), mx::number(3), mx::number(4)})); } break;
    case 1: if (count == 1 && t.flip()) put(0, odd());
            else { std::vector<mx::Arr *> e; size_t bad = t.below(count); for (size_t i = 0; i < count; i++) e.push_back(i == bad ? odd() : picture()); put(0, mx::cell({1, (mwSize) count}, e)); } break;
    case 2: { size_t m; do m = 1 + t.below(5); while (m == count); std::vector<mx::Arr *> e; for (size_t i = 0; i < m; i++) e.push_back(picture()); put(0, mx::cell({1, (mwSize) m}, e)); break; }
    case 3: if (count > 1) put(0, picture()); else { std::vector<mx::Arr *> e; for (int i = 0; i < 4; i++) e.push_back(picture()); put(0, mx::cell({2, 2}, e)); } break;
    default: { mwSize cols = t.flip() ? 1 : 3, rows = 1 + (mwSize) t.below(3); std::vector<mx::Arr *> e; for (mwSize i = 0; i < rows * cols; i++) e.push_back(mx::str("a")); put(2, mx::cell({rows, cols}, e)); }
    }
}

struct Sent { bool init; MRegion r; MImages im = MImages(3); MProps p; std::vector<std::pair<std::string, double>> nums; };

// a call that is none: an error before anything is started
static void misuse(Tape &t, Ctx &c, const std::string &pids) {
    std::vector<mx::Arr *> in{mx::str(child_path()), mx::function()}; int nlhs = (int) t.below(2); std::string what;
    for (size_t i = t.below(3); i > 0; i--) { in.push_back(mx::str(cased(t, "timeout"))); in.push_back(mx::number(5)); }
    auto put = [&](size_t i, mx::Arr *a) { mx::drop(in[i]); in[i] = a; };
    auto option = [&](const char *name, mx::Arr *a) { in.push_back(mx::str(cased(t, name))); in.push_back(a); };
    auto no_string = [&] { return t.flip() ? mx::number((double) t.range(-5, 300)) : mx::cell({1, 1}, {mx::str("socket")}); };
    switch (t.below(11)) {
    case 0: what = "few arguments"; { size_t keep = t.below(2); while (in.size() > keep) { mx::drop(in.back()); in.pop_back(); } } break;
    case 1: what = "the command is no string"; put(0, no_string()); break;
    case 2: what = "no function handle"; put(1, t.flip() ? mx::str("callback") : mx::number(1)); break;
    case 3: what = "no such option"; { std::string n; do n = word(t); while (n == "debug" || n == "timeout" || n == "connection" || n == "environment" || n == "data" || n == "directory" || n == "log"); option(("x" + n).c_str(), mx::number(1)); } break;
    case 4: what = "the option is no string"; in.push_back(no_string()); in.push_back(mx::number(1)); break;
    case 5: what = "no such connection"; option("connection", mx::str(t.pick(std::vector<std::string>{"", "sockets", "std", "explici", "standard "}))); break;
    case 6: what = "the connection is no string"; option("connection", no_string()); break;
    case 7: what = "the environment is no structure"; option("environment", t.flip() ? mx::str("A=b") : mx::cell({1, 2}, {mx::str("A"), mx::str("b")})); break;
    case 8: what = "a variable of the environment is no string"; option("environment", mx::record({{"A", mx::str("b")}, {"B", no_string()}})); break;
    case 9: what = "the directory is no string"; option("directory", no_string()); break;
    default: what = "too many results"; nlhs = 2; break;
    }
    c.note(what); c.tag("no call"); c.nontrivial = true;
    bool called = false; mx::callback = [&](int, const std::vector<const mx::Arr *> &, const std::string &) -> std::vector<mx::Arr *> { called = true; throw mx::Error("called"); };
    SetEnv e1("TRAXV_SCRIPT", ""), e2("TRAXV_PID", pids); calm();
    mx::Result r = mx::call(mexFunction, nlhs, in);
    mx::callback = nullptr;
    check(r.error, "a wrong call did not fail", what); check(!called, "a wrong call reached the callback", what);
    check(started(pids).empty(), "a wrong call started a tracker", what);
}

// whatever happened before, the next call works
static void again(const std::string &pids) {
    Script k; k.add("T" + hello(4, TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR, "n", "d", "f")); k.add("W1"); k.add("T@@TRAX:state 1,2,3,4\n");
    int calls = 0; mx::Arr *seen = nullptr; calm();
    mx::callback = [&](int, const std::vector<const mx::Arr *> &a, const std::string &) -> std::vector<mx::Arr *> {
        std::vector<mx::Arr *> out;
        if (calls++) { seen = mx::copy(field(a[1], "region")); out = {mx::empty(), mx::empty(), mx::empty(), mx::empty()}; }
        else { double r[] = {0, 0, 5, 5}; out = {mx::str("/image"), mx::array(mxDOUBLE_CLASS, {1, 4}, r), mx::empty(), mx::empty()}; }
        return out;
    };
    SetEnv e1("TRAXV_SCRIPT", k.s), e2("TRAXV_PID", pids);
    mx::Result r = mx::call(mexFunction, 0, {mx::str(child_path()), mx::function(), mx::str("timeout"), mx::number(20)});
    mx::callback = nullptr; MRegion w; w.type = TRAX_REGION_RECTANGLE; w.x = 1; w.y = 2; w.w = 3; w.h = 4;
    check(!r.error, "the next call failed", r.message); check(calls == 2, "number of callbacks of the next call differs", cat(calls));
    same_region(w, seen, "state of the next call"); mx::drop(seen); none_running(pids, "the next call");
}

static void c34(Tape &t, Ctx &c) {
    Dir dir; std::string pids = dir.path + "/pids", rec = dir.path + "/requests", dumpf = dir.path + "/dump";
    lnk::init();
    if (t.chance(1, 10)) { misuse(t, c, pids); return; }
    // the tracker
    Config k; k.version = t.chance(1, 5) ? 3 : 4; k.multi = false;
    k.images = t.pick(std::vector<int>{TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY, TRAX_IMAGE_PATH, TRAX_IMAGE_MEMORY, TRAX_IMAGE_ANY}); k.channels = t.chance(1, 2) ? 1 : 1 + (int) t.below(7);
    auto clean = [](std::string s) { std::string r; for (char x : s) if (x != 1 && x != 2) r += x; return r; };
    k.name = clean(text(t, false)); k.desc = clean(text(t, false)); k.family = word(t);
    bool faulty = t.chance(1, 5), broken = false, endless = false; int ending = (int) t.weighted({5, 1, 1, 1, 1}); if (faulty) ending = 0;     // 1 frame before initialization, 2 the callback fails, 3 interrupt, 4 the callback gives something that is no request
    bool hanging = ending == 3 && t.flip();       // the interrupt comes while the tracker keeps everybody waiting
    size_t n = ending == 1 ? 0 : 1 + t.below(6);
    // the requests, the answers, the script
    std::vector<Sent> sent; std::vector<std::pair<MRegion, MProps>> answers; std::vector<size_t> starts; std::string script; Script part;
    auto begin = [&] { part = Script(); if (k.version < 4) part.add("V"); part.add("R" + rec); if (starts.empty()) part.add("D" + dumpf); part.add("T" + hello(k.version, k.regions, k.images, k.channels, k.name, k.desc, k.family)); starts.push_back(sent.size()); };
    auto finish = [&] { if (starts.size() > 1) script += '\x02'; script += part.s; };
    begin();
    static const std::vector<std::string> F{"H", "X0", "X1", "b\x01H", "T@@TRAX:state \"1,2,3\"\n\x01H", "T@@TRAX:frame\n\x01H", "C\x01H", "T@@TRAX:sta\x01X3", "J", "T@@TRAX:quit\n\x01H"};
    for (size_t i = 0; i < n && !broken; i++) {
        Sent s; s.init = i == 0 || t.chance(1, 6);
        if (s.init && i) { finish(); begin(); }
        if (s.init) s.r = answer_region(t);
        s.im = gen::images(t, k.channels, k.images & (TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY), t.chance(1, 4));
        for (auto &x : s.im) if (x.type == TRAX_IMAGE_PATH && x.s.empty()) x.s = "/";      // an empty image ends the session
        sent.push_back(s);
        part.add("W1");
        if (faulty && t.chance(1, 3)) { if (t.chance(1, 3)) part.add("I"); const std::string &f = t.pick(F); endless = f == "J"; part.add(f); broken = true; answers.push_back({}); break; }
        if (hanging && i + 1 == n) { part.add("H"); answers.push_back({}); break; }
        MRegion a = gen::region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL); nearby(t, a);
        answers.push_back({a, few(t)});
        part.add("T" + line_state({{answers.back().first, answers.back().second}}));
    }
    finish();
    if (faulty && !broken) c.tag("fault not reached");
    // the call
    int mode = (int) t.below(3); Port port(mode == 2);
    static const char *MODES[] = {"standard", "explicit", "socket"};
    std::string command = child_path(); std::vector<std::string> targs{command}; for (size_t i = 0, m = t.below(3); i < m; i++) { targs.push_back(word(t)); command += " " + targs.back(); }
    std::map<std::string, std::string> evars; for (size_t i = 0, m = t.below(3); i < m; i++) evars["E" + word(t)] = clean(text(t, false));
    bool own_dir = t.chance(1, 4), own_log = t.chance(1, 6), printed = !own_log && t.chance(1, 6) && !endless;     // printed output is kept in memory until the call ends
    std::vector<std::pair<std::string, mx::Arr *>> named;
    if (mode || t.chance(1, 3)) named.push_back({"connection", mx::str(cased(t, MODES[mode]))});
    named.push_back({"timeout", mx::number(faulty ? 1 : 20)});
    if (!evars.empty() || t.chance(1, 6)) { std::vector<std::pair<std::string, mx::Arr *>> e; for (auto &kv : evars) e.push_back({kv.first, text_value(t, kv.second)}); named.push_back({"environment", mx::record(e)}); }
    if (own_dir) { mkdir((dir.path + "/work").c_str(), 0700); named.push_back({"directory", mx::str(dir.path + "/work")}); }
    if (own_log || printed) named.push_back({"log", mx::str(own_log ? dir.path + "/log" : "#")});
    if (t.chance(1, 3)) named.push_back({"debug", mx::number((double) t.below(2), t.flip() ? mxLOGICAL_CLASS : mxDOUBLE_CLASS)});
    mx::Arr *data = nullptr; if (t.chance(1, 2)) { data = anything(t); named.push_back({"data", mx::copy(data)}); } else data = mx::empty();
    for (size_t i = named.size(); i > 1; i--) std::swap(named[i - 1], named[t.below(i)]);
    std::vector<mx::Arr *> in{mx::str(command), mx::function()}; for (auto &x : named) { in.push_back(mx::str(cased(t, x.first))); in.push_back(x.second); }
    c.note(cat("version ", k.version, " images ", k.images, " channels ", k.channels, " ", MODES[mode], ", ", n, " requests, ", starts.size(), " starts", broken ? ", faulty" : ending == 1 ? ", frame before initialization" : ending == 2 ? ", callback fails" : ending == 3 ? ", interrupted" : ending == 4 ? ", no request at the end" : ""));
    // the callback
    size_t calls = 0; Failure bad; bool failed = false; std::string complaint = "callback says no";
    calm();
    mx::callback = [&](int nlhs, const std::vector<const mx::Arr *> &a, const std::string &name) -> std::vector<mx::Arr *> {
        size_t i = calls++;
        try {
            check(name == "feval" && a.size() == 3 && a[0]->cls == mxFUNCTION_CLASS && nlhs == 4, "callback not called as told");
            check(i <= sent.size(), "callback called again after the end");
            check(!broken || i < sent.size(), "callback called although the tracker failed");
            const mx::Arr *s = a[1], *r = field(s, "region"), *tm = field(s, "time"), *p = field(s, "properties"), *tr = field(s, "tracker"), *f = field(s, "formats");
            check(tm && tm->cls == mxDOUBLE_CLASS && tm->count() == 1, "time is not a number", mx::show(tm));
            double secs = mx::value(tm, 0);
            if (i == 0) { check(none(r), "a region before the first frame", mx::show(r)); check(secs == 0, "time before the first frame", cat(secs)); same_params(MProps(), p, true, "properties of the state"); }
            else { same_region(answers[i - 1].first, r, "region of the state"); check(secs >= 0 && secs < 60, "time of a frame", cat(secs)); same_params(answers[i - 1].second, p, true, "properties of the state"); }
            check(mx::text(field(tr, "name"), "tracker name") == k.name, "tracker name differs", cat("wanted ", quote(k.name), ", got ", mx::show(field(tr, "name"))));
            check(mx::text(field(tr, "description"), "tracker description") == k.desc, "tracker description differs");
            check(mx::text(field(tr, "family"), "tracker family") == k.family, "tracker family differs");
            same_names(field(f, "region"), k.regions, REGION_NAMES, "region formats"); same_names(field(f, "image"), k.images, IMAGE_NAMES, "image formats");
            same_names(field(s, "channels"), k.channels, CHANNEL_NAMES, "channels");
            check(mx::equal(a[2], data), "data kept for the callback differs", cat("wanted ", mx::show(data), ", got ", mx::show(a[2])));
        } catch (const Failure &e) { if (!failed) bad = e; failed = true; throw mx::Error("check failed"); }
        mx::drop(data); data = t.chance(1, 5) ? mx::empty() : anything(t);
        std::vector<mx::Arr *> out;
        if (ending == 2 && i + 1 >= n) throw mx::Error(complaint);
        if (ending == 3 && !hanging && i + 1 >= n) interrupt();
        if (i < sent.size()) {
            Sent &q = sent[i];
            std::vector<mx::Arr *> im; for (int ch = 0; ch < 3; ch++) if (q.im[(size_t) ch].type) im.push_back(image(q.im[(size_t) ch]));
            mwSize m = (mwSize) im.size();
            out.push_back(m == 1 && t.chance(2, 3) ? im[0] : t.chance(1, 3) ? mx::cell({m, 1}, im) : mx::cell({1, m}, im));
            out.push_back(q.init ? mxg::region(t, q.r) : mx::empty());
            out.push_back(t.chance(1, 3) ? mx::empty() : parameters(t, q.p, q.nums));
            if (ending == 4 && i + 1 >= n) spoil(t, out, k.channels);
        } else if (ending == 1) { out.push_back(image(gen::image(t, TRAX_IMAGE_MEMORY, false))); out.push_back(mx::empty()); out.push_back(mx::empty()); if (k.channels & (k.channels - 1)) { std::vector<mx::Arr *> im{out[0]}; for (int ch = 1; ch < trax_image_list_count(k.channels); ch++) im.push_back(image(gen::image(t, TRAX_IMAGE_MEMORY, false))); out[0] = mx::cell({1, (mwSize) im.size()}, im); } }
        else { out.push_back(t.flip() ? mx::empty() : mx::str("")); out.push_back(mx::empty()); out.push_back(mx::empty()); }
        out.push_back(mx::copy(data));
        return out;
    };
    try {
        int nlhs = (int) t.below(2); bool error; std::string message;
        {
            SetEnv e1("TRAXV_SCRIPT", script), e2("TRAXV_PID", pids);
            std::atomic<bool> over{false}; std::thread user; std::chrono::steady_clock::time_point then; bool sent_it = false;
            if (hanging) { int ms = t.chance(1, 4) ? (int) t.range(0, 100) : (int) t.range(100, 1200); user = std::thread([&, ms] { for (int w = 0; w < ms && !over; w += 20) usleep(20000); then = std::chrono::steady_clock::now(); sent_it = true; interrupt(); }); }
            mx::Result r = mx::call(mexFunction, nlhs, in);
            over = true; if (user.joinable()) user.join();
            if (sent_it) { double late = std::chrono::duration<double>(std::chrono::steady_clock::now() - then).count(); check(late < 8, "an interrupt did not end the call that waits for the tracker", cat("for ", late, " s")); c.tag("interrupted while waiting"); }
            error = r.error; message = r.message;
            if (failed) throw bad;
            if (!error && nlhs) check(mx::equal(r.out[0], data), "result is not the data of the last call", cat("wanted ", mx::show(data), ", got ", mx::show(r.out[0])));
        }
        mx::callback = nullptr; mx::drop(data); data = nullptr;
        none_running(pids, "done");
        if (broken || ending >= 2) {
            check(error, broken ? "the failure of the tracker was not reported" : ending == 2 ? "the failure of the callback was not reported" : ending == 4 ? "something that is no request was accepted" : "an interrupted session ended without an error");
            if (ending == 2) check(message.find(complaint) != std::string::npos, "message of the callback lost", quote(message));
            c.tag(broken ? "tracker failure" : ending == 2 ? "callback failure" : ending == 4 ? "no request" : "interrupted");
            if (ending != 3) check(calls == (broken ? sent.size() : n), "number of callbacks differs", cat(calls));
        } else {
            check(!error, "the client function failed with a well-behaved tracker", message);
            check(calls == sent.size() + 1, "number of callbacks differs", cat("wanted ", sent.size() + 1, ", got ", calls));
            c.tag(ending == 1 ? "frame before initialization" : "complete");
        }
        size_t got = started(pids).size(), complete = ending == 3 ? (calls ? calls - 1 : 0) : sent.size() - (broken || ending == 2 || ending == 4);
        if (!broken && ending < 2) check(got == starts.size(), "number of starts of the tracker differs", cat("wanted ", starts.size(), ", got ", got));
        if (got) {
            Dump d = read_dump(dumpf); connected(d, mode);
            if (!broken) { check(d.args == targs, "arguments of the tracker differ"); for (auto &kv : evars) check(d.env.count(kv.first) && d.env[kv.first] == kv.second, "environment of the tracker differs", kv.first); if (own_dir) check(d.dir == dir.path + "/work", "working directory of the tracker differs", d.dir); }
        }
        // what the tracker was asked
        for (size_t s = 0, i = 0; s < starts.size(); s++) {
            size_t end = s + 1 < starts.size() ? starts[s + 1] : sent.size();
            std::ifstream f(cat(rec, ".", s), std::ios::binary); std::string raw((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            std::vector<Entry> e = server_transcript(k, raw, Frag(), end - starts[s] + 1, 1);
            for (; i < end && i < complete; i++) {
                size_t j = i - starts[s]; const Sent &w = sent[i];
                check(j < e.size() && e[j].kind == (w.init ? TRAX_INITIALIZE : TRAX_FRAME), "the tracker did not get the request", cat("request ", i, ": ", j < e.size() ? e[j].text.substr(0, 200) : "nothing"));
                const Request &q = e[j].q;
                same(w.im, q.im, "request");
                if (w.init) { check(q.has_ob && q.ob.size() == 1, "no object to track"); same(w.r, q.ob[0].r, "initialization"); }
                MProps all = q.p; if (w.init && !q.ob.empty()) for (auto &kv : q.ob[0].p) all.insert(kv);
                same_sent(w.p, w.nums, all, "parameters given to the tracker");
            }
            if (!broken && ending < 2) check(e.size() == end - starts[s] + 1 && (e.back().kind == TRAX_QUIT || e.back().kind == TRAX_ERROR), "more requests than the callback asked for", cat("start ", s));
            if (ending == 2 || ending == 4) for (size_t j = complete > starts[s] ? std::min(complete, end) - starts[s] : 0; j < e.size(); j++) check(e[j].kind != TRAX_INITIALIZE && e[j].kind != TRAX_FRAME, "a request the callback did not make", e[j].text.substr(0, 200));
            i = end;
        }
        if (starts.size() > 1) c.tag("restarted"); if (k.channels & (k.channels - 1)) c.tag("several channels"); if (k.version < 4) c.tag("version 3");
        c.nontrivial = complete > 0;
        if (t.chance(1, 8)) { c.tag("another call"); again(dir.path + "/again"); }
    } catch (...) { mx::callback = nullptr; for (int p : started(pids)) if (running(p)) kill(p, SIGKILL); throw; }
}
static Register r34({"C34", "the client function runs a scripted tracker for a generated callback: up to six requests with generated images, regions and parameters, restarts, options, faults of the tracker or the callback, answers of the callback that are no requests, and interrupts, or a wrong call; non-trivial when at least one request was answered or the call was wrong", c34, 120, false, 20, 48,
    {"the MEX interface is played by harness/mex, which follows Octave's; arrays there hold 8-bit text as in Octave", "coordinates are multiples of 1/16, exact in the printed decimals", "masks are near the origin"}});
