// The client support library: processes (C27, C28) and trajectory files (C29).
// The tracker on the other side is a small program that follows a generated script (child/child.c).
#include "procgen.hpp"
using namespace pbt;
using namespace gen;
using namespace cppgen;
using namespace procgen;
using trax::TrackerProcess;

// ------------------------------------------------------------------ a clock on every call
static std::atomic<int64_t> g_deadline{0}; static const char *g_call = "";
static void watch() {
    static bool running = false; if (running) return; running = true; isolated();
    std::thread([] { for (;;) { usleep(20000); int64_t d = g_deadline; if (d && now() > d) bail("call does not return in time", g_call); } }).detach();
}
static const int64_t SLACK = 6000;      // what a call may take beyond the configured timeout, in ms
template <class F> static auto timed(const char *what, int timeout, F f) -> decltype(f()) {
    struct Clock { Clock(const char *w, int t) { g_call = w; g_deadline = now() + t * 1000 + SLACK; } ~Clock() { g_deadline = 0; } } c(what, timeout);
    return f();
}
// runs a request; a refusal and the error of a request are both failures
template <class F> static bool succeeds(const char *what, int timeout, F f, std::string *why = nullptr) {
    try { return timed(what, timeout, f); }
    catch (const std::runtime_error &e) { if (why) *why = e.what(); return false; }
}

enum Fault { HANG, EXIT, SIGNAL, CLOSE_OUT, CLOSE_IN, CLOSE_ALL, BAD_REGION, QUIT, FLOOD, FLOOD_ERR, PARTIAL, PARTIAL_EXIT, FAULTS };
static const char *FAULT_NAME[] = {"hang", "exit", "signal", "close output", "close input", "close everything", "malformed answer", "quit", "flood output", "flood errors", "partial answer", "partial answer and exit"};
static int deadly(Tape &t) { static const std::vector<int> v{SIGSEGV, SIGABRT, SIGKILL, SIGTERM, SIGFPE, SIGUSR1, SIGHUP, SIGINT}; return t.pick(v); }
// how a fault ends; `normal` is what would have been written
static void misbehave(Tape &t, Script &s, int f, const std::string &normal) {
    if (t.chance(1, 3)) s.add("I");
    switch (f) {
    case HANG: s.add("H"); break;
    case EXIT: s.add(cat("X", t.pick(std::vector<int>{0, 1, 2, 255}))); break;
    case SIGNAL: s.add(cat("K", deadly(t))); break;
    case CLOSE_OUT: s.add("C").add(t.flip() ? "H" : "X3"); break;
    case CLOSE_IN: s.add("c").add(t.flip() ? "H" : "X3"); break;
    case CLOSE_ALL: s.add("b").add(t.flip() ? "H" : "X3"); break;
    case BAD_REGION: s.add("T" + t.pick(std::vector<std::string>{"@@TRAX:state \"1,2,3\"\n", "@@TRAX:state \"\"\n", "@@TRAX:state\n", "@@TRAX:state \"1,2,3,4\" \"1,2,3,4\"\n", "@@TRAX:frame \"file:///a.png\"\n"})).add(t.flip() ? "H" : t.flip() ? "X0" : "W1000000"); break;
    case QUIT: s.add("T@@TRAX:quit \"trax.reason=enough\"\n").add(t.flip() ? "X0" : t.flip() ? "H" : "W1000000"); break;
    case FLOOD: s.add("J"); break;
    case FLOOD_ERR: s.add("j"); break;
    // cut before anything of the message is complete: a last line without its end may count
    case PARTIAL: s.add("T" + normal.substr(0, t.below(13))).add("H"); break;
    default: s.add("T" + normal.substr(0, t.below(13))).add(t.flip() ? "X0" : cat("K", deadly(t))); break;
    }
}
// writes an answer with harmless disturbances
static void answer(Tape &t, Script &s, const std::string &text, int timeout, bool may_wait) {
    if (t.chance(1, 5)) s.add(cat("F", t.pick(std::vector<int>{10, 100, 5000, 70000})));
    if (t.chance(1, 5)) s.add(cat("E", t.pick(std::vector<int>{10, 300, 5000, 100000})));
    if (t.chance(1, 4)) s.add(cat("S", t.below(150)));
    if (may_wait && t.chance(1, 4)) s.add(cat("S", timeout * 600));
    if (t.chance(1, 4)) { size_t k = t.below(text.size()); if (k) s.add("T" + text.substr(0, k)).add(cat("S", t.below(60))); s.add("T" + text.substr(k)); }
    else s.add("T" + text);
}

struct Setup {
    int mode, timeout, version; bool multi; size_t objects; trax::VerbosityMode verbosity; std::string images; bool big;
    static Setup draw(Tape &t) {
        Setup k; k.mode = (int) t.below(3); k.timeout = 2; k.version = t.chance(1, 4) ? (int) t.range(1, 3) : 4; k.multi = k.version == 4 && t.flip(); k.objects = k.multi ? 1 + t.below(3) : 1;
        k.verbosity = t.pick(std::vector<trax::VerbosityMode>{trax::VERBOSITY_SILENT, trax::VERBOSITY_DEFAULT, trax::VERBOSITY_DEBUG});
        k.images = t.chance(2, 3) ? "path" : "memory"; k.big = k.images == "memory" && t.flip();
        return k;
    }
    std::string show() const { return cat(mode == 0 ? "standard streams" : mode == 1 ? "dedicated streams" : "socket", " version ", version, " objects ", objects, " timeout ", timeout, " images ", images, big ? " (large)" : ""); }
};
struct Run {                            // what one started tracker will do and what the client has to see
    Setup k; Script script; std::vector<MObjects> answers; int fault = -1; int fault_step = -2; bool before = false; std::string desc;
    // steps before the fault succeed; step -1 is the connection
};
static Run plan(Tape &t, const Setup &k, bool with_fault) {
    Run r; r.k = k; size_t n = 1 + t.below(4);
    if (k.version < 4) r.script.add("V");
    if (with_fault) { r.fault = (int) t.below(FAULTS); r.fault_step = (int) t.range(-1, (int) n - 1); r.before = t.flip(); }
    bool may_wait = t.chance(1, 3);
    std::string hello = line_hello(k.version, k.multi, k.images, t.chance(1, 4) ? "\"" + word(t) + "=" + word(t) + "\" " : "");
    if (r.fault_step == -1) {
        if (r.before && k.mode == 2 && r.fault == HANG) r.script.add("H");     // never connects
        else if (t.chance(1, 6)) { r.script.add("T" + line_hello(99, k.multi, k.images)).add("H"); r.desc = "unknown version"; }
        else if (r.fault == QUIT || r.fault == BAD_REGION) misbehave(t, r.script, t.flip() ? HANG : EXIT, hello);
        else misbehave(t, r.script, r.fault, hello);
        return r;
    }
    if (k.mode == 2 && t.chance(1, 4)) r.script.add(cat("S", t.below(300)));
    answer(t, r.script, hello, k.timeout, may_wait);
    for (int i = 0; i < (int) n; i++) {
        MObjects o; for (size_t j = 0; j < k.objects; j++) o.push_back({region(t, TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK), few(t)});
        if (r.fault_step == i && r.before) { misbehave(t, r.script, r.fault, line_state(o)); break; }
        r.script.add("W1");
        if (r.fault_step == i) { misbehave(t, r.script, r.fault, line_state(o)); break; }
        answer(t, r.script, line_state(o), k.timeout, may_wait);
        r.answers.push_back(o);
    }
    return r;
}
static std::string show(const Run &r) { std::string s; for (char c : r.script.s) { if (s.size() > 500) { s += "..."; break; } if (c == 1) s += " | "; else if (c == '\n') s += "\\n"; else s += c; } return s; }

// the callback of the watchdog asks for the end of the tracker from a given time on
static std::atomic<int64_t> g_abort{0};
static std::atomic<bool> g_once{false};     // it asks for it only once
static bool abort_wanted() { int64_t a = g_abort; bool r = a && now() >= a; if (r && g_once) g_abort = INT64_MAX; return r; }
static bool nothing_wanted() { return false; }
struct Driver {
    bool abort = false;                 // the failing request is interrupted by the callback, not by the timeout
    int before = 0, after = 0;          // other callbacks
    Setup k; std::unique_ptr<Log> log; std::unique_ptr<TrackerProcess> p;
    trax::ImageList images() const {
        trax::ImageList l;
        if (k.images == "path") l.set(trax::Image::create_path("/some/image.png"), TRAX_CHANNEL_COLOR);
        else { int w = k.big ? 400 : 5; trax::Image i = trax::Image::create_memory(w, w, TRAX_IMAGE_MEMORY_RGB); for (int y = 0; y < w; y++) memset(i.write_memory_row(y), y & 255, 3 * w); l.set(i, TRAX_CHANNEL_COLOR); }
        return l;
    }
    static MRegion start_region() { MRegion m; m.type = TRAX_REGION_RECTANGLE; m.x = 1; m.y = 2; m.w = 30; m.h = 40; return m; }
    bool request(bool init, bool list, std::string *why) {
        if (init) {
            if (list || k.objects > 1) { trax::ObjectList o((int) k.objects); for (size_t i = 0; i < k.objects; i++) o.set((int) i, build(start_region())); return succeeds("initialize", k.timeout, [&] { return p->initialize(images(), o); }, why); }
            return succeeds("initialize", k.timeout, [&] { return p->initialize(images(), build(start_region())); }, why);
        }
        if (list && k.version == 4) return succeeds("frame", k.timeout, [&] { return p->frame(images(), trax::ObjectList(), trax::Properties()); }, why);
        return succeeds("frame", k.timeout, [&] { return p->frame(images()); }, why);
    }
    // one answer; `got` is filled when it succeeds
    bool answer(bool list, MObjects &got, std::string *why) {
        trax::Properties q;
        if (list || k.objects > 1) { trax::ObjectList o; if (!succeeds("wait", k.timeout, [&] { return p->wait(o, q); }, why)) return false; got = look(o); return true; }
        trax::Region g; if (!succeeds("wait", k.timeout, [&] { return p->wait(g, q); }, why)) return false;
        got = MObjects{{look(g), look(q)}}; return true;
    }
};
// follows a run on a connected wrapper; true when everything the script promised has been seen and nothing failed
static void follow(Tape &t, Driver &d, const Run &r, bool fresh_query) {
    std::string why; bool ok;
    if (fresh_query) {
        if (d.abort && r.fault_step == -1) g_abort = now() + t.below(600);
        ok = succeeds("query", d.k.timeout, [&] { return d.p->query(); }, &why);
        if (r.fault_step == -1) { check(!ok, "a tracker that never introduced itself is reported as started", show(r)); check(!timed("ready", 1, [&] { return d.p->ready(); }), "ready although the tracker was not started"); return; }
        if (!(r.fault_step == 0 && r.before)) {
            check(ok, "a well-behaved tracker is not started", cat(why, "; ", show(r))); check(timed("ready", 1, [&] { return d.p->ready(); }), "not ready after a successful start", show(r));
            check(timed("multiobject", 1, [&] { return d.p->multiobject(); }) == d.k.multi, "multi-object support differs");
            check(timed("metadata", 1, [&] { return d.p->metadata(); }).tracker_name() == (d.k.version >= 1 ? "scripted" : ""), "metadata differs");
            if (t.chance(1, 6)) check(!succeeds("frame before initialize", d.k.timeout, [&] { return d.p->frame(d.images()); }), "frame before initialization accepted");
            else if (t.chance(1, 6)) { trax::Region g; trax::Properties q; check(!succeeds("wait before initialize", d.k.timeout, [&] { return d.p->wait(g, q); }), "wait before initialization accepted"); }
            if (t.chance(1, 6)) check(!succeeds("query", d.k.timeout, [&] { return d.p->query(); }), "a second start while running succeeds");
            check(!timed("tracking", 1, [&] { return d.p->tracking(); }), "tracking before initialization");
        }
    }
    for (int i = 0; i <= (int) r.answers.size(); i++) {
        bool failing = i == r.fault_step, shaky = r.before && r.fault_step == i + 1;    // the tracker may be gone before its answer is read
        if (i == (int) r.answers.size() && !failing) break;
        bool list = t.flip(); MObjects got;
        if (failing && d.abort) g_abort = now() + t.below(600);
        ok = d.request(i == 0, list, &why);
        if (!failing && !shaky) check(ok, "request to a well-behaved tracker fails", cat("step ", i, ": ", why, "; ", show(r)));
        if (ok) ok = d.answer(list, got, &why);
        if (shaky && !ok) failing = true;
        if (failing) {
            check(!ok, "an answer is reported that the tracker never sent", cat("step ", i, "; ", show(r)));
            int64_t t0 = now(); while (timed("ready", 1, [&] { return d.p->ready(); })) { if (now() - t0 > 3000) fail("still ready after a failed request", cat("step ", i, "; ", show(r))); usleep(10000); }
            check(!timed("tracking", 1, [&] { return d.p->tracking(); }), "still tracking after a failed request");
            if (t.flip()) { check(!succeeds("frame after failure", d.k.timeout, [&] { return d.p->frame(d.images()); }), "frame after a failure accepted"); trax::Region g; trax::Properties q; check(!succeeds("wait after failure", d.k.timeout, [&] { return d.p->wait(g, q); }), "wait after a failure accepted"); }
            return;
        }
        check(ok, "answer of a well-behaved tracker is not delivered", cat("step ", i, ": ", why, "; ", show(r)));
        same(r.answers[i], got, "answer");
        if (!shaky) check(timed("tracking", 1, [&] { return d.p->tracking(); }), "not tracking after an answer");
    }
}
static void c27(Tape &t, Ctx &c) {
    Setup k = Setup::draw(t); bool second = t.chance(1, 5), again = t.chance(1, 3);
    Run first = plan(t, k, t.chance(3, 4)), other, next;
    if (!(first.fault_step == -1 || first.fault >= 0)) k.timeout = 3;
    c.note(cat(k.show(), "; ", show(first))); if (first.fault >= 0) c.tag(FAULT_NAME[first.fault]); else c.tag("well-behaved");
    c.tag(k.mode == 0 ? "standard streams" : k.mode == 1 ? "dedicated streams" : "socket");
    watch();
    Dir dir; std::string pids = dir.path + "/pids"; SetEnv e1("TRAXV_PID", pids);
    Setup k2 = k; if (second) { k2 = Setup::draw(t); k2.big = false; other = plan(t, k2, false); c.note("second tracker: " + show(other)); c.tag("two trackers"); }
    Port port(k.mode == 2 || (second && k2.mode == 2));
    std::map<std::string, std::string> env; int before = descriptors();
    try {
        bool abort = first.fault == HANG && (first.fault_step >= 0 || k.mode != 2) && t.flip(); if (abort) c.tag("interrupted by a callback"); g_abort = 0; g_once = t.chance(1, 3); int cb = t.chance(1, 2), ca = t.chance(1, 2); if (abort && cb + ca) c.tag("several callbacks");
        Driver d{abort, cb, ca, k, std::unique_ptr<Log>(new Log), nullptr}, d2{false, 0, 0, k2, std::unique_ptr<Log>(new Log), nullptr};
        auto open = [&](Driver &x) { x.p.reset(new TrackerProcess(child_path(), env, x.abort ? 60 : x.k.timeout, x.k.mode == 0 ? trax::CONNECTION_DEFAULT : x.k.mode == 1 ? trax::CONNECTION_EXPLICIT : trax::CONNECTION_SOCKETS, x.k.verbosity, "", x.log.get())); for (int i = 0; i < x.before; i++) x.p->register_watchdog(nothing_wanted); if (x.abort) x.p->register_watchdog(abort_wanted); for (int i = 0; i < x.after; i++) x.p->register_watchdog(nothing_wanted); };
        auto close = [&](Driver &x) { timed("destroying the wrapper", x.k.timeout, [&] { x.p.reset(); }); };
        open(d);
        if (second && t.flip()) {       // the other one is started while the first runs
            SetEnv s("TRAXV_SCRIPT", first.script.s);
            if (first.fault_step >= 0 && !(first.fault_step == 0 && first.before)) { check(succeeds("query", k.timeout, [&] { return d.p->query(); }), "a well-behaved tracker is not started", show(first)); SetEnv s2("TRAXV_SCRIPT", other.script.s); open(d2); check(succeeds("query", k2.timeout, [&] { return d2.p->query(); }), "a second tracker is not started", show(other)); follow(t, d, first, false); }
            else { { SetEnv s2("TRAXV_SCRIPT", other.script.s); open(d2); check(succeeds("query", k2.timeout, [&] { return d2.p->query(); }), "a second tracker is not started", show(other)); } follow(t, d, first, true); }
            follow(t, d2, other, false);
        } else {
            if (second) { SetEnv s("TRAXV_SCRIPT", other.script.s); open(d2); check(succeeds("query", k2.timeout, [&] { return d2.p->query(); }), "a second tracker is not started", show(other)); }
            { SetEnv s("TRAXV_SCRIPT", first.script.s); follow(t, d, first, true); }
            if (second) follow(t, d2, other, false);
        }
        if (again) {
            g_abort = 0;
            next = plan(t, k, !d.abort && t.chance(1, 4)); c.note("restarted: " + show(next)); c.tag("restarted");
            SetEnv s("TRAXV_SCRIPT", next.script.s); std::string why; bool ok = succeeds("reset", 2 * k.timeout, [&] { return d.p->reset(); }, &why);
            if (next.fault_step == -1) check(!ok, "a restart of a tracker that never introduced itself succeeds", show(next));
            else if (!(next.fault_step == 0 && next.before)) { check(ok, "restart fails", cat(why, "; ", show(next))); if (t.flip()) check(!succeeds("frame before initialize", k.timeout, [&] { return d.p->frame(d.images()); }), "frame after a restart without initialization accepted"); else follow(t, d, next, false); }
            else follow(t, d, next, false);
        }
        if (t.flip()) { close(d); close(d2); } else { close(d2); close(d); }
        none_running(pids, "destroyed");
    } catch (Failure &) { for (int p : started(pids)) kill(p, SIGKILL); throw; }
    int64_t t0 = now(); while (descriptors() > before + 0 && now() - t0 < 1000) usleep(5000);
    int after = descriptors(); check(after <= before, "descriptors are left open", cat(after - before));
    c.nontrivial = true;
}
static Register r27({"C27", "a scripted tracker process with a generated fault (or none) at a generated step, over standard streams, dedicated streams or a socket, sometimes next to a second tracker and sometimes restarted; every call is timed; all cases are non-trivial", c27, 120, true, 20, 32,
    {"a call may take up to six seconds more than the configured timeout", "the tracker starts no helper processes that keep its streams open"}});

// ================================================================== C40
// Several trackers at the same time, each in a thread of its own.
static void c40(Tape &t, Ctx &c) {
    struct Job { Setup k; Run run, next; uint64_t seed; std::string script; bool again, where; int late; };
    std::vector<Job> jobs; size_t n = 2 + t.below(4), sockets = 0;
    for (size_t i = 0; i < n; i++) {
        Job j; j.k = Setup::draw(t); j.k.timeout = 6; if (t.chance(1, 3)) j.k.mode = 2; if (j.k.mode == 2 && sockets++ >= 2 && !isolated()) j.k.mode = 0;
        j.run = plan(t, j.k, t.chance(1, 4)); if (j.run.fault == HANG || j.run.fault == FLOOD || j.run.fault == FLOOD_ERR) j.run = plan(t, j.k, false);
        j.again = j.run.fault < 0 && t.chance(1, 4); j.script = j.run.script.s; if (j.again) { j.next = plan(t, j.k, false); j.script += "\x02" + j.next.script.s; }
        j.seed = t.below(1 << 16); j.late = t.chance(1, 3) ? (int) t.below(200) : 0; j.where = t.chance(1, 3); c.note(cat(j.k.show(), j.where ? " in a directory" : "", j.late ? cat(" after ", j.late, " ms") : "", ": ", show(j.run))); jobs.push_back(j);
        if (j.run.fault >= 0) c.tag(FAULT_NAME[j.run.fault]); c.tag(j.k.mode == 0 ? "standard streams" : j.k.mode == 1 ? "dedicated streams" : "socket");
    }
    watch();
    std::string program = child_path(); Dir dir; Port port(sockets > 0); int before = descriptors(); std::vector<std::unique_ptr<Failure>> bad(n); std::atomic<int> waiting{0}; char here[4096]; if (!getcwd(here, sizeof here)) here[0] = 0;
    auto body = [&](size_t i) {
        Job &j = jobs[i]; std::string pids = cat(dir.path, "/pids.", i); Tape own; own.generating = true; own.state = j.seed;
        waiting++; while (waiting < (int) n) std::this_thread::yield();
        if (j.late) usleep(j.late * 1000);
        std::string dump = cat(dir.path, "/dump.", i), where = j.where ? cat(dir.path, "/d", i) : ""; if (j.where) mkdir(where.c_str(), 0700);
        try {
            std::map<std::string, std::string> env{{"TRAXV_SCRIPT", "D" + dump + "\x01" + j.script}, {"TRAXV_PID", pids}, {cat("TRAXV_OWN_", i), "1"}};
            Driver d{false, 0, 0, j.k, std::unique_ptr<Log>(new Log), nullptr};
            d.p.reset(new TrackerProcess(program, env, j.k.timeout, j.k.mode == 0 ? trax::CONNECTION_DEFAULT : j.k.mode == 1 ? trax::CONNECTION_EXPLICIT : trax::CONNECTION_SOCKETS, j.k.verbosity, where, d.log.get()));
            follow(own, d, j.run, true);
            if (j.again) { std::string why; check(succeeds("reset", 2 * j.k.timeout, [&] { return d.p->reset(); }, &why), "restart fails", cat(why, "; ", show(j.next))); follow(own, d, j.next, false); }
            d.p.reset(); none_running(pids, "destroyed");
            if (access(dump.c_str(), F_OK)) return;
            Dump seen = read_dump(dump); struct stat a, b;
            check(stat(where.empty() ? here : where.c_str(), &a) == 0 && stat(seen.dir.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev, "working directory of a tracker", cat("wanted ", quote(where), ", got ", quote(seen.dir)));
            for (auto v : {"TRAX_IN", "TRAX_OUT", "TRAX_SOCKET"}) check((seen.env.count(v) != 0) == (j.k.mode == (v[5] == 'S' ? 2 : 1)), "connection variable", v);
            for (size_t k = 0; k < n; k++) check((seen.env.count(cat("TRAXV_OWN_", k)) != 0) == (k == i), "variable of another tracker", cat(k));
        } catch (Failure &f) { bad[i].reset(new Failure(f)); }
        catch (std::exception &e) { bad[i].reset(new Failure{"creating the wrapper fails", e.what()}); }
    };
    std::atomic<bool> over{false}; std::atomic<int> moved{0};
    std::thread observer([&] { struct stat a, b; if (stat(".", &a)) return; while (!over) { if (stat(".", &b) || a.st_ino != b.st_ino || a.st_dev != b.st_dev) moved++; usleep(20); } });
    std::vector<std::thread> th; for (size_t i = 0; i < n; i++) th.emplace_back(body, i);
    for (auto &x : th) x.join();
    over = true; observer.join();
    for (size_t i = 0; i < n; i++) for (int p : started(cat(dir.path, "/pids.", i))) if (bad[i]) kill(p, SIGKILL);
    for (size_t i = 0; i < n; i++) if (bad[i]) fail(bad[i]->kind + " (next to other trackers)", cat("tracker ", i, ": ", bad[i]->detail));
    int64_t t0 = now(); while (descriptors() > before && now() - t0 < 1000) usleep(5000);
    check(descriptors() <= before, "descriptors are left open", cat(descriptors() - before));
    check(moved == 0, "the working directory of the program changes", cat("seen ", moved.load(), " times"));
    c.nontrivial = true; if (sockets > 1) c.tag("several sockets");
}
static Register r40({"C40", "two to five scripted trackers, each driven by a thread of its own, all started at once or a little later, over all kinds of connections, some with a fault, some restarted; each has to go as it would alone; all cases are non-trivial", c40, 120, false, 10, 16,
    {"a tracker that hangs or floods is left to C27"}});

// ================================================================== C39
// The log of a wrapper: what was exchanged with the tracker and what the tracker wrote to its error stream.
static std::string line_text(Tape &t) { std::string s, r = text(t, false); if (t.chance(1, 4)) { size_t n = 230 + t.below(60); s.assign(n, 'x'); if (t.chance(1, 3)) s.assign(t.below(5000), 'y'); } for (char ch : r) if (ch != '\n' && (unsigned char) ch > 2) s += ch; return s; }
static std::string cut(const std::string &l) { return l.substr(0, 255); }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; size_t a = 0; for (size_t i; (i = s.find('\n', a)) != std::string::npos; a = i + 1) v.push_back(s.substr(a, i - a)); if (a < s.size()) v.push_back(s.substr(a) + "(no line end)"); return v; }
static void c39(Tape &t, Ctx &c) {
    watch();
    Dir dir; std::string pids = dir.path + "/pids"; SetEnv e1("TRAXV_PID", pids);
    Setup k = Setup::draw(t); k.big = false; k.timeout = 4; Port port(k.mode == 2);
    size_t starts = t.chance(1, 4) ? 2 : 1; int number = 0;
    struct Start { std::vector<std::string> err; std::vector<std::vector<std::string>> out; int fault = -2; size_t steps; }; std::vector<Start> all; std::string script;
    for (size_t s = 0; s < starts; s++) {
        Start r; Script sc; r.steps = 1 + t.below(3); if (k.version < 4) sc.add("V"); sc.add("R" + dir.path + "/seen");
        if (t.chance(1, 3)) r.fault = s + 1 < starts ? 0 : (int) t.range(-1, (int) r.steps - 1);
        std::string pending;           // the rest of a line that is written after something else has happened
        auto rest = [&] { if (pending.empty()) return; if (t.chance(1, 3)) sc.add(cat("S", 1 + t.below(60))); sc.add("M" + dir.path + "/slow"); sc.add("e" + pending); pending.clear(); };
        auto err = [&](size_t max, bool open = false) {
            std::string b; rest();
            for (size_t i = 0, n = t.below(max); i < n; i++) { std::string l = cat("err ", number++, ": ", line_text(t)); r.err.push_back(cut(l)); b += l + "\n"; if (open && i + 1 == n && t.chance(1, 3)) { size_t k = b.size() - 1 - t.below(l.size()); pending = b.substr(k); b.resize(k); } }
            if (!b.empty()) sc.add("e" + b);
        };
        auto out = [&](std::vector<std::string> &v) { if (!t.chance(1, 3)) return; std::string l = cat("out ", number++, ": ", line_text(t)); v.push_back(cut(l)); sc.add("T" + l + "\n"); };
        auto fault = [&] { err(4); static const std::vector<std::string> ends{"X0", "X3", "K11", "K6", "K9"}; sc.add(t.pick(ends)); };
        auto say = [&](std::vector<std::string> &v, const std::string &text) { for (auto &l : lines(text)) v.push_back(cut(l)); sc.add("T" + text); };
        err(4, true);
        if (r.fault == -1) { fault(); script += (s ? "\x02" : "") + sc.s; all.push_back(r); break; }
        std::vector<std::string> v; out(v); say(v, line_hello(k.version, k.multi, k.images)); r.out.push_back(v); rest(); err(3, true);
        for (size_t i = 0; i < r.steps; i++) {
            sc.add("W1"); rest(); err(3, true); if (r.fault == (int) i) { fault(); break; }
            MObjects o; for (size_t j = 0; j < k.objects; j++) o.push_back({region(t, TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON), few(t)});
            v.clear(); out(v); say(v, line_state(o)); r.out.push_back(v); rest(); if (t.flip()) err(2, i + 1 < r.steps);
        }
        script += (s ? "\x02" : "") + sc.s; all.push_back(r);
    }
    std::string shown; for (char ch : script) { if (shown.size() > 600) { shown += "..."; break; } shown += ch == 1 ? '|' : ch == 2 ? '#' : ch == '\n' ? '/' : ch; }
    c.note(cat(k.show(), " verbosity ", (int) k.verbosity, "; ", shown));
    std::ostringstream log; bool late = false;
    try {
        SetEnv s("TRAXV_SCRIPT", script);
        std::unique_ptr<TrackerProcess> p(new TrackerProcess(child_path(), std::map<std::string, std::string>(), k.timeout, k.mode == 0 ? trax::CONNECTION_DEFAULT : k.mode == 1 ? trax::CONNECTION_EXPLICIT : trax::CONNECTION_SOCKETS, k.verbosity, "", &log));
        for (size_t s = 0; s < all.size(); s++) {
            Start &r = all[s]; std::string why; Driver d{false, 0, 0, k, nullptr, std::move(p)};
            bool ok = s == 0 ? succeeds("query", k.timeout, [&] { return d.p->query(); }, &why) : succeeds("reset", 2 * k.timeout, [&] { return d.p->reset(); }, &why);
            check(ok == (r.fault != -1) || (r.fault == 0 && !ok), ok ? "a tracker that ended at once is reported as started" : "a well-behaved tracker is not started", why);
            for (size_t i = 0; ok && i < r.steps; i++) { MObjects got; bool a = d.request(i == 0, false, &why) && d.answer(false, got, &why); if (r.fault == (int) i) { check(!a, "an answer from a tracker that ended"); break; } check(a, "a request fails", why); }
            if (!ok && r.fault == 0) late = true;
            p = std::move(d.p);
        }
        timed("destroying the wrapper", k.timeout, [&] { p.reset(); });
        none_running(pids, "destroyed");
    } catch (Failure &) { for (int p : started(pids)) kill(p, SIGKILL); throw; }
    std::vector<std::string> err, channel, want_err, want; size_t debug = 0;
    bool crashed = false; for (auto &r : all) crashed |= r.fault >= -1;
    if (!crashed && !log.str().empty() && log.str().back() != '\n') fail("the last line of the log has no end", quote(log.str().substr(log.str().size() > 100 ? log.str().size() - 100 : 0)));
    std::string whole = log.str();      // a message that could not be written to the end is followed directly by the next line
    if (crashed) for (const char *w : {"err ", "CLIENT: "}) for (size_t i = whole.find(w); i != std::string::npos; i = whole.find(w, i + 3)) if (i && whole[i - 1] != '\n' && (w[0] == 'C' || isdigit((unsigned char) whole[i + 4]))) whole.insert(i++, "\n");
    for (auto &l : lines(whole)) if (l.compare(0, 4, "err ") == 0) err.push_back(l); else if (l.compare(0, 8, "CLIENT: ") == 0) debug++; else channel.push_back(l);
    for (size_t s = 0; s < all.size(); s++) {
        Start &r = all[s]; want_err.insert(want_err.end(), r.err.begin(), r.err.end());
        std::ifstream f(cat(dir.path, "/seen.", s), std::ios::binary); std::string seen((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t block = 0; auto next = [&] { if (block < r.out.size()) { want.insert(want.end(), r.out[block].begin(), r.out[block].end()); block++; } };
        next(); for (auto &l : lines(seen)) { want.push_back(cut(l)); char ch = l.size() > 7 ? l[7] : 0; if (ch == 'f' || (k.version < 4 && ch == 'i')) next(); }
    }
    auto differ = [&](const std::vector<std::string> &w, const std::vector<std::string> &g) { size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++; return cat("line ", i, " of ", w.size(), ": wanted ", i < w.size() ? quote(w[i], 300) : "no more", ", got ", i < g.size() ? quote(g[i], 300) : "no more"); };
    if (k.verbosity == trax::VERBOSITY_SILENT) { check(log.str().empty(), "a silent wrapper writes to its log", quote(log.str())); c.tag("silent"); }
    else {
        if (access((dir.path + "/slow").c_str(), F_OK) == 0) c.tag("too slow"); else     // an unfinished line is written after a second of silence
        check(err == want_err, "log of the error stream differs", differ(want_err, err));
        if (!crashed) check(channel == want, "log of the exchanged messages differs", differ(want, channel));
        else if (!late) {               // what the tracker did not live to see may be in the log as well
            size_t i = 0; for (auto &l : channel) if (i < want.size() && l.size() >= want[i].size() && l.compare(l.size() - want[i].size(), std::string::npos, want[i]) == 0) i++;
            check(i == want.size(), "log of the exchanged messages misses a line", cat("line ", i, ": ", i < want.size() ? quote(want[i], 300) : ""));
        }
        check((debug > 0) == (k.verbosity == trax::VERBOSITY_DEBUG), "messages of the wrapper in the log", cat(debug)); c.tag(crashed ? "ended by itself" : "regular");
    }
    c.nontrivial = want_err.size() + want.size() > 0 && k.verbosity != trax::VERBOSITY_SILENT; if (starts > 1) c.tag("restarted"); c.tag(k.mode == 0 ? "standard streams" : k.mode == 1 ? "dedicated streams" : "socket");
}
static Register r39({"C39", "a scripted tracker that writes lines of any text to its error stream and next to its messages, sometimes ends by itself or is restarted, for every verbosity; the log is compared with what was exchanged and written; non-trivial unless silent", c39, 60, true, 30, 32,
    {"no line of the tracker is interrupted for more than 0.6 seconds", "lines of more than 255 characters are cut"}});

// ================================================================== C28
// The words of a command line, written so that splitting gives them back.
static std::string arg(Tape &t, bool quotable) {
    std::string s;
    switch (t.weighted({3, 3, 2, 1})) {
    case 0: s = word(t); break;
    case 1: s = text(t, false); break;
    case 2: for (size_t i = 0, n = t.below(12); i < n; i++) s += t.pick(std::vector<std::string>{" ", "'", "a", "=", "-", "\\", "\"", "\t", "$HOME", "*", ";", "'\"", "\xc3\xa9", "%", "`", "\n"}); break;
    default: s.assign(t.below(3) == 0 ? 900 + t.below(3000) : t.below(40), 'x'); if (t.flip()) s += ' '; break;
    }
    (void) quotable; return s;
}
static std::string spell(Tape &t, const std::string &a) {
    bool need = a.empty() || a.find(' ') != std::string::npos || a[0] == '"';
    if (!need && t.chance(2, 3)) return a;
    std::string r = "\"", run;
    for (char ch : a) { if (ch == '\\') { run += ch; continue; } if (ch == '"') r += run + run + "\\\""; else r += run + ch; run.clear(); }
    return r + run + run + "\"";
}
static void c28(Tape &t, Ctx &c) {
    watch();
    Dir dir; std::string dump = dir.path + "/dump", pids = dir.path + "/pids";
    int mode = (int) t.below(3); Port port(mode == 2);
    Log log; trax::VerbosityMode vm = t.pick(std::vector<trax::VerbosityMode>{trax::VERBOSITY_SILENT, trax::VERBOSITY_DEFAULT, trax::VERBOSITY_DEBUG});
    trax::ConnectionMode cm = mode == 0 ? trax::CONNECTION_DEFAULT : mode == 1 ? trax::CONNECTION_EXPLICIT : trax::CONNECTION_SOCKETS;
    if (t.chance(1, 4)) {               // a command that cannot be started
        std::string cmd;
        switch (t.below(6)) {
        case 0: cmd = ""; break;
        case 1: cmd = std::string(1 + t.below(5), ' '); break;
        case 2: cmd = child_path() + " \"" + word(t); break;                        // the quote never ends
        case 3: cmd = dir.path + "/missing " + word(t); break;
        case 4: cmd = dir.path; break;                                              // a directory
        default: cmd = t.flip() ? "\"\"" : "\""; break;
        }
        c.note("bad command " + quote(cmd)); c.tag("cannot be started"); int before = descriptors();
        SetEnv s("TRAXV_SCRIPT", "X0");
        {
            TrackerProcess p(cmd, std::map<std::string, std::string>(), 2, cm, vm, "", &log);
            for (size_t i = 0, n = 1 + t.below(3); i < n; i++) {
                std::string why;
                switch (t.below(3)) {
                case 0: check(!succeeds("query", 2, [&] { return p.query(); }, &why), "a command that cannot be started is reported as started", quote(cmd)); break;
                case 1: check(!succeeds("initialize", 2, [&] { return p.initialize(trax::ImageList(), build(Driver::start_region())); }, &why), "a command that cannot be started is reported as started", quote(cmd)); break;
                default: check(!succeeds("reset", 2, [&] { return p.reset(); }, &why), "a command that cannot be started is reported as started", quote(cmd)); break;
                }
                check(!why.empty(), "failure without a message", quote(cmd)); check(!p.ready() && !p.tracking(), "ready without a process");
            }
            g_call = "destroying the wrapper"; g_deadline = now() + 8000;
        }
        g_deadline = 0;
        check(descriptors() <= before, "descriptors are left open", cat(descriptors() - before)); c.nontrivial = true; return;
    }
    std::vector<std::string> args; std::string cmd; size_t n = t.size(8);
    bool by_path = t.chance(1, 4); SetEnv path("PATH", by_path ? child_path().substr(0, child_path().rfind('/')) + ":/usr/bin:/bin" : "/usr/bin:/bin");
    args.push_back(by_path ? "child" : child_path());
    if (!by_path && t.chance(1, 5)) { std::string odd = dir.path + "/my tracker's"; if (symlink(child_path().c_str(), odd.c_str()) == 0) args[0] = odd; }
    for (size_t i = 0; i < n; i++) args.push_back(arg(t, true));
    if (t.chance(1, 4)) cmd += std::string(1 + t.below(3), ' ');
    for (size_t i = 0; i < args.size(); i++) { if (i) cmd += std::string(t.chance(1, 4) ? 1 + t.below(4) : 1, ' '); cmd += spell(t, args[i]); }
    if (t.chance(1, 4)) cmd += std::string(1 + t.below(3), ' ');
    std::map<std::string, std::string> env; size_t m = t.size(6);
    for (size_t i = 0; i < m; i++) { std::string k = t.chance(1, 4) ? t.pick(std::vector<std::string>{"HOME", "TMPDIR", "LANG", "A", "PWD"}) : word(t); env[k] = text(t, false); }
    std::string where; if (t.chance(1, 2)) { where = dir.path + "/" + t.pick(std::vector<std::string>{"d", "with space", "quo\"te", "\xc3\xa9", "-x"}); mkdir(where.c_str(), 0700); }
    c.note(cat("command ", quote(cmd, 400), " environment ", show(env), " directory ", quote(where)));
    SetEnv inherited("TRAXV_INHERITED", text(t, false)), s("TRAXV_SCRIPT", std::string("D") + dump + "\x01" + "T" + line_hello(4, false, "path")), e1("TRAXV_PID", pids);
    std::map<std::string, std::string> want; for (char **x = environ; *x; x++) { std::string v = *x; size_t q = v.find('='); if (q != std::string::npos) want[v.substr(0, q)] = v.substr(q + 1); }
    for (auto &kv : env) want[kv.first] = kv.second;
    char here[4096]; std::string cwd0 = getcwd(here, sizeof here) ? here : "";
    {
        TrackerProcess p(cmd, env, 3, cm, vm, where, &log); std::string why;
        check(succeeds("query", 3, [&] { return p.query(); }, &why), "a valid command is not started", cat(quote(cmd), ": ", why));
        check(p.ready(), "not ready after a successful start");
        g_call = "destroying the wrapper"; g_deadline = now() + 9000;
    }
    g_deadline = 0;
    check(cwd0 == (getcwd(here, sizeof here) ? here : ""), "working directory of the client changed");
    none_running(pids, "destroyed");
    Dump seen = read_dump(dump); std::vector<std::string> &got = seen.args; std::map<std::string, std::string> &genv = seen.env; const std::string &gdir = seen.dir; int twice = seen.twice;
    check(got.size() == args.size(), "number of arguments differs", cat("wanted ", args.size(), ", got ", got.size(), " from ", quote(cmd)));
    for (size_t i = 0; i < args.size(); i++) check(got[i] == args[i], "argument differs", cat("wanted ", quote(args[i]), ", got ", quote(got[i]), " from ", quote(cmd)));
    check(twice == 0, "a variable is given twice");
    for (auto k : {"TRAX_IN", "TRAX_OUT", "TRAX_SOCKET"}) { bool should = mode == (k[5] == 'S' ? 2 : 1); check((genv.count(k) != 0) == should, "connection variable", k); genv.erase(k); want.erase(k); }
    gen::same(want, genv, "environment");
    struct stat a, b; check(stat((where.empty() ? cwd0 : where).c_str(), &a) == 0 && stat(gdir.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev, "working directory differs", cat("wanted ", quote(where), ", got ", quote(gdir)));
    c.nontrivial = true; if (n) c.tag("arguments"); if (m) c.tag("environment"); if (!where.empty()) c.tag("directory"); if (by_path) c.tag("found by path");
}
static Register r28({"C28", "a command line of up to nine words with spaces, quotes, backslashes and arbitrary bytes, an environment of up to six variables and a working directory, compared with what the started process saw, or a command that cannot be started; all cases are non-trivial", c28, 90, true, 40, 32,
    {"a closing quote is followed by a space or the end", "the working directory exists"}});

// ================================================================== C29
static void c29(Tape &t, Ctx &c) {
    Dir dir; std::string file = dir.path + "/trajectory.txt";
    std::vector<MRegion> want; size_t n = t.size(30);
    for (size_t i = 0; i < n; i++) { if (t.chance(1, 8)) { want.push_back(MRegion()); want.back().type = 0; c.tag("entry without a region"); } else want.push_back(region(t, TRAX_REGION_ANY | TRAX_REGION_SPECIAL)); }
    std::vector<trax::Region> v, got; for (auto &m : want) v.push_back(m.type ? build(m) : trax::Region());
    trax::save_trajectory(file, v);
    auto verify = [&](const char *what) {
        int k = trax::load_trajectory(file, got);
        check(k == (int) want.size() && got.size() == want.size(), cat(what, ": number of regions differs"), cat("wanted ", want.size(), ", returned ", k, ", got ", got.size()));
        for (size_t i = 0; i < want.size(); i++) { check(got[i].empty() == !want[i].type, cat(what, want[i].type ? ": region missing" : ": region from nowhere"), cat(i)); if (want[i].type) same(want[i], look(got[i]), what); }
    };
    c.note(cat(n, " regions")); for (size_t i = 0; i < std::min<size_t>(n, 4); i++) c.note(want[i].type ? show(want[i]) : "none");
    verify("saved and loaded");
    std::string s; { std::ifstream f(file, std::ios::binary); s.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
    check((size_t) std::count(s.begin(), s.end(), '\n') == n, "not one line per region", cat(n));
    // other line ends, no last line end
    int style = (int) t.below(4); std::string o; for (char ch : s) if (ch == '\n') o += style == 0 ? "\n" : style == 1 ? "\r\n" : style == 2 ? "\r" : t.pick(std::vector<std::string>{"\n", "\r\n"}); else o += ch;
    if (n && want.back().type && t.flip()) { while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back(); c.tag("no final line end"); }
    { std::ofstream f(file, std::ios::binary); f << o; }
    got.clear(); verify("other line ends"); c.tag(style == 0 ? "LF" : style == 1 ? "CRLF" : style == 2 ? "CR" : "mixed");
    if (n) { v.swap(got); std::vector<trax::Region>().swap(got); trax::save_trajectory(file, v); verify("saved again"); }
    // one at a time through the stream operators
    std::stringstream io; for (auto &r : v) io << r; for (size_t i = 0; i < v.size(); i++) { trax::Region r; io >> r; check(r.empty() == !want[i].type, "stream operator gives no region or one from nowhere"); if (want[i].type) same(want[i], look(r), "stream"); }
    check(trax::load_trajectory(dir.path + "/missing", got) == 0, "regions from a missing file");
    c.nontrivial = n > 0;
}
static Register r29({"C29", "up to 30 regions of all types saved, loaded, given other line ends and loaded again; non-trivial with at least one region", c29, 20, true, 200, 8,
    {"coordinates are multiples of 1/16, exact in the printed decimals"}});
