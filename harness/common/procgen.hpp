// Surroundings of checks that start real processes: scratch directories, ports, scripts for harness/child/child.c.
#pragma once
#include "cppgen.hpp"
#include <trax/client.hpp>
#include <atomic>
#include <thread>
#include <memory>
#include <set>
#include <fstream>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <net/if.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
namespace procgen {
using namespace pbt;
using namespace gen;
using namespace cppgen;
static int64_t now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ll + t.tv_nsec / 1000000; }

// ------------------------------------------------------------------ surroundings
static std::string child_path() { static std::string p; if (p.empty()) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; p = b; p = p.substr(0, p.rfind('/')) + "/child"; } return p; }
static std::string scratch() { const char *t = getenv("TMPDIR"); return t ? t : "/tmp"; }
struct Dir {                            // a scratch directory of one case
    std::string path;
    Dir() { std::string p = scratch() + "/case-XXXXXX"; std::vector<char> b(p.begin(), p.end()); b.push_back(0); if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(98); } path = b.data(); }
    ~Dir() { Untracked u; clear(path); rmdir(path.c_str()); }
    static void clear(const std::string &p) {
        if (p.find("/case-") == std::string::npos) return;
        DIR *d = opendir(p.c_str()); if (!d) return;
        while (struct dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = p + "/" + n; if (unlink(f.c_str())) { clear(f); rmdir(f.c_str()); } }
        closedir(d);
    }
};
struct SetEnv { std::string k; bool had; std::string old; SetEnv(const std::string &key, const std::string &v) : k(key) { Untracked u; const char *o = getenv(key.c_str()); had = o; if (o) old = o; setenv(key.c_str(), v.c_str(), 1); } ~SetEnv() { Untracked u; if (had) setenv(k.c_str(), old.c_str(), 1); else unsetenv(k.c_str()); } };
static int descriptors() { Untracked u; int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
static bool running(int pid) {
    Untracked u; char p[64]; snprintf(p, sizeof p, "/proc/%d/stat", pid); std::ifstream f(p); std::string s; if (!std::getline(f, s)) return false;
    size_t i = s.rfind(')'); return i != std::string::npos && i + 2 < s.size() && s[i + 2] != 'Z' && s[i + 2] != 'X';
}
static std::vector<int> started(const std::string &file) { std::vector<int> v; std::ifstream f(file); int p; while (f >> p) v.push_back(p); return v; }
static void none_running(const std::string &file, const char *when) {
    int64_t t0 = now(); std::vector<int> ps = started(file);
    for (int p : ps) while (running(p)) { if (now() - t0 > 4000) { kill(p, SIGKILL); fail(cat("tracker process still runs after the wrapper was ", when)); } usleep(5000); }
}
// Ports of their own for every worker, if the system allows it: a loopback network that nobody else uses.
static bool separate() {
    if (unshare(CLONE_NEWUSER | CLONE_NEWNET)) return false;
    int s = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); if (s < 0) return false;
    struct ifreq r; memset(&r, 0, sizeof r); strcpy(r.ifr_name, "lo"); r.ifr_flags = IFF_UP | IFF_RUNNING;
    bool up = ioctl(s, SIOCSIFFLAGS, &r) == 0; close(s);
    return up;
}
static bool isolated() {
    static const bool own = [] {
        Untracked u; int st = 1; pid_t p = fork();               // tried by a child first
        if (p == 0) _exit(separate() ? 0 : 1);
        return p > 0 && waitpid(p, &st, 0) == p && st == 0 && separate();
    }();
    return own;
}
// Otherwise the library looks for a free port among ten: no more than a few socket cases at a time.
struct Port {
    int fd = -1;
    explicit Port(bool need) { if (isolated() || !need) return; for (int k = 0; fd < 0; k++) { std::string p = scratch() + "/port." + std::to_string(k % 3); int f = open(p.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600); if (flock(f, LOCK_EX | LOCK_NB) == 0) fd = f; else { close(f); usleep(20000); } } }
    ~Port() { if (fd >= 0) close(fd); }
};
struct Log : std::ostream {             // swallows everything; one per tracker
    struct Buf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } } b;
    Log() : std::ostream(nullptr) { rdbuf(&b); }
};

// ------------------------------------------------------------------ scripts
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else r += c; } return r; }
static std::string encoded(const MRegion &m) { trax_region *r = make(m); char *s = trax_region_encode(r); std::string e = s; free(s); trax_region_release(&r); return e; }
struct Script {
    std::string s;
    Script &add(const std::string &c) { if (!s.empty()) s += '\x01'; s += c; return *this; }
};
static std::string line_hello(int version, bool multi, const std::string &images, const std::string &extra = "") {
    return cat("@@TRAX:hello \"trax.version=", version, "\" \"trax.name=scripted\" \"trax.region=rectangle;polygon;mask\" \"trax.image=", images, "\" ", version >= 4 ? "\"trax.channels=color\" " : "", multi ? "\"trax.multiobject=1\" " : "", extra, "\n");
}
static std::string line_state(const MObjects &o) {
    std::string s; for (auto &x : o) { s += "@@TRAX:state \"" + esc(encoded(x.r)) + "\""; for (auto &kv : x.p) s += " \"" + kv.first + "=" + esc(kv.second) + "\""; s += "\n"; } return s;
}
static std::string word(Tape &t, size_t max = 12) { std::string s; size_t n = 1 + t.below(max); for (size_t i = 0; i < n; i++) s += (char) ('a' + t.below(26)); return s; }
static MProps few(Tape &t) { MProps m; for (size_t i = 0, n = t.below(3); i < n; i++) { std::string v = text(t, false); std::string w; for (char c : v) if (c != 1 && c != 2) w += c; m[word(t)] = w; } return m; }

// what a started process dumped with the command D
struct Dump { std::vector<std::string> args; std::map<std::string, std::string> env; std::string dir; int twice = 0; };
static Dump read_dump(const std::string &file) {
    Dump r; std::ifstream f(file, std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    for (size_t i = 0; i < d.size() && d[i] != '.';) { char k = d[i]; size_t e = d.find(':', i), len = strtoul(d.c_str() + i + 1, nullptr, 10); std::string v = d.substr(e + 1, len); i = e + 1 + len; if (k == 'A') r.args.push_back(v); else if (k == 'E') { size_t q = v.find('='); r.twice += r.env.count(v.substr(0, q)); r.env[v.substr(0, q)] = v.substr(q + 1); } else r.dir = v; }
    return r;
}
// the variables that tell the tracker how to reach the client (0 standard streams, 1 dedicated streams, 2 a socket)
static inline void connected(const Dump &d, int mode) { for (auto v : {"TRAX_IN", "TRAX_OUT", "TRAX_SOCKET"}) check((d.env.count(v) != 0) == (mode == (v[5] == 'S' ? 2 : 1)), "the tracker got another kind of connection", v); }
}
