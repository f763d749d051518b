// Running the programs of the client component: what their trackers were asked, and how they ended.
#pragma once
#include "procgen.hpp"
#include <spawn.h>
#include <sys/wait.h>
namespace cligen {
using namespace pbt;
using namespace gen;
using namespace cppgen;
using namespace procgen;
static std::string slurp(const std::string &file) { std::ifstream f(file, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void spit(const std::string &file, const std::string &s) { std::ofstream f(file, std::ios::binary); f << s; }
static bool exists(const std::string &file) { struct stat s; return stat(file.c_str(), &s) == 0; }

// ------------------------------------------------------------------ reading the requests a tracker got
struct Message { std::string type; std::vector<std::string> args; std::map<std::string, std::string> props; };
static std::vector<Message> requests_in(const std::string &raw) {
    std::vector<Message> r; size_t i = 0;
    while (i < raw.size()) {
        size_t e = raw.find('\n', i); if (e == std::string::npos) e = raw.size();
        std::string l = raw.substr(i, e - i); i = e + 1;
        check(l.compare(0, 7, "@@TRAX:") == 0, "a line that is no message was sent to the tracker", quote(l));
        Message m; size_t k = 7; while (k < l.size() && l[k] != ' ') m.type += l[k++];
        while (k < l.size()) {
            if (l[k] == ' ') { k++; continue; }
            check(l[k] == '"', "unquoted argument", quote(l)); k++; std::string key, a; bool eq = false, closed = false;
            while (k < l.size()) { char c = l[k++]; if (c == '"') { closed = true; break; } if (c == '=' && !eq && a.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._") == std::string::npos) { eq = true; key = a; a.clear(); continue; } if (c == '\\' && k < l.size()) { char x = l[k++]; a += x == 'n' ? '\n' : x; } else a += c; }
            check(closed, "argument without an end", quote(l));
            if (eq) m.props[key] = a; else m.args.push_back(a);
        }
        r.push_back(m);
    }
    return r;
}
static std::string base64(const std::string &s) {
    static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; size_t i = 0;
    for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8 | (unsigned char) s[i + 2]; r += T[v >> 18]; r += T[v >> 12 & 63]; r += T[v >> 6 & 63]; r += T[v & 63]; }
    if (i < s.size()) { unsigned v = (unsigned char) s[i] << 16 | (i + 1 < s.size() ? (unsigned char) s[i + 1] << 8 : 0); r += T[v >> 18]; r += T[v >> 12 & 63]; r += i + 1 < s.size() ? T[v >> 6 & 63] : '='; r += '='; }
    return r;
}

// ------------------------------------------------------------------ running the client
struct Result { int status; std::string out, err; double seconds; };
// starts the program that lies beside the check under this name
static std::string beside(const std::string &name) { std::string p = child_path(); return p.substr(0, p.rfind('/') + 1) + name; }
static Result run(const std::string &program, const std::vector<std::string> &args, const std::map<std::string, std::string> &env, const Dir &dir, int64_t limit, bool interrupt) {
    std::vector<std::string> vars; std::map<std::string, std::string> m; for (char **x = environ; *x; x++) { std::string v = *x; size_t q = v.find('='); if (q != std::string::npos) m[v.substr(0, q)] = v.substr(q + 1); }
    for (auto &kv : env) m[kv.first] = kv.second;
    m["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0"; m["UBSAN_OPTIONS"] = "exitcode=77"; m.erase("TRAX_BOUNDED_OVERLAP"); for (auto k : {"TRAX_REGION_LEGACY", "TRAX_SOCKET", "TRAX_IN", "TRAX_OUT"}) m.erase(k);
    if (env.count("TRAX_BOUNDED_OVERLAP")) m["TRAX_BOUNDED_OVERLAP"] = env.at("TRAX_BOUNDED_OVERLAP");
    for (auto &kv : m) vars.push_back(kv.first + "=" + kv.second);
    std::vector<char *> a, e; std::string exe = beside(program); a.push_back(&exe[0]); for (auto &x : args) a.push_back(const_cast<char *>(x.c_str())); a.push_back(nullptr); for (auto &x : vars) e.push_back(&x[0]); e.push_back(nullptr);
    posix_spawn_file_actions_t act; posix_spawn_file_actions_init(&act); std::string o = dir.path + "/stdout", r = dir.path + "/stderr";
    posix_spawn_file_actions_addopen(&act, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&act, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&act, 2, r.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t pid; int64_t t0 = now(); int rc = posix_spawn(&pid, exe.c_str(), &act, nullptr, a.data(), e.data()); posix_spawn_file_actions_destroy(&act);
    if (rc) { fprintf(stderr, "cannot start %s\n", exe.c_str()); _exit(98); }
    int st = 0; bool sent = false;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break;
        if (interrupt && !sent && now() - t0 > 1500) { kill(pid, SIGINT); sent = true; }
        if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); fail("the client does not end", cat(limit, " ms; ", quote(slurp(r), 300))); }
        usleep(3000);
    }
    Result x; x.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); x.out = slurp(o); x.err = slurp(r); x.seconds = (now() - t0) / 1000.;
    if (x.status == 77 || x.err.find("Sanitizer") != std::string::npos || x.err.find("runtime error") != std::string::npos) { size_t k = x.err.find("ERROR:"); fail("sanitizer report", quote(x.err.substr(k == std::string::npos ? 0 : k), 400)); }
    if (x.status < 0) fail("the client crashed", cat("signal ", -x.status, " ", quote(x.err, 300)));
    return x;
}
}
