#include "pbt.hpp"
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <algorithm>
#include <fstream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define PBT_ASAN 1
#endif

extern "C" const char *__asan_default_options() {
    return "exitcode=98:detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=1:"
           "max_allocation_size_mb=64:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=32";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

namespace pbt {

std::vector<Property> &registry() { static std::vector<Property> r; return r; }

// ---------------------------------------------------------------- allocation counting
static long g_live = 0;
static thread_local int g_untracked = 0;
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void on_malloc(const volatile void *, size_t) { if (!g_untracked) __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void *p) { if (p && !g_untracked) __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); }
static void install_hooks() { static bool once = false; if (!once) { once = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } }
#else
static void install_hooks() {}
#endif
long live_allocations() { return __atomic_load_n(&g_live, __ATOMIC_RELAXED); }
Untracked::Untracked() { g_untracked++; }
Untracked::~Untracked() { g_untracked--; }

// ---------------------------------------------------------------- shared statistics
static const size_t TABLE = 1 << 21;
static const int TAGS = 96, SAMPLES = 8, SLOTS = 40;
static const size_t LOG = (1 << 20) + 8;
struct Slot { std::atomic<uint64_t> index; std::atomic<int64_t> started_ms; std::atomic<int> phase; char kind[64]; char detail[1536]; };
struct Shared {
    std::atomic<uint64_t> evaluations, nontrivial, distinct, discarded;
    std::atomic<int> stop, nsamples, ntags;
    struct { char name[48]; std::atomic<uint64_t> count; } tags[TAGS];
    char samples[SAMPLES][1400];
    Slot slots[SLOTS];
    uint64_t logs[SLOTS][LOG];
    std::atomic<uint64_t> table[TABLE];
};
static Shared *S = nullptr;
static Slot *g_slot = nullptr;
void bail(const std::string &kind, const std::string &detail) {
    if (g_slot) { strncpy(g_slot->kind, kind.c_str(), sizeof g_slot->kind - 1); strncpy(g_slot->detail, detail.c_str(), sizeof g_slot->detail - 1); }
    _exit(97);
}

void Ctx::tag(const char *name) {
    if (!S) return;
    for (int i = 0; i < TAGS; i++) {
        if (i < S->ntags && strncmp(S->tags[i].name, name, 47) == 0) { S->tags[i].count++; return; }
        if (i >= S->ntags) {
            // a race here at worst splits one tag over two rows
            strncpy(S->tags[i].name, name, 47);
            S->ntags = i + 1;
            S->tags[i].count++;
            return;
        }
    }
}

static int64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ll + t.tv_nsec / 1000000; }

static bool insert_hash(uint64_t h) {
    if (!h) h = 1;
    size_t i = h % TABLE;
    for (int k = 0; k < 64; k++, i = (i + 1) % TABLE) {
        uint64_t cur = S->table[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            uint64_t z = 0;
            if (S->table[i].compare_exchange_strong(z, h)) return true;
            if (z == h) return false;
        }
    }
    return false; // table full: count conservatively
}

static uint64_t tape_hash(const Tape &t) {
    uint64_t h = 1469598103934665603ull;
    for (uint64_t v : t.data) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}

// Runs one case in this process. Returns true if it passed; fills kind/detail otherwise.
static bool run_case(const Property &p, Tape &tape, Ctx &ctx, std::string &kind, std::string &detail, bool &discarded) {
    install_hooks();
    discarded = false;
    tape.data.reserve(tape.data.size() + 4096);
    std::vector<uint64_t> first;
    for (int round = 0; round < 3; round++) {
        long before;
        {
            before = live_allocations();
            try { p.run(tape, ctx); }
            catch (const Discard &) { discarded = true; return true; }
            catch (const Failure &f) { kind = f.kind; detail = f.detail; return false; }
            catch (const std::exception &e) { kind = "exception"; detail = e.what(); return false; }
        }
        long after = live_allocations();
        if (!p.leak_check || ctx.want_sample || after <= before) return true;
        // first-use allocations and growth of our own buffers are not leaks: run it again
        if (round == 2) { kind = "leak"; detail = cat(after - before, " allocation(s) were never released"); return false; }
        tape.generating = false;
        tape.pos = 0;
    }
    return true;
}

static uint64_t case_state(uint64_t seed, uint64_t worker, uint64_t i) {
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    splitmix(s); s ^= worker * 0xD1B54A32D192ED03ull; splitmix(s); s ^= i * 0x8CB92BA72F3D8DD7ull; splitmix(s);
    return s;
}

static void silence() {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0 && !getenv("PBT_VERBOSE")) { dup2(fd, 1); }
    if (fd > 2) close(fd);
}

static std::string g_errfile;

static void worker(const Property &p, int slot, uint64_t seed, uint64_t from) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    silence();
    Slot &sl = S->slots[slot]; g_slot = &sl;
    for (uint64_t i = from; !S->stop; i++) {
        sl.index = i; sl.started_ms = now_ms(); sl.phase = 1;
        Tape t; t.generating = true; t.state = case_state(seed, slot, i); t.mirror = S->logs[slot]; t.mirror[0] = 0;
        Ctx c; 
        std::string kind, detail; bool discarded = false;
        bool ok = run_case(p, t, c, kind, detail, discarded);
        sl.phase = 0;
        if (!ok) {
            strncpy(sl.kind, kind.c_str(), sizeof sl.kind - 1); strncpy(sl.detail, detail.c_str(), sizeof sl.detail - 1);
            _exit(97);
        }
        if (discarded) { S->discarded++; if (S->discarded > 100 && S->discarded > 20 * (S->evaluations + 1)) _exit(96); continue; }
        S->evaluations++;
        if (c.nontrivial) {
            S->nontrivial++;
            if (insert_hash(tape_hash(t))) S->distinct++;
            // a few samples: the first, then some later ones
            uint64_t n = S->nontrivial;
            if ((n == 1 || n == 7 || n == 40 || n == 200 || n == 900 || n == 3000) && S->nsamples < SAMPLES) {
                int k = S->nsamples++;
                if (k < SAMPLES) {
                    Tape r; r.data = t.data; Ctx c2; c2.want_sample = true; bool d2; std::string a, b;
                    run_case(p, r, c2, a, b, d2);
                    strncpy(S->samples[k], c2.sample.c_str(), sizeof S->samples[k] - 1);
                }
            }
        }
    }
    _exit(0);
}

struct Outcome { bool failed = false; std::string kind, detail; };

// Runs a given tape in a fresh process.
static Outcome run_tape(const Property &p, const std::vector<uint64_t> &data, bool verbose, double timeout) {
    Outcome o;
    Slot &sl = S->slots[SLOTS - 1];
    sl.kind[0] = sl.detail[0] = 0;
    std::string err = g_errfile;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        silence(); g_slot = &sl;
        if (!verbose) { int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) dup2(fd, 2); }
        Tape t; t.data = data; Ctx c; std::string kind, detail; bool d = false;
        bool ok = run_case(p, t, c, kind, detail, d);
        if (!ok) {
            strncpy(sl.kind, kind.c_str(), sizeof sl.kind - 1); strncpy(sl.detail, detail.c_str(), sizeof sl.detail - 1);
            _exit(97);
        }
        _exit(0);
    }
    int64_t t0 = now_ms(); int st = 0;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now_ms() - t0 > timeout * 1000) {
            kill(pid, SIGKILL); waitpid(pid, &st, 0);
            o.failed = true; o.kind = "hang"; o.detail = cat("no result after ", timeout, " s");
            return o;
        }
        usleep(now_ms() - t0 < 20 ? 200 : 2000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { o.kind = sl.kind; o.detail = sl.detail; return o; }
    o.kind = "crash";
    o.detail = WIFSIGNALED(st) ? cat("killed by signal ", WTERMSIG(st)) : cat("exit status ", WEXITSTATUS(st));
    std::ifstream f(err); std::string line; int n = 0;
    while (std::getline(f, line) && n < 40) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("Assertion") != std::string::npos || (n > 0 && n < 6 && line.find("    #") == 0)) { o.detail += " | " + line.substr(0, 200); n++; }
    }
    return o;
}

static std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> best, Outcome &o, double budget_s) {
    int64_t deadline = now_ms() + (int64_t) (budget_s * 1000);
    double to = o.kind == "hang" ? std::min(p.case_timeout, std::max(4.0, p.case_timeout / 4)) : p.case_timeout;
    auto attempt = [&](const std::vector<uint64_t> &d) {
        if (now_ms() > deadline) return false;
        Outcome r = run_tape(p, d, false, to);
        if (!r.failed || r.kind != o.kind) return false;
        Outcome more = run_tape(p, d, false, to);      // what fails only now and then is not a smaller case
        if (!more.failed || more.kind != o.kind) return false;
        o = r; best = d; return true;
    };
    bool progress = true;
    while (progress && now_ms() < deadline) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                std::vector<uint64_t> d(best); d.erase(d.begin() + i, d.begin() + i + len);
                if (attempt(d)) progress = true; else i += len;
                if (now_ms() > deadline) return best;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size(); i += len) {
                bool any = false; for (size_t k = i; k < i + len; k++) any |= best[k] != 0;
                if (!any) continue;
                std::vector<uint64_t> d(best); std::fill(d.begin() + i, d.begin() + i + len, 0);
                if (attempt(d)) progress = true;
                if (now_ms() > deadline) return best;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size(); i++) {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi) { // smallest value that still fails, assuming it is monotone
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> d(best); d[i] = mid;
                if (attempt(d)) { progress = true; hi = mid; } else lo = mid + 1;
                if (now_ms() > deadline) return best;
            }
        }
        while (!best.empty() && best.back() == 0) best.pop_back();
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static bool load_replay(const char *path, std::string &id, std::vector<uint64_t> &data) {
    std::ifstream f(path); if (!f) return false;
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream is(line); std::string w; is >> w;
        if (w == "property") is >> id;
        else if (w == "tape") { uint64_t v; while (is >> v) data.push_back(v); }
    }
    return true;
}

int run_main(int argc, char **argv) {
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto get = [&](const char *k, const char *d) { return opt.count(k) ? opt[k] : std::string(d); };
    signal(SIGPIPE, SIG_DFL);
    g_errfile = get("--scratch", "/tmp") + cat("/pbt-err-", getpid());
    S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }

    std::string id = get("--property", "");
    std::vector<uint64_t> replay;
    bool replaying = opt.count("--replay");
    if (replaying && !load_replay(opt["--replay"].c_str(), id, replay)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    const Property *p = nullptr;
    for (auto &q : registry()) if (id == q.id) p = &q;
    if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }

    if (replaying) {
        bool verbose = opt.count("--verbose");
        if (verbose) {
            Tape t; t.data = replay; Ctx c; c.want_sample = true;
            pid_t pid = fork();
            if (pid == 0) { std::string a, b; bool d; run_case(*p, t, c, a, b, d); fprintf(stderr, "case: %s\n", c.sample.c_str()); _exit(0); }
            int st; waitpid(pid, &st, 0);
        }
        Outcome o = run_tape(*p, replay, verbose, p->case_timeout);
        unlink(g_errfile.c_str());
        if (o.failed) { printf("FAILED %s %s: %s\n", id.c_str(), o.kind.c_str(), o.detail.c_str()); return 1; }
        printf("PASSED %s\n", id.c_str());
        return 0;
    }

    uint64_t seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
    double seconds = atof(get("--time", "10").c_str());
    int tries = atoi(get("--tries", "1").c_str());      // more for properties that depend on the schedule
    int workers = std::min<int>({atoi(get("--workers", "8").c_str()), (int) p->max_workers, SLOTS - 1});
    std::string out = get("--out", ""), replays = get("--replays", ".");

    int64_t t0 = now_ms();
    pid_t pids[SLOTS] = {0};
    fflush(stdout);
    for (int w = 0; w < workers; w++) { S->slots[w].started_ms = now_ms(); if ((pids[w] = fork()) == 0) worker(*p, w, seed, 0); }
    bool failed = false; Outcome o; std::vector<uint64_t> tape; uint64_t failing = 0; int failing_worker = -1;
    bool starved = false; int unreproduced = 0; std::string unrep;
    bool stopping = false;
    while (true) {
        usleep(10000);
        int alive = 0;
        for (int w = 0; w < workers; w++) {
            if (!pids[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool bad = false; Outcome first;
            if (r == pids[w]) {
                pids[w] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 96) { starved = true; continue; }
                bad = true; first.failed = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { first.kind = S->slots[w].kind; first.detail = S->slots[w].detail; }
                else { first.kind = "crash"; first.detail = WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit status ", WEXITSTATUS(st)); }
            } else {
                alive++;
                if (S->slots[w].phase == 1 && now_ms() - S->slots[w].started_ms > p->case_timeout * 1000) {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; alive--;
                    bad = true; first.failed = true; first.kind = "hang";
                }
            }
            if (bad && !failed) {
                uint64_t idx = S->slots[w].index;
                std::vector<uint64_t> d(S->logs[w] + 1, S->logs[w] + 1 + S->logs[w][0]); // the draws of the case, as it made them
                Outcome again = run_tape(*p, d, false, p->case_timeout);
                for (int i = 0; i < tries && !again.failed; i++) again = run_tape(*p, d, false, p->case_timeout);
                if (again.failed) { failed = true; o = again; tape = d; failing = idx; failing_worker = w; }
                else {
                    // could not be reproduced from its tape: not reported as a violation, but counted
                    unreproduced++; unrep = first.kind + ": " + first.detail;
                    if ((pids[w] = fork()) == 0) worker(*p, w, seed, idx + 1);
                    S->slots[w].started_ms = now_ms(); alive++;
                }
            }
        }
        if (failed || !alive) break;
        double el = (now_ms() - t0) / 1000.0;
        if (!stopping && ((el >= seconds && S->evaluations >= p->min_cases) || el >= 6 * seconds + 60)) { S->stop = 1; stopping = true; }
    }
    S->stop = 1;
    for (int w = 0; w < workers; w++) if (pids[w]) { if (failed) kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }

    std::string replay_path;
    if (failed) {
        fprintf(stderr, "%s: case %d/%llu failed (%s: %s), shrinking %zu draws\n", p->id, failing_worker, (unsigned long long) failing, o.kind.c_str(), o.detail.c_str(), tape.size());
        double budget = atof(get("--shrink", "20").c_str());
        std::vector<uint64_t> small = shrink(*p, tape, o, budget);
        replay_path = replays + "/" + p->id + "-" + cat(seed) + ".replay";
        std::ofstream f(replay_path);
        f << "# " << o.kind << ": " << o.detail << "\n";
        f << "property " << p->id << "\n# found by seed " << seed << " worker " << failing_worker << " case " << failing << ", " << tape.size() << " draws before shrinking\n";
        f << "tape"; for (uint64_t v : small) f << " " << v; f << "\n";
        std::ofstream w(replay_path + ".full");         // the case as it was found
        w << "# " << o.kind << ": " << o.detail << "\nproperty " << p->id << "\n# found by seed " << seed << " worker " << failing_worker << " case " << failing << ", not shrunk\ntape";
        for (uint64_t v : tape) w << " " << v; w << "\n";
    }
    unlink(g_errfile.c_str());
    double wall = (now_ms() - t0) / 1000.0;
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"property\": " << jstr(p->id) << ", \"seed\": " << seed << ", \"evaluations\": " << S->evaluations << ", \"nontrivial\": " << S->nontrivial
          << ", \"distinct_nontrivial\": " << S->distinct << ", \"discarded\": " << S->discarded << ", \"unreproduced\": " << unreproduced << ", \"unreproduced_last\": " << jstr(unrep)
          << ", \"rule\": " << jstr(p->rule) << ", \"wall_s\": " << wall << ", \"failed\": " << (failed ? "true" : "false")
          << ", \"kind\": " << jstr(o.kind) << ", \"detail\": " << jstr(o.detail) << ", \"replay\": " << jstr(replay_path) << ", \"classes\": {";
        std::map<std::string, uint64_t> tags; for (int i = 0; i < S->ntags; i++) tags[S->tags[i].name] += S->tags[i].count;
        bool first = true; for (auto &kv : tags) { f << (first ? "" : ", ") << jstr(kv.first) << ": " << kv.second; first = false; }
        f << "}, \"samples\": [";
        first = true; for (int i = 0; i < std::min<int>(S->nsamples, SAMPLES); i++) if (S->samples[i][0]) { f << (first ? "" : ", ") << jstr(S->samples[i]); first = false; }
        f << "], \"assumptions\": [";
        first = true; for (auto &a : p->assumptions) { f << (first ? "" : ", ") << jstr(a); first = false; }
        f << "]}\n";
    }
    fprintf(stderr, "%s: %llu cases, %llu non-trivial (%llu distinct), %.1f s%s\n", p->id, (unsigned long long) S->evaluations, (unsigned long long) S->nontrivial, (unsigned long long) S->distinct, wall,
            failed ? (" FAILED " + o.kind + ": " + o.detail).c_str() : "");
    if (failed) return 1;
    if (starved || S->evaluations < p->min_cases / 10 + 1 || S->nontrivial == 0) { fprintf(stderr, "too few usable cases\n"); return 2; }
    return 0;
}
}
