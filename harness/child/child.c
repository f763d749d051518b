/* A tracker process that follows a script, written against the protocol text only.
   TRAXV_SCRIPT holds commands separated by '\x01':
     O          open the channel (done before the first use of it otherwise)
     T<text>    write text to the channel            W<n>  wait for n requests (or the end of the input)
     V          requests are initialize messages too (protocol before version 4)
     S<ms>      sleep                                 F<n>  write n bytes of other lines to the channel
     E<n>       write n bytes to the error stream     e<text>  write text to it     M<file>  create a file if more than 0.6 s have passed since the last e
     X<n>  exit    K<n>  raise signal n
     I          ignore the polite signals             H     hang    J     write other lines to the channel for ever
     j          write to the error stream for ever    C     close the output channel   c  close the input channel   b both and the error stream
     D<file>    write arguments, environment and working directory to a file
     R<file>      append everything that is read to a file, whose name is completed by the number of the start
   The parts of a script separated by '\x02' belong to the first, second, ... start (counted in the file TRAXV_PID).
   TRAXV_PID names a file to which the process id is appended.  The end of the script waits for the end of the input. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <time.h>
extern char **environ;
static int in = -1, out = -1, rec = -1;
static void put(int fd, const char *s, size_t n) { while (n) { ssize_t k = write(fd, s, n); if (k < 0) { if (errno == EINTR) continue; if (errno == EPIPE) _exit(0); return; } s += k; n -= k; } }
static void open_channel(void) {
    if (out != -1) return;
    const char *p = getenv("TRAX_SOCKET"), *i = getenv("TRAX_IN"), *o = getenv("TRAX_OUT");
    if (p) {
        struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(atoi(p)); a.sin_addr.s_addr = inet_addr("127.0.0.1");
        in = out = socket(AF_INET, SOCK_STREAM, 0);
        if (connect(in, (struct sockaddr *) &a, sizeof a)) _exit(66);
    } else { in = i ? atoi(i) : 0; out = o ? atoi(o) : 1; }
}
/* reads until n requests have arrived; exits at the end of the input or at a quit message */
static int old = 0;
static void await(long n) {
    static char buf[65536]; static size_t have = 0, at = 0; static char head[16]; static int pos = 0;
    open_channel();
    while (n > 0) {
        if (at == have) { ssize_t k = read(in, buf, sizeof buf); if (k < 0 && errno == EINTR) continue; if (k <= 0) _exit(0); have = k; at = 0; if (rec >= 0) put(rec, buf, have); }
        while (at < have && n > 0) {
            char c = buf[at++];
            if (c == '\n') { if (pos >= 7 && !memcmp(head, "@@TRAX:", 7)) { char k = pos >= 8 ? head[7] : 0; if (k == 'q') _exit(0); if (k == 'f' || (old && k == 'i')) n--; } pos = 0; }
            else { if (pos < 15) head[pos] = c; pos++; }
        }
    }
}
static long last_error = 0;
static long clock_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
static void nap(long ms) { struct timespec t = {ms / 1000, (ms % 1000) * 1000000L}; while (nanosleep(&t, &t) && errno == EINTR) {} }
static void junk(int fd, long n) { const char *l = "just a line of other output 0123456789\n"; size_t k = strlen(l); while (n > 0) { size_t m = n < (long) k ? (size_t) n : k; put(fd, l, m); n -= m; } put(fd, "\n", 1); }
int main(int argc, char **argv) {
    alarm(100);
    signal(SIGPIPE, SIG_IGN);
    const char *pf = getenv("TRAXV_PID");
    int start = 0;
    if (pf) { int f = open(pf, O_RDWR | O_CREAT | O_APPEND, 0600); char x; while (f >= 0 && read(f, &x, 1) == 1) start += x == '\n'; if (f >= 0) { dprintf(f, "%d\n", (int) getpid()); close(f); } }
    const char *s = getenv("TRAXV_SCRIPT");
    if (!s) return 65;
    for (int i = 0; i < start && strchr(s, 2); i++) s = strchr(s, 2) + 1;
    while (*s && *s != 2) {
        size_t n = strcspn(s, "\1\2"); const char *e = s[n] == 1 ? s + n : NULL; char c = *s; const char *a = s + 1; long v = atol(a);
        switch (c) {
        case 'O': open_channel(); break;
        case 'T': open_channel(); put(out, a, n - 1); break;
        case 'W': await(v); break;
        case 'V': old = 1; break;
        case 'S': nap(v); break;
        case 'F': open_channel(); junk(out, v); break;
        case 'E': junk(2, v); break;
        case 'e': put(2, a, n - 1); last_error = clock_ms(); break;
        case 'M': if (clock_ms() - last_error > 600) { char name[300]; snprintf(name, sizeof name, "%.*s", (int) (n - 1), a); close(open(name, O_CREAT | O_WRONLY, 0600)); } break;
        case 'X': _exit((int) v);
        case 'K': signal((int) v, SIG_DFL); raise((int) v); _exit(67);
        case 'I': signal(SIGTERM, SIG_IGN); signal(SIGINT, SIG_IGN); signal(SIGHUP, SIG_IGN); break;
        case 'H': for (;;) nap(100000);
        case 'J': open_channel(); for (;;) junk(out, 4000);
        case 'j': for (;;) junk(2, 4000);
        case 'C': open_channel(); close(out); break;
        case 'c': open_channel(); close(in); break;
        case 'b': open_channel(); close(out); close(in); close(2); break;
        case 'R': { char *file; if (asprintf(&file, "%.*s.%d", (int) (n - 1), a, start) < 0) _exit(68); rec = open(file, O_WRONLY | O_CREAT | O_TRUNC, 0600); free(file); if (rec < 0) _exit(68); break; }
        case 'D': {
            char *file = strndup(a, n - 1); FILE *f = fopen(file, "wb"); char cwd[4096] = ""; if (!f) _exit(68);
            for (int i = 0; i < argc; i++) { fprintf(f, "A%zu:", strlen(argv[i])); fwrite(argv[i], 1, strlen(argv[i]), f); }
            for (char **x = environ; *x; x++) { fprintf(f, "E%zu:", strlen(*x)); fwrite(*x, 1, strlen(*x), f); }
            if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
            fprintf(f, "D%zu:%s.", strlen(cwd), cwd); fclose(f); free(file); break; }
        default: _exit(69);
        }
        s = e ? e + 1 : s + n;
    }
    open_channel(); await(1L << 40);
    return 0;
}
