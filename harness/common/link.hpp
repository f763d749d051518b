// In-memory transport for the endpoints under test.
//
// The library reads and writes plain descriptors.  The link step redirects read/write/recv/send (and
// the vector forms) to the functions below: descriptors of a small pool are backed by byte channels,
// everything else goes to the real call.  How many bytes each read returns and each write accepts is
// decided by the case (fragmentation), and a read from an empty channel whose writer is still there,
// which would block for ever, is recorded and reported as end of stream.
#pragma once
#include "pbt.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/uio.h>
#include <sys/socket.h>

namespace lnk {
using pbt::Tape;

struct Frag {                       // how a stream is cut into pieces
    int mode = 0;                   // 0 whole, 1 single bytes, 2 random pieces, 3 pieces around a fixed size
    uint64_t state = 1; size_t piece = 1;
    static Frag draw(Tape &t) {
        Frag f; f.mode = t.weighted({3, 1, 3, 2});
        if (f.mode == 2) f.state = t.below(1 << 20) + 1;
        if (f.mode == 3) f.piece = t.pick(std::vector<size_t>{2, 3, 7, 16, 61, 512, 4095, 4096, 1023});
        return f;
    }
    size_t cut(size_t n) {
        if (n <= 1 || mode == 0) return n;
        if (mode == 1) return 1;
        if (mode == 3) return std::min(n, piece);
        uint64_t r = pbt::splitmix(state);
        size_t m = 1;
        switch (r & 3) { case 0: m = 1 + (r >> 8) % 3; break; case 1: m = 1 + (r >> 8) % 17; break; case 2: m = 1 + (r >> 8) % 300; break; default: m = 1 + (r >> 8) % 5000; }
        return std::min(n, m);
    }
};

struct Channel {
    std::string bytes;              // everything ever written
    size_t rpos = 0;                // how much the reader has taken
    bool closed = false;            // the writer is gone
    Frag rd, wr;
};

static const int POOL = 12;
struct State {
    int base[POOL]; bool ready = false;
    Channel *in[POOL], *out[POOL];
    int used = 0;
    bool blocked = false;           // somebody read an empty channel that is still open
    int idle = 0;                   // consecutive reads that returned nothing
    int reads = 0, writes = 0;
    Frag tcp_rd, tcp_wr;            // pieces of real sockets
};
inline State &st() { static State s; return s; }

inline void init() {
    State &s = st();
    if (!s.ready) {
        for (int i = 0; i < POOL; i++) { int f = open("/dev/null", O_RDWR); s.base[i] = fcntl(f, F_DUPFD_CLOEXEC, 300 + i); close(f); }
        s.ready = true;
    }
    for (int i = 0; i < POOL; i++) s.in[i] = s.out[i] = nullptr;
    s.used = 0; s.blocked = false; s.idle = 0; s.reads = s.writes = 0; s.tcp_rd = s.tcp_wr = Frag();
}
// a descriptor that reads from / writes to a channel
inline int reader(Channel *c) { State &s = st(); if (s.used >= POOL) abort(); s.in[s.used] = c; return s.base[s.used++]; }
inline int writer(Channel *c) { State &s = st(); if (s.used >= POOL) abort(); s.out[s.used] = c; return s.base[s.used++]; }
inline int slot(int fd) { State &s = st(); if (s.ready) for (int i = 0; i < s.used; i++) if (s.base[i] == fd) return i; return -1; }

inline ssize_t do_read(int i, void *buf, size_t n) {
    State &s = st(); Channel *c = s.in[i];
    if (!c) { errno = EBADF; return -1; }
    s.reads++;
    size_t avail = c->bytes.size() - c->rpos;
    if (avail == 0 || n == 0) {
        if (!c->closed) s.blocked = true;
        if (++s.idle > 2000) { fprintf(stderr, "Assertion: endpoint keeps reading after the end of the stream\n"); abort(); }
        return 0;
    }
    s.idle = 0;
    size_t m = c->rd.cut(std::min(n, avail));
    memcpy(buf, c->bytes.data() + c->rpos, m);
    c->rpos += m;
    return (ssize_t) m;
}
inline ssize_t do_write(int i, const void *buf, size_t n) {
    State &s = st(); Channel *c = s.out[i];
    if (!c) { errno = EBADF; return -1; }
    s.writes++;
    if (n == 0) return 0;
    size_t m = c->wr.cut(n);
    { pbt::Untracked u; if (c->bytes.capacity() < c->bytes.size() + m) c->bytes.reserve(2 * c->bytes.size() + m + 4096); }
    c->bytes.append((const char *) buf, m);
    if (c->bytes.size() > (256u << 20)) { fprintf(stderr, "Assertion: endless output\n"); abort(); }
    return (ssize_t) m;
}
}

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_readv(int, const struct iovec *, int);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_read(int fd, void *b, size_t n) { int i = lnk::slot(fd); return i < 0 ? __real_read(fd, b, n) : lnk::do_read(i, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { int i = lnk::slot(fd); return i < 0 ? __real_write(fd, b, n) : lnk::do_write(i, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { int i = lnk::slot(fd); return i < 0 ? __real_recv(fd, b, lnk::st().tcp_rd.cut(n), f) : lnk::do_read(i, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { int i = lnk::slot(fd); return i < 0 ? __real_send(fd, b, lnk::st().tcp_wr.cut(n), f) : lnk::do_write(i, b, n); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) {
    int i = lnk::slot(fd); if (i < 0) return __real_readv(fd, v, c);
    for (int k = 0; k < c; k++) if (v[k].iov_len) return lnk::do_read(i, v[k].iov_base, v[k].iov_len);
    return 0;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
    int i = lnk::slot(fd); if (i < 0) return __real_writev(fd, v, c);
    for (int k = 0; k < c; k++) if (v[k].iov_len) return lnk::do_write(i, v[k].iov_base, v[k].iov_len);
    return 0;
}
}
