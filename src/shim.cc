// Link-time shim (ld --wrap) around the socket calls made by the DP-PIR
// objects.  It is the observation point of all deployment-level monitors: it
// records every byte the process moves over every TCP connection (with
// CLOCK_MONOTONIC stamps taken before and after the call) and it perturbs the
// environment: stream segmentation, delays, poll starvation, byte corruption,
// crashes, small kernel buffers, deterministic / edge-biased randomness.
// It is configured by environment variables only; nothing in /repo is touched.
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sodium.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_write(int, const void*, size_t);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_ppoll(struct pollfd*, nfds_t, const struct timespec*, const sigset_t*);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_accept4(int, struct sockaddr*, socklen_t*, int);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_listen(int, int);
int __real_close(int);
}

namespace {

enum Ev : uint8_t {
  EV_START = 1,
  EV_CONNECT = 2,
  EV_ACCEPT = 3,
  EV_RECV = 4,
  EV_SEND = 5,
  EV_EOF = 6,
  EV_ERR = 7,
  EV_SPIN = 8,
  EV_KILL = 9,
  EV_LISTEN = 10,
  EV_TAMPER = 11,
  EV_EXIT = 12,
  EV_CLOSE = 13,
  EV_CONNFAIL = 14,
};

struct __attribute__((packed)) Rec {
  uint8_t type;
  uint8_t role;  // 'b' back, 'n' next, 's' sibling, 'l' listener
  uint16_t conn;
  uint32_t len;  // payload bytes that follow
  uint64_t t0;
  uint64_t t1;
  uint32_t a;  // port / errno / requested
  uint32_t b;
};

struct Conn {
  bool used = false;
  char role = 0;
  uint16_t id = 0;
  uint64_t roff = 0, woff = 0;
  bool eof = false;
  uint32_t eofreads = 0;
};

constexpr int MAXFD = 4096;
Conn conns[MAXFD];
uint16_t next_conn = 1;
int logfd = -1;
int back_port = -1, par_port = -1, next_port = -1;
unsigned sleep_us = 0;
// > 1: to the process everything takes that many times longer (its clock runs
// faster, its time limits run out sooner), so a short stall is a long one.
long haste = 1;
uint64_t haste_t0[16];
bool sleep_set = false;
int bufclamp = 0;
unsigned pollhide = 0;
uint64_t rngs[4];     // schedule rng
uint64_t crs[4];      // libsodium rng
int rngmode = 0;      // 0 real, 1 seeded, 2 edge
char rseg[32] = "none", wseg[32] = "none";
unsigned rarg = 0, warg = 0;
unsigned jitter_us = 0;
uint64_t poll_calls = 0;

struct Rule {
  char role, dir;
  uint64_t off;
  uint64_t arg;
  char kind;  // 't' tamper, 'k' kill, 'd' delay, 'x' shutdown
  bool fired;
};
Rule rules[256];
int nrules = 0;

uint64_t now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return uint64_t(ts.tv_sec) * 1000000000ull + ts.tv_nsec;
}

uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t xo(uint64_t* s) {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return r;
}
void seedxo(uint64_t* s, uint64_t v) {
  for (int i = 0; i < 4; i++) {
    v += 0x9e3779b97f4a7c15ull;
    uint64_t z = v;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    s[i] = z ^ (z >> 31);
  }
}

void rawwritev(struct iovec* iov, int n) {
  while (n > 0) {
    ssize_t w = syscall(SYS_writev, logfd, iov, n);
    if (w < 0) {
      if (errno == EINTR) continue;
      // A log that cannot be written would make the monitor blind: die loudly.
      static const char m[] = "VSHIM: cannot write log\n";
      syscall(SYS_write, 2, m, sizeof(m) - 1);
      _exit(96);
    }
    while (n > 0 && size_t(w) >= iov->iov_len) {
      w -= iov->iov_len;
      iov++;
      n--;
    }
    if (n > 0) {
      iov->iov_base = static_cast<char*>(iov->iov_base) + w;
      iov->iov_len -= w;
    }
  }
}

void logrec(uint8_t type, char role, uint16_t conn, uint64_t t0, uint64_t t1,
            uint32_t a, uint32_t b, const void* data, uint32_t len) {
  if (logfd < 0) return;
  int e = errno;
  Rec r{type, uint8_t(role), conn, len, t0, t1, a, b};
  struct iovec iov[2] = {{&r, sizeof(r)}, {const_cast<void*>(data), len}};
  rawwritev(iov, len ? 2 : 1);
  errno = e;
}

void msleep(uint64_t us) {
  struct timespec ts = {time_t(us / 1000000), long((us % 1000000) * 1000)};
  while (syscall(SYS_nanosleep, &ts, &ts) < 0 && errno == EINTR) {
  }
}

// ---- libsodium deterministic implementation ------------------------------
const char* rb_name() { return "vshim"; }
void rb_buf(void* const buf, const size_t n) {
  unsigned char* p = static_cast<unsigned char*>(buf);
  if (rngmode == 2 && n != 32) {
    uint64_t m = xo(crs) % 16;
    if (m == 0) {
      memset(p, 0, n);
      return;
    }
    if (m == 1) {
      memset(p, 0xff, n);
      return;
    }
  }
  size_t i = 0;
  while (i < n) {
    uint64_t v = xo(crs);
    size_t k = n - i < 8 ? n - i : 8;
    memcpy(p + i, &v, k);
    i += k;
  }
}
uint32_t rb_random() {
  if (rngmode == 2) {
    static const uint32_t ends[] = {0, 1, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
    uint64_t m = xo(crs) % 20;
    if (m < 8) return ends[m];
  }
  return uint32_t(xo(crs) >> 32);
}
uint32_t rb_uniform(const uint32_t ub) {
  if (ub < 2) return 0;
  if (rngmode == 2) {
    uint64_t m = xo(crs) % 16;
    uint32_t c;
    switch (m) {
      case 0: case 1: return 0;
      case 2: case 3: return ub - 1;
      case 4: return 1;
      case 5: return ub - 2;
      case 6: return ub / 2;
      case 7:
        c = 1u << (xo(crs) % 32);
        if (c < ub) return c;
        break;
      case 8:
        c = (1u << (xo(crs) % 32)) - 1;
        if (c < ub) return c;
        break;
    }
  }
  return uint32_t((unsigned __int128)(xo(crs)) * ub >> 64);
}
void rb_stir() {}
int rb_close() { return 0; }
struct randombytes_implementation rbimpl = {rb_name,    rb_random, rb_stir,
                                            rb_uniform, rb_buf,    rb_close};

const char* env(const char* k) { return getenv(k); }
long envl(const char* k, long d) { return env(k) ? atol(env(k)) : d; }

void parse_seg(const char* v, char* mode, unsigned* arg) {
  if (!v) return;
  snprintf(mode, 32, "%s", v);
  char* c = strchr(mode, ':');
  if (c) {
    *arg = atoi(c + 1);
    *c = 0;
  }
}

void on_exit_log() {
  logrec(EV_EXIT, 0, 0, now(), now(), uint32_t(poll_calls), 0, nullptr, 0);
}

__attribute__((constructor)) void init() {
  if (const char* p = env("VSHIM_LOG")) {
    logfd = open(p, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
    if (logfd >= 0) {
      int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 900);
      if (hi >= 0) {
        __real_close(logfd);
        logfd = hi;
      }
    }
  }
  back_port = envl("VSHIM_BACK", -1);
  par_port = envl("VSHIM_PAR", -1);
  next_port = envl("VSHIM_NEXT", -1);
  if (env("VSHIM_SLEEPUS")) {
    sleep_set = true;
    sleep_us = envl("VSHIM_SLEEPUS", 2000);
  }
  haste = envl("VSHIM_HASTE", 1);
  bufclamp = envl("VSHIM_BUFCLAMP", 0);
  pollhide = envl("VSHIM_POLLHIDE", 0);
  jitter_us = envl("VSHIM_JITTER", 0);
  parse_seg(env("VSHIM_RSEG"), rseg, &rarg);
  parse_seg(env("VSHIM_WSEG"), wseg, &warg);
  uint64_t seed = env("VSHIM_SEED") ? strtoull(env("VSHIM_SEED"), nullptr, 10) : 1;
  seedxo(rngs, seed * 2 + 1);
  seedxo(crs, seed * 2 + 77777);
  if (const char* m = env("VSHIM_RNG")) {
    rngmode = !strcmp(m, "edge") ? 2 : !strcmp(m, "seeded") ? 1 : 0;
    if (rngmode) randombytes_set_implementation(&rbimpl);
  }
  // kind,role,dir,offset,arg;...
  if (const char* r = env("VSHIM_RULES")) {
    while (*r && nrules < 256) {
      char k, ro, d;
      unsigned long long off, arg;
      if (sscanf(r, "%c,%c,%c,%llu,%llu", &k, &ro, &d, &off, &arg) == 5)
        rules[nrules++] = Rule{ro, d, off, arg, k, false};
      r = strchr(r, ';');
      if (!r) break;
      r++;
    }
  }
  logrec(EV_START, 0, 0, now(), now(), getpid(), 0, nullptr, 0);
  atexit(on_exit_log);
}

Conn* conn_of(int fd) {
  if (fd < 0 || fd >= MAXFD || !conns[fd].used) return nullptr;
  return &conns[fd];
}

// Fire positional rules of connection c for bytes [off, off+n) in direction d.
// Called before the bytes cross.  Returns the number of bytes allowed to cross
// before the next kill/shutdown/delay rule fires (so that it is exact).
size_t limit_by_rules(Conn* c, char d, uint64_t off, size_t n, int fd) {
  for (int i = 0; i < nrules; i++) {
    Rule& r = rules[i];
    if (r.fired || r.role != c->role || r.dir != d || r.kind == 't') continue;
    if (r.off <= off) {
      r.fired = true;
      if (r.kind == 'd') {
        msleep(r.arg);
      } else if (r.kind == 'k') {
        logrec(EV_KILL, c->role, c->id, now(), now(), uint32_t(off), 0, nullptr, 0);
        kill(getpid(), SIGKILL);
        for (;;) msleep(1000000);
      } else if (r.kind == 'x') {
        logrec(EV_KILL, c->role, c->id, now(), now(), uint32_t(off), 1, nullptr, 0);
        shutdown(fd, SHUT_RDWR);
      }
    } else if (r.off < off + n) {
      n = r.off - off;
    }
  }
  return n;
}
void tamper(Conn* c, char d, uint64_t off, char* buf, size_t n) {
  for (int i = 0; i < nrules; i++) {
    Rule& r = rules[i];
    if (r.fired || r.role != c->role || r.dir != d || r.kind != 't') continue;
    if (r.off >= off && r.off < off + n) {
      r.fired = true;
      if (r.arg >= 256)  // 256 + value: the byte becomes the value
        buf[r.off - off] = char(r.arg & 255);
      else
        buf[r.off - off] ^= char(r.arg);
      logrec(EV_TAMPER, c->role, c->id, now(), now(), uint32_t(r.off), uint32_t(r.arg), nullptr, 0);
    }
  }
}

size_t seglen(const char* mode, unsigned arg, uint64_t off, size_t n) {
  if (n <= 1 || !strcmp(mode, "none")) return n;
  size_t k = n;
  if (!strcmp(mode, "max")) {  // at most arg bytes
    k = arg;
  } else if (!strcmp(mode, "rand")) {
    k = 1 + xo(rngs) % (arg ? arg : 4096);
  } else if (!strcmp(mode, "mix")) {  // heavy-tailed
    switch (xo(rngs) % 6) {
      case 0: k = 1; break;
      case 1: k = 1 + xo(rngs) % 16; break;
      case 2: k = 1 + xo(rngs) % 300; break;
      case 3: k = 1 + xo(rngs) % 5000; break;
      case 4: k = n > 1 ? n - 1 : n; break;
      default: k = n;
    }
  } else if (!strcmp(mode, "tail")) {  // leave a partial unit at the end
    k = n > arg ? n - (1 + xo(rngs) % (arg ? arg : 1)) : n;
  } else if (!strcmp(mode, "align")) {  // break at off % arg == arg - 1
    uint64_t m = arg ? arg : 12;
    uint64_t to = m - 1 - (off % m);
    if (to == 0) to = m;
    k = to;
  }
  if (k == 0) k = 1;
  return k < n ? k : n;
}

void jitter() {
  if (jitter_us && xo(rngs) % 4 == 0) msleep(xo(rngs) % jitter_us);
}

ssize_t do_read(int fd, void* buf, size_t n, int flags) {
  Conn* c = conn_of(fd);
  if (!c) return flags ? __real_recv(fd, buf, n, flags) : __real_read(fd, buf, n);
  if (flags & MSG_PEEK) return __real_recv(fd, buf, n, flags);
  jitter();
  size_t k = limit_by_rules(c, 'r', c->roff, n, fd);
  if (!(flags & MSG_WAITALL)) k = seglen(rseg, rarg, c->roff, k);
  uint64_t t0 = now();
  ssize_t r = __real_recv(fd, buf, k, flags);
  int e = errno;
  uint64_t t1 = now();
  if (r > 0) {
    tamper(c, 'r', c->roff, static_cast<char*>(buf), r);
    logrec(EV_RECV, c->role, c->id, t0, t1, uint32_t(n), 0, buf, r);
    c->roff += r;
  } else if (r == 0 && k > 0) {
    if (!c->eof) logrec(EV_EOF, c->role, c->id, t0, t1, 0, 0, nullptr, 0);
    c->eof = true;
    if (++c->eofreads > 2000) {
      logrec(EV_SPIN, c->role, c->id, t0, t1, c->eofreads, 0, nullptr, 0);
      static const char m[] = "VSHIM: process keeps reading a closed connection\n";
      syscall(SYS_write, 2, m, sizeof(m) - 1);
      _exit(97);
    }
  } else if (r < 0 && e != EAGAIN && e != EINTR) {
    logrec(EV_ERR, c->role, c->id, t0, t1, e, 0, nullptr, 0);
  }
  errno = e;
  return r;
}

ssize_t do_send(int fd, const void* buf, size_t n, int flags, bool is_send) {
  Conn* c = conn_of(fd);
  if (!c) return is_send ? __real_send(fd, buf, n, flags) : __real_write(fd, buf, n);
  jitter();
  size_t k = limit_by_rules(c, 'w', c->woff, n, fd);
  k = seglen(wseg, warg, c->woff, k);
  const char* p = static_cast<const char*>(buf);
  char* copy = nullptr;
  for (int i = 0; i < nrules; i++)
    if (!rules[i].fired && rules[i].kind == 't' && rules[i].dir == 'w' &&
        rules[i].role == c->role && rules[i].off >= c->woff && rules[i].off < c->woff + k) {
      copy = static_cast<char*>(malloc(k));
      memcpy(copy, buf, k);
      tamper(c, 'w', c->woff, copy, k);
      p = copy;
      break;
    }
  uint64_t t0 = now();
  ssize_t r = __real_send(fd, p, k, flags);
  int e = errno;
  uint64_t t1 = now();
  if (r > 0) {
    logrec(EV_SEND, c->role, c->id, t0, t1, uint32_t(n), 0, p, r);
    c->woff += r;
  } else if (r < 0 && e != EAGAIN && e != EINTR) {
    logrec(EV_ERR, c->role, c->id, t0, t1, e, 1, nullptr, 0);
  }
  free(copy);
  errno = e;
  return r;
}

int peer_local(int fd, int* peer) {
  struct sockaddr_in a;
  socklen_t l = sizeof(a);
  memset(&a, 0, sizeof(a));
  int lp = 0;
  if (getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l) == 0) lp = ntohs(a.sin_port);
  l = sizeof(a);
  *peer = 0;
  if (getpeername(fd, reinterpret_cast<sockaddr*>(&a), &l) == 0) *peer = ntohs(a.sin_port);
  return lp;
}

int after_accept(int fd, uint64_t t0) {
  if (fd >= 0 && fd < MAXFD) {
    int peer, lp = peer_local(fd, &peer);
    char role = lp == back_port ? 'b' : lp == par_port ? 's' : '?';
    conns[fd] = Conn();
    conns[fd].used = true;
    conns[fd].role = role;
    conns[fd].id = next_conn++;
    logrec(EV_ACCEPT, role, conns[fd].id, t0, now(), lp, peer, nullptr, 0);
  }
  return fd;
}

}  // namespace

extern "C" {

// MSG_WAITALL promises the whole length unless the stream ends or fails first.
static ssize_t read_flags(int fd, void* b, size_t n, int f) {
  if (!(f & MSG_WAITALL) || (f & (MSG_PEEK | MSG_DONTWAIT))) return do_read(fd, b, n, f);
  size_t got = 0;
  while (got < n) {
    ssize_t r = do_read(fd, static_cast<char*>(b) + got, n - got, f);
    if (r < 0 && got == 0) return r;
    if (r <= 0) break;
    got += r;
  }
  return got;
}
// Vectored output goes out as one piece, as the kernel would send it.
static ssize_t send_vec(int fd, const struct iovec* v, size_t n, int f, bool is_send) {
  size_t total = 0, at = 0;
  for (size_t i = 0; i < n; i++) total += v[i].iov_len;
  char* all = static_cast<char*>(malloc(total ? total : 1));
  for (size_t i = 0; i < n; at += v[i].iov_len, i++)
    if (v[i].iov_len) memcpy(all + at, v[i].iov_base, v[i].iov_len);
  ssize_t r = do_send(fd, all, total, f, is_send);
  int e = errno;
  free(all);
  errno = e;
  return r;
}
static ssize_t recv_vec(int fd, const struct iovec* v, size_t n, int f) {
  ssize_t total = 0;
  for (size_t i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = read_flags(fd, v[i].iov_base, v[i].iov_len, f);
    if (r < 0) return total ? total : r;
    total += r;
    // Without MSG_WAITALL the first piece that arrived is a legal answer.
    if (size_t(r) < v[i].iov_len || !(f & MSG_WAITALL)) break;
  }
  return total;
}

ssize_t __wrap_read(int fd, void* b, size_t n) { return do_read(fd, b, n, 0); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { return read_flags(fd, b, n, f); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, struct sockaddr*, socklen_t*) {
  return read_flags(fd, b, n, f);
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { return recv_vec(fd, v, n, 0); }
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f) {
  m->msg_flags = 0;
  m->msg_controllen = 0;
  return recv_vec(fd, m->msg_iov, m->msg_iovlen, f);
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { return do_send(fd, b, n, f, true); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return do_send(fd, b, n, 0, false); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const struct sockaddr*, socklen_t) {
  return do_send(fd, b, n, f, true);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { return send_vec(fd, v, n, 0, false); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int f) {
  return send_vec(fd, m->msg_iov, m->msg_iovlen, f, true);
}

int __wrap_poll(struct pollfd* p, nfds_t n, int timeout) {
  poll_calls++;
  if (pollhide && timeout == 0 && xo(rngs) % 1000 < pollhide) {
    for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
    return 0;  // "nothing arrived yet" is always a legal answer of poll(0)
  }
  if (haste > 1 && timeout > 0) timeout = timeout > haste ? timeout / haste : 1;
  int r = __real_poll(p, n, timeout);
  if (r > 1 && pollhide) {
    // Legal too: the other descriptors became ready one instant later.
    nfds_t keep = xo(rngs) % r, seen = 0;
    int left = 0;
    for (nfds_t i = 0; i < n; i++) {
      if (!p[i].revents) continue;
      if (seen++ != keep && xo(rngs) % 2) p[i].revents = 0;
      else left++;
    }
    r = left;
  }
  return r;
}

int __wrap_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* m) {
  if (m) return __real_ppoll(p, n, t, m);
  int ms = -1;
  if (t) ms = t->tv_sec > 2000000 ? 2000000000 : int(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000);
  return __wrap_poll(p, n, ms);
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  struct timeval q;
  if (tv && haste > 1) {
    uint64_t us = (tv->tv_sec * 1000000ull + tv->tv_usec) / haste;
    q = {time_t(us / 1000000), suseconds_t(us % 1000000)};
    tv = &q;
  }
  return __real_select(n, r, w, x, tv);
}

int __wrap_connect(int fd, const struct sockaddr* sa, socklen_t l) {
  uint64_t t0 = now();
  int r = __real_connect(fd, sa, l);
  int e = errno;
  int port = 0;
  char ip[INET_ADDRSTRLEN] = "";
  if (sa->sa_family == AF_INET) {
    port = ntohs(reinterpret_cast<const sockaddr_in*>(sa)->sin_port);
    inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in*>(sa)->sin_addr, ip, sizeof(ip));
  }
  if (r == 0 && fd < MAXFD) {
    int peer, lp = peer_local(fd, &peer);
    if (lp == port) {
      // TCP self-connect artefact of retrying on an ephemeral port: cannot
      // happen, test ports are outside the ephemeral range.
    }
    conns[fd] = Conn();
    conns[fd].used = true;
    conns[fd].role = port == next_port ? 'n' : 's';
    conns[fd].id = next_conn++;
    logrec(EV_CONNECT, conns[fd].role, conns[fd].id, t0, now(), port, lp, ip, strlen(ip));
  } else if (r != 0 && e != EINPROGRESS) {
    static char last_ip[INET_ADDRSTRLEN];
    static int last_port = -1;
    if (port != last_port || strcmp(ip, last_ip)) {  // the first of a series of retries
      last_port = port;
      snprintf(last_ip, sizeof(last_ip), "%s", ip);
      logrec(EV_CONNFAIL, 0, 0, t0, now(), port, e, ip, strlen(ip));
    }
  }
  errno = e;
  return r;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) {
  uint64_t t0 = now();
  return after_accept(__real_accept(fd, a, l), t0);
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) {
  uint64_t t0 = now();
  return after_accept(__real_accept4(fd, a, l, f), t0);
}
int __wrap_listen(int fd, int n) {
  int r = __real_listen(fd, n);
  int peer, lp = peer_local(fd, &peer);
  logrec(EV_LISTEN, 'l', 0, now(), now(), lp, 0, nullptr, 0);
  return r;
}
int __wrap_setsockopt(int fd, int lvl, int name, const void* v, socklen_t l) {
  if (bufclamp && lvl == SOL_SOCKET && (name == SO_RCVBUF || name == SO_SNDBUF) && l == sizeof(int)) {
    int x = *static_cast<const int*>(v);
    if (x > bufclamp) x = bufclamp;
    return __real_setsockopt(fd, lvl, name, &x, sizeof(x));
  }
  if (haste > 1 && lvl == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && l == sizeof(struct timeval)) {
    const struct timeval* tv = static_cast<const struct timeval*>(v);
    uint64_t us = tv->tv_sec * 1000000ull + tv->tv_usec;
    if (us) {
      us = us / haste > 1000 ? us / haste : 1000;
      struct timeval x = {time_t(us / 1000000), suseconds_t(us % 1000000)};
      return __real_setsockopt(fd, lvl, name, &x, sizeof(x));
    }
  }
  return __real_setsockopt(fd, lvl, name, v, l);
}
// The program's clock (libstdc++ included).
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  int r = syscall(SYS_clock_gettime, c, ts);
  if (r == 0 && haste > 1 && c >= 0 && c < 16) {
    uint64_t t = uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
    if (!haste_t0[c]) haste_t0[c] = t;
    t = haste_t0[c] + (t - haste_t0[c]) * haste;
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
  }
  return r;
}
int __wrap_close(int fd) {
  if (Conn* c = conn_of(fd)) {
    logrec(EV_CLOSE, c->role, c->id, now(), now(), 0, 0, nullptr, 0);
    c->used = false;
  }
  return __real_close(fd);
}
unsigned __wrap_sleep(unsigned s) {
  msleep(sleep_set ? sleep_us : uint64_t(s) * 1000000);
  return 0;
}
int __wrap_usleep(useconds_t us) {
  msleep(sleep_set && us > sleep_us ? sleep_us : us);
  return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  uint64_t us = a->tv_sec * 1000000ull + a->tv_nsec / 1000;
  msleep(sleep_set && us > sleep_us ? sleep_us : us);
  if (b) *b = {0, 0};
  return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  if (f == 0) return __wrap_nanosleep(a, b);
  return syscall(SYS_clock_nanosleep, c, f, a, b);
}

}  // extern "C"
