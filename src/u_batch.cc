// C02, C11, C17: the containers and socket helpers that hold and move a batch, used the way the
// protocol uses them, with sizes no deployment can reach (more than 4 GB, counts up to 2^32 - 1)
// and with the stream cut anywhere.
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "u_common.h"
#include "DPPIR/sockets/common.h"
#include "DPPIR/types/containers.h"
#include "DPPIR/types/types.h"
using namespace DPPIR;
using namespace u;

static long evals;
static void stamp(char* rec, size_t size, uint64_t id) {
  uint64_t a = id * 0x9e3779b97f4a7c15ull + 1, b = ~a;
  memcpy(rec, &a, 8);
  size_t t = std::min<size_t>(8, size - 8);
  memcpy(rec + size - t, &b, t);
}
static bool is(const char* rec, size_t size, uint64_t id) {
  uint64_t a = id * 0x9e3779b97f4a7c15ull + 1, b = ~a;
  size_t t = std::min<size_t>(8, size - 8);
  return !memcmp(rec, &a, 8) && !memcmp(rec + size - t, &b, t);
}

// One party's offline batch: own noise first, then the messages read, each shortened in place.
static void cipherbatch(size_t shrt, size_t lng, uint32_t noise, uint32_t input) {
  auto name = [&] { return F("batch of %u own and %u received messages of %zu/%zu bytes", noise, input, shrt, lng); };
  CipherBatch in(shrt, lng);
  in.Initialize(noise, input);
  std::unique_ptr<char[]> rec(new char[lng]);
  memset(rec.get(), 7, lng);
  for (uint32_t i = 0; i < noise; i++) { stamp(rec.get(), shrt, i); in.PushShort(rec.get()); }
  for (uint32_t i = 0; i < input; i++) { stamp(rec.get(), lng, uint64_t(1) << 33 | i); in.PushLong(rec.get()); }
  uint32_t n = 0;
  while (in.HasLong() && n < input) {
    const char* c = in.PopLong();
    if (!is(c, lng, uint64_t(1) << 33 | n)) { V("batch", name() + F(": message %u comes back changed", n)); return; }
    stamp(rec.get(), shrt, noise + n);
    in.PushShort(rec.get());
    n++;
  }
  if (n != input || in.HasLong()) V("batch", name() + ": another number of messages comes back");
  uint64_t k = 0, total = uint64_t(noise) + input;
  for (char* c : in) {
    if (k >= total) break;
    if (!is(c, shrt, k)) { V("batch", name() + F(": shortened message %llu is changed", (unsigned long long)k)); return; }
    k++;
  }
  if (k != total && total) V("batch", name() + F(": %llu messages after shortening", (unsigned long long)k));
  evals++;
}
// The shuffled batch: filled at given positions, sent in order.
static void filled(size_t shrt, uint32_t count) {
  auto name = [&] { return F("shuffled batch of %u messages of %zu bytes", count, shrt); };
  CipherBatch out(shrt, shrt + 124);
  out.Initialize(count, 0);
  std::unique_ptr<char[]> rec(new char[shrt]);
  memset(rec.get(), 9, shrt);
  for (uint32_t i = 0; i < count; i++) {
    uint32_t at = count - 1 - i;
    stamp(rec.get(), shrt, at);
    out.SetShort(at, rec.get());
  }
  uint64_t k = 0;
  for (char* c : out) {
    if (k >= count) break;
    if (!is(c, shrt, k)) { V("batch", name() + F(": message %llu is another one", (unsigned long long)k)); return; }
    k++;
  }
  if (k != count) V("batch", name() + F(": %llu messages are sent", (unsigned long long)k));
  out.Free();
  evals++;
}

// Records through a connection: written with one logical buffer, read with another; the reader
// believes that `more` records follow the ones that are sent.
template <typename MAKE_W, typename MAKE_R, typename PUSH, typename GET>
static void stream(const char* what, size_t unit, uint32_t n, uint64_t announced, MAKE_W mw, MAKE_R mr, PUSH push, GET get) {
  int a[2], b[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, a) || socketpair(AF_UNIX, SOCK_STREAM, 0, b)) return;
  uint64_t cutseed = h64();
  size_t want = size_t(n) * unit;
  // writer -> relay (cuts the stream anywhere) -> reader
  std::thread wt([&] {
    auto w = mw();
    std::vector<char> rec(unit, 3);
    for (uint32_t i = 0; i < n; i++) {
      stamp(rec.data(), unit, i);
      push(w, rec.data());
      if (w.Full()) { sockets::common::Send(a[0], &w); w.Clear(); }
    }
    sockets::common::Send(a[0], &w);
    w.Clear();
    shutdown(a[0], SHUT_WR);
  });
  size_t moved = 0;
  std::thread rt([&] {
    std::vector<char> buf(300000);
    uint64_t x = cutseed;
    for (;;) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      size_t k = (x >> 60) < 4 ? 1 + (x >> 40) % 40 : 1 + (x >> 33) % (x >> 63 ? 300000 : 5000);
      k = std::min(k, buf.size());
      ssize_t r = read(a[1], buf.data(), k);
      if (r <= 0) break;
      for (ssize_t o = 0; o < r;) { ssize_t s = write(b[0], buf.data() + o, r - o); if (s <= 0) return; o += s; }
      moved += r;
      if (moved > want + 1000000) break;
    }
    shutdown(b[0], SHUT_WR);
  });
  auto rbuf = mr();
  uint32_t got = 0;
  uint64_t left = announced;
  bool bad = false;
  size_t rounds = 0;
  while (got < n && !bad) {
    if (rounds++ > want + 1000) { V("stream", F("%s: nothing is read although records are there (%llu announced)", what, (unsigned long long)announced)); bad = true; break; }
    sockets::common::Read(b[1], uint32_t(left), &rbuf);
    size_t sz = rbuf.Size();
    for (size_t i = 0; i < sz; i++) {
      if (got >= n || !is(get(rbuf, i), unit, got)) { V("stream", F("%s: record %u of %u (%llu announced) is not the one sent", what, got, n, (unsigned long long)announced)); bad = true; break; }
      got++;
      left--;
    }
    rbuf.Clear();
  }
  shutdown(b[1], SHUT_RDWR);
  shutdown(b[0], SHUT_RDWR);
  if (bad) { shutdown(a[1], SHUT_RDWR); }
  wt.join();
  rt.join();
  if (!bad && moved != want) V("stream", F("%s: %zu bytes sent for %u records of %zu", what, moved, n, unit));
  for (int f : {a[0], a[1], b[0], b[1]}) close(f);
  evals++;
}
template <typename T>
static void typed(const char* what, uint32_t n, uint64_t announced) {
  auto wp = std::make_unique<PhysicalBuffer<140000>>();
  auto rp = std::make_unique<PhysicalBuffer<140000>>();
  stream(what, sizeof(T), n, announced, [&] { return LogicalBuffer<T>(wp.get()); }, [&] { return LogicalBuffer<T>(rp.get()); },
         [](LogicalBuffer<T>& w, const char* r) { T v; memcpy(reinterpret_cast<char*>(&v), r, sizeof(T)); w.PushBack(v); },
         [](LogicalBuffer<T>& b, size_t i) { return reinterpret_cast<const char*>(&b[i]); });
}
static void ciphers(size_t size, uint32_t n, uint64_t announced) {
  auto wp = std::make_unique<PhysicalBuffer<140000>>();
  auto rp = std::make_unique<PhysicalBuffer<140000>>();
  stream("messages", size, n, announced, [&] { return CipherLogicalBuffer(wp.get(), size); }, [&] { return CipherLogicalBuffer(rp.get(), size); },
         [](CipherLogicalBuffer& w, const char* r) { w.PushBack(r); }, [](CipherLogicalBuffer& b, size_t i) { return const_cast<const char*>(b[i]); });
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t sd = strtoull(argv[2], 0, 10); double scale = atof(argv[3]);
  init(sd);
  if (mode == "batch") {
    for (int i = 0; i < 300 * scale; i++) {
      size_t l = 124 * (2 + below(i % 9 ? 5 : 60));
      cipherbatch(l - 124, l, below(3) ? below(60) : 0, below(4) ? below(90) : 0);
      filled(l - 124, below(200));
    }
    cipherbatch(124, 248, 4000, 70000);
    filled(124, 100000);
  } else if (mode == "huge") {  // more than 4 GB in one batch
    size_t l = 124 * 255;
    uint32_t over = uint32_t((uint64_t(1) << 32) / l) + 40;
    cipherbatch(l - 124, l, 20 + below(20), over);
    filled(l, over);
    cipherbatch(l - 124, l, over, 3);
  } else {
    const uint64_t ann[] = {0, 1, 2, 1000, (uint64_t(1) << 31) - 1, uint64_t(1) << 31, (uint64_t(1) << 32) - 1};
    for (int i = 0; i < 120 * scale; i++) {
      uint32_t n = below(8) == 0 ? below(30000) : below(3000);
      auto more = [&](size_t unit) -> uint64_t {
        if (below(3) == 0) return n;
        if (below(3) == 0) {  // announced bytes just around a multiple of 4 GB
          uint64_t c = ((uint64_t(1) << 32) * (1 + below(3)) / unit) + below(3);
          return std::min<uint64_t>(std::max<uint64_t>(n, c), 0xffffffffull);
        }
        return std::min<uint64_t>(n + ann[below(7)], 0xffffffffull);
      };
      switch (i % 5) {
        case 0: typed<Query>("queries", n, more(sizeof(Query))); break;
        case 1: typed<Response>("replies", n, more(sizeof(Response))); break;
        case 2: typed<OfflineSecret>("secrets", n, more(sizeof(OfflineSecret))); break;
        default: {
          size_t sz = 124 * (1 + below(below(6) == 0 ? 255 : 6));
          n = std::min<uint32_t>(n, 20000000 / sz);
          ciphers(sz, n, more(sz));
        }
      }
    }
  }
  stats["batch_cases"] = evals;
  return finish();
}
