// Stand-in for the commands the experiment scripts call (curl, bazel, sleep, ps,
// pkill, ...): hands its name and arguments to the harness over a unix socket
// and does what the harness replies: 'O' write to stdout, 'E' write to stderr,
// 'X' exit, 'R' become another program.  Every frame is acknowledged.
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <string>
#include <vector>

static bool get(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) { ssize_t r = read(fd, c, n); if (r <= 0) return false; c += r; n -= r; }
  return true;
}
static bool put(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) { ssize_t r = write(fd, c, n); if (r <= 0) return false; c += r; n -= r; }
  return true;
}
int main(int argc, char** argv) {
  const char* path = getenv("VTOOL_SOCK");
  if (!path) return 120;
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a{};
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, path, sizeof a.sun_path - 1);
  if (connect(fd, (sockaddr*)&a, sizeof a)) return 121;
  char cwd[4096] = "";
  if (!getcwd(cwd, sizeof cwd)) return 122;
  const char* b = strrchr(argv[0], '/');
  std::string m = std::string(b ? b + 1 : argv[0]) + '\0' + cwd + '\0' + std::to_string(getpid()) + '\0' + std::to_string(getppid()) + '\0';
  for (int i = 1; i < argc; i++) m += std::string(argv[i]) + '\0';
  uint32_t n = m.size();
  if (!put(fd, &n, 4) || !put(fd, m.data(), n)) return 123;
  for (;;) {
    char t;
    uint32_t l;
    if (!get(fd, &t, 1) || !get(fd, &l, 4)) return 124;
    std::string d(l, 0);
    if (!get(fd, &d[0], l)) return 124;
    if (t == 'O') put(1, d.data(), l);
    if (t == 'E') put(2, d.data(), l);
    if (t == 'X') return atoi(d.c_str());
    if (t == 'R') {
      std::vector<char*> v;
      for (size_t i = 0; i < d.size(); i += strlen(&d[i]) + 1) v.push_back(&d[i]);
      v.push_back(nullptr);
      execv(v[0], v.data());
      return 125;
    }
    char k = 'A';
    if (!put(fd, &k, 1)) return 124;
  }
}
