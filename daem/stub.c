// Stands for every command through which a daemon touches the world (curl, sleep, bazel, ps, kill ...): tells the
// simulator what was called and does what the simulator says. See ../DESIGN.md.
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static int s;
static void put(const void* p, size_t n) {
  const char* c = p;
  while (n) { ssize_t k = write(s, c, n); if (k <= 0) _exit(99); c += k; n -= k; }
}
static void get(void* p, size_t n) {
  char* c = p;
  while (n) { ssize_t k = read(s, c, n); if (k <= 0) _exit(99); c += k; n -= k; }
}
static void field(const char* p, uint32_t n) { put(&n, 4); put(p, n); }
static void all(int fd, const char* p, size_t n) {
  while (n) { ssize_t k = write(fd, p, n); if (k <= 0) return; p += k; n -= k; }
}

int main(int argc, char** argv) {
  const char* path = getenv("DSIM_SOCK");
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  char cwd[4096];
  int i, in = 0;
  if (!path || !getcwd(cwd, sizeof cwd)) return 99;
  strncpy(a.sun_path, path, sizeof a.sun_path - 1);
  s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (connect(s, (struct sockaddr*)&a, sizeof a)) return 99;
  uint32_t h[3] = {(uint32_t)getpid(), (uint32_t)getppid(), (uint32_t)argc};
  put(h, sizeof h);
  field(cwd, strlen(cwd));
  for (i = 0; i < argc; i++) {
    field(argv[i], strlen(argv[i]));
    if (!strcmp(argv[i], "-") || !strcmp(argv[i], "@-")) in = 1;
  }
  char* b = 0; size_t n = 0, c = 0;
  while (in) {
    if (n == c) b = realloc(b, c = c * 2 + 65536);
    ssize_t k = read(0, b + n, c - n);
    if (k <= 0) break;
    n += k;
  }
  field(b ? b : "", n);
  for (;;) {
    char op; uint32_t l;
    get(&op, 1); get(&l, 4);
    char* d = malloc(l + 1);
    get(d, l); d[l] = 0;
    if (op == 'X') return (unsigned char)d[0];
    if (op == 'O') { all(1, d, l); put("a", 1); }
    if (op == 'E') { all(2, d, l); put("a", 1); }
    if (op == 'W') {
      int fd = open(d, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { all(fd, d + strlen(d) + 1, l - strlen(d) - 1); close(fd); }
      put("a", 1);
    }
    free(d);
  }
}
