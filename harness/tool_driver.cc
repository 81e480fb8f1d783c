// Linked to each command-line tool (with -Wl,--wrap=main). With
// VERIF_TOOL_SERVER set, runs the tool once per request read from fd 0, each
// time in a forked process with limits; otherwise is the tool itself.
// Request: u32 length, then NUL-terminated strings: working directory, args.
// Answer: i32 wait status, u32 CPU milliseconds.
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

extern "C" int __real_main(int argc, char** argv);

static bool Get(void* p, size_t n) {
  char* c = (char*)p;
  while (n) { ssize_t k = read(0, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; }
  return true;
}

extern "C" int __wrap_main(int argc, char** argv) {
  if (!getenv("VERIF_TOOL_SERVER")) return __real_main(argc, argv);
  for (;;) {
    uint32_t len;
    if (!Get(&len, 4)) return 0;
    std::string q(len, '\0');
    if (!Get(&q[0], len)) return 0;
    pid_t pid = fork();
    if (pid == 0) {
      std::vector<char*> a;
      char* p = &q[0];
      char* end = p + len;
      char* dir = p;
      for (p += strlen(p) + 1; p < end; p += strlen(p) + 1) a.push_back(p);
      int n = (int)a.size();
      a.push_back(nullptr);
      if (chdir(dir)) _exit(120);
      struct rlimit cpu = {20, 25}, fsz = {1u << 30, 1u << 30}, core = {0, 0};
      setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_FSIZE, &fsz); setrlimit(RLIMIT_CORE, &core);
      alarm(120);
      int in = open("/dev/null", O_RDONLY), o = open(".stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(".stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if (in < 0 || o < 0 || e < 0) _exit(121);
      dup2(in, 0); dup2(o, 1); dup2(e, 2);
      for (int fd = 3; fd < 16; ++fd) close(fd);
      exit(__real_main(n, a.data()));
    }
    int st = -1;
    struct rusage ru;
    memset(&ru, 0, sizeof ru);
    if (pid < 0 || wait4(pid, &st, 0, &ru) != pid) return 3;
    uint32_t ans[2] = {(uint32_t)st, (uint32_t)(ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000 + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec / 1000)};
    if (write(1, ans, 8) != 8) return 3;
  }
}
