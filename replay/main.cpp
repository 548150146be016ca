#include "common.h"
#include <csignal>
#include <ctime>
#include <cstring>
struct T { const char *id; void (*f)(Rng &); };
extern const T trials[];
extern std::string g_tool;

static void on_signal(int s) {
  char b[200];
  int n = snprintf(b, sizeof b, "FAIL %s (signal %d) in trial %ld\nINPUT ", s == SIGALRM ? "no answer within the time limit" : "crash", s, g_trial);
  if (write(1, b, n) < 0) {}
  if (write(1, g_ctx.c_str(), g_ctx.size()) < 0) {}
  if (write(1, "\n", 1) < 0) {}
  _exit(3);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// replay ID SEED SECONDS SCRATCH [TOOL] [TRIAL]
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  std::string id = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  double limit = atof(argv[3]);
  g_scratch = argv[4];
  if (argc > 5) g_tool = argv[5];
  long only = argc > 6 ? atol(argv[6]) : -1;
  static char stack[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
  std::set_terminate([] { abort(); });
  for (const T *t = trials; t->id; ++t) {
    if (id != t->id || !t->f) continue;
    double start = now();
    for (g_trial = only >= 0 ? only : 0;; ++g_trial) {
      Rng r(seed * 1000003ULL + (uint64_t)g_trial * 7919ULL + 17);
      g_ctx.clear();
      alarm(60);
      t->f(r);
      if (only >= 0 || now() - start > limit) break;
    }
    alarm(0);
    if (only >= 0) printf("OK trial %ld passes\n", g_trial);
    else printf("OK %ld trials\n", g_trial + 1);
    return 0;
  }
  printf("no such property\n");
  return 2;
}
