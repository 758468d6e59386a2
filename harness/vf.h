/* Explorer side of a check: case enumeration, sharding, failure reporting and replay.
 *
 * A harness walks its whole bounded space in a fixed order; every point calls VF_CASE(...), which
 * numbers it and says whether this process (shard, or single-case replay) has to run it.
 */
#ifndef VF_H
#define VF_H
#include <malloc.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

static long vf_idx = -1, vf_only = -1, vf_start = 0;
static int vf_shard = 0, vf_nshard = 1, vf_thorough = 0, vf_fails = 0, vf_done = 0;
static long vf_evals = 0, vf_nontriv = 0, vf_trans = 0;
static char vf_desc[512] = "(start)";
static const char *vf_scratch = "/tmp";
static int vf_limit = 60;
static int vf_nsample = 0;
static char vf_pending[2][4096];

#define VF_NOUT 65536
static uint64_t vf_out[VF_NOUT];
static int vf_nout = 0;
/* distinct observed outcomes (capped open-addressing set), printed as a vacuity indicator */
static void vf_outcome(uint64_t h)
{
  if (h == 0)
    h = 1;
  if (vf_nout > VF_NOUT / 2)
    return;
  uint32_t i = (uint32_t)(h * 0x9E3779B97F4A7C15ull >> 40) % VF_NOUT;
  while (vf_out[i])
  {
    if (vf_out[i] == h)
      return;
    i = (i + 1) % VF_NOUT;
  }
  vf_out[i] = h;
  vf_nout++;
}
static uint64_t vf_hash(const void *p, size_t n, uint64_t h)
{
  const unsigned char *c = (const unsigned char *)p;
  if (!h)
    h = 1469598103934665603ull;
  while (n--)
    h = (h ^ *c++) * 1099511628211ull;
  return h;
}

static void vf_emit(const char *kind, const char *sig, const char *detail)
{
  char buf[8192];
  int n = snprintf(buf, sizeof(buf), "%s\t%ld\t%s\t%s\t%s\n", kind, vf_idx, sig, vf_desc, detail);
  if (n > (int)sizeof(buf))
    n = sizeof(buf);
  if (n > 0)
  {
    fflush(stdout);
    ssize_t r = write(1, buf, (size_t)n);
    (void)r;
  }
}
/* A violation at the current case.  sig identifies what failed, for the known-findings file. */
static void vf_fail(const char *sig, const char *fmt, ...)
{
  char d[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(d, sizeof(d), fmt, ap);
  va_end(ap);
  for (char *p = d; *p; p++)
    if (*p == '\n' || *p == '\t')
      *p = ' ';
  vf_emit("FAIL", sig, d);
  if (++vf_fails >= 40)
  {
    vf_emit("CAP", "too-many-failures", "stopped after 40 failures");
    vf_done = 1;
    _exit(0);
  }
}
static void vf_stats(void)
{
  printf("STAT\tevaluations\t%ld\nSTAT\tnontrivial\t%ld\nSTAT\ttransitions\t%ld\nSTAT\toutcomes\t%d\n",
         vf_evals, vf_nontriv, vf_trans, vf_nout);
  fflush(stdout);
}
static void vf_count(const char *key, long v) { printf("STAT\t%s\t%ld\n", key, v); }
static void vf_sample(const char *fmt, ...)
{
  if (vf_nsample >= 3)
    return;
  vf_nsample++;
  char d[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(d, sizeof(d), fmt, ap);
  va_end(ap);
  for (char *p = d; *p; p++)
    if (*p == '\n')
      *p = ' ';
  printf("SAMPLE\t%s\n", d);
}
static void vf_sig(int s)
{
  const char *n = s == SIGSEGV ? "SEGV" : s == SIGFPE ? "FPE" : s == SIGABRT ? "ABRT"
                : s == SIGBUS ? "BUS" : s == SIGALRM ? "HANG" : "SIG";
  char sig[64];
  snprintf(sig, sizeof(sig), "crash-%s", n);
  vf_emit(s == SIGALRM ? "HANG" : "CRASH", sig, "terminated");
  vf_done = 1;
  _exit(3);
}
static void vf_asan_death(void)
{
  vf_emit("CRASH", "asan", "sanitizer report");
  vf_done = 1;
}
static void vf_atexit(void)
{
  if (!vf_done)
    vf_emit("CRASH", "exit", "the code under test ended the process");
}
extern void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static void vf_arm(int sec)
{
  struct itimerval it = {{0, 0}, {sec, 0}};
  setitimer(ITIMER_REAL, &it, 0);
}
static void vf_init(int argc, char **argv)
{
  for (int i = 1; i < argc; i++)
  {
    if (!strcmp(argv[i], "--shard") && i + 1 < argc)
      sscanf(argv[++i], "%d/%d", &vf_shard, &vf_nshard);
    else if (!strcmp(argv[i], "--only") && i + 1 < argc)
      vf_only = atol(argv[++i]);
    else if (!strcmp(argv[i], "--start") && i + 1 < argc)
      vf_start = atol(argv[++i]);
    else if (!strcmp(argv[i], "--thorough"))
      vf_thorough = 1;
    else if (!strcmp(argv[i], "--limit") && i + 1 < argc)
      vf_limit = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--scratch") && i + 1 < argc)
      vf_scratch = argv[++i];
  }
  mallopt(M_MMAP_THRESHOLD, 1 << 30); /* keep the big blocks mapped between decoders */
  mallopt(M_TRIM_THRESHOLD, 2000000000);
  static char altstack[65536];
  stack_t ss = {.ss_sp = altstack, .ss_size = sizeof(altstack)};
  sigaltstack(&ss, 0);
  int sigs[] = {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM};
  for (unsigned i = 0; i < sizeof(sigs) / sizeof(sigs[0]); i++)
  {
    if (sigs[i] != SIGALRM && __asan_set_death_callback)
      continue;
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = vf_sig;
    sa.sa_flags = SA_ONSTACK;
    sigaction(sigs[i], &sa, 0);
  }
  if (__asan_set_death_callback)
    __asan_set_death_callback(vf_asan_death);
  atexit(vf_atexit);
}
static int vf_case(const char *fmt, ...)
{
  vf_idx++;
  if (vf_only >= 0)
  {
    if (vf_idx != vf_only)
      return 0;
  }
  else if (vf_idx % vf_nshard != vf_shard || vf_idx < vf_start)
    return 0;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(vf_desc, sizeof(vf_desc), fmt, ap);
  va_end(ap);
  vf_evals++;
  vf_arm(vf_limit);
  return 1;
}
static int vf_finish(void)
{
  vf_arm(0);
  vf_stats();
  printf("DONE\t%ld\n", vf_idx + 1);
  fflush(stdout);
  vf_done = 1;
  return 0;
}
#endif
