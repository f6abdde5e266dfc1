/* Common parts of the C harnesses: counting, failure lines, survival of crashes and hangs, guarded buffers. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <limits.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <ctype.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>

typedef unsigned char uc;
static long evals, nontriv, fails, group_fails, nsample;
static char const *group = "";
static sigjmp_buf crash_jb;
static volatile int in_try, crash_sig;

static void on_crash (int s)
{
  if (!in_try)
    {
      char b[64]; int n = snprintf (b, 64, "harness: signal %d\n", s);
      write (1, b, n);
      _exit (3);
    }
  crash_sig = s;
  siglongjmp (crash_jb, 1);
}
/* ticks: a case that sees several clock ticks without progress is a hang */
static volatile long tick_seen; static volatile int ticks;
static void on_tick (int s)
{
  if (tick_seen != evals) { tick_seen = evals; ticks = 0; }
  else if (++ticks >= 4 && in_try) { ticks = 0; crash_sig = SIGALRM; siglongjmp (crash_jb, 1); }
}
/* The kernel's break, on memory of its own: the Mes C Library must not share the one of the system's library. */
static uc *brk_base, *brk_cur; static long brk_calls, brk_refused, brk_limit = 1L << 26, brk_fail_at = -1;
long mes_brk (void *to)
{
  if (!brk_base) brk_base = brk_cur = mmap (0, 1L << 26, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!to) return (long) brk_cur;
  long k = brk_calls++;
  if (k == brk_fail_at || (uc *) to < brk_base || (uc *) to > brk_base + brk_limit) { brk_refused++; return (long) brk_cur; }
  if ((uc *) to < brk_cur) memset (to, 0, brk_cur - (uc *) to);
  return (long) (brk_cur = to);
}
/* The data of the library, which can be set back to how it was at the first call. */
extern char __start_mes_data[], __stop_mes_data[];
static void lib_back (void)
{
  static char *first; long n = __stop_mes_data - __start_mes_data;
  if (!brk_base) mes_brk (0);
  if (!first) memcpy (first = malloc (n), __start_mes_data, n);
  else memcpy (__start_mes_data, first, n);
  memset (brk_base, 0, brk_cur - brk_base); brk_cur = brk_base;
}
extern char **mes_environ;
extern int mes___stdin, mes___stdout, mes___stderr;
static void h_init (void)
{
  lib_back ();
  static char *none[1];
  mes_environ = none;
  mes___stdin = 0; mes___stdout = 1; mes___stderr = 2;
  struct sigaction sa;
  memset (&sa, 0, sizeof sa);
  sa.sa_handler = on_crash; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  static char stk[65536];
  stack_t ss; memset (&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk;
  sigaltstack (&ss, 0);
  sigaction (SIGSEGV, &sa, 0); sigaction (SIGBUS, &sa, 0); sigaction (SIGFPE, &sa, 0); sigaction (SIGILL, &sa, 0); sigaction (SIGABRT, &sa, 0);
  sa.sa_handler = on_tick; sa.sa_flags = SA_NODEFER | SA_RESTART;
  sigaction (SIGVTALRM, &sa, 0);
  struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 500000; it.it_value = it.it_interval;
  setitimer (ITIMER_VIRTUAL, &it, 0);
  setvbuf (stdout, 0, _IOFBF, 1 << 16);
}
#define TRY(stmt) ((in_try = 1, sigsetjmp (crash_jb, 0) == 0) ? ({ stmt; in_try = 0; 0; }) : (in_try = 0, crash_sig))

static void fail (char const *fmt, ...)
{
  fails++;
  if (group_fails++ >= 40) return;
  va_list ap; va_start (ap, fmt);
  printf ("FAIL %s: ", group); vprintf (fmt, ap); printf ("\n");
  va_end (ap);
}
static void begin (char const *g)
{
  group = g; group_fails = 0;
}
static void sample (char const *fmt, ...)
{
  if (nsample++ % 997 || nsample > 40000) return;
  va_list ap; va_start (ap, fmt);
  printf ("SAMPLE %s: ", group); vprintf (fmt, ap); printf ("\n");
  va_end (ap);
}
static int h_done (void)
{
  printf ("COUNT evaluations %ld nontrivial %ld\nDONE\n", evals, nontriv);
  fflush (stdout);
  return 0;
}
/* A printable form of N bytes; several may be alive at once. */
static char const *q (void const *s, long n)
{
  static char buf[16][1024]; static int k;
  char *b = buf[k++ % 16], *p = b;
  if (!s) return "NULL";
  *p++ = '"';
  for (long i = 0; i < n && p < b + 1000; i++)
    {
      int c = ((uc *) s)[i];
      if (c >= 32 && c < 127 && c != '"' && c != '\\' && c != '|') *p++ = c;
      else p += sprintf (p, "\\x%02x", c);
    }
  *p++ = '"'; *p = 0;
  return b;
}
static char const *qs (char const *s) { return q (s, s ? strlen (s) : 0); }

/* A region of PAGE bytes between two inaccessible pages. */
#define PAGE 4096
static uc *region (int pages)
{
  uc *p = mmap (0, (pages + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect (p + PAGE, pages * PAGE, PROT_READ | PROT_WRITE);
  return p + PAGE;
}
static int sgn (long x) { return x < 0 ? -1 : x > 0; }
/* Enumerates all arrays of length N over ALPHABET of size A: element number I into OUT. */
static long ipow (long a, int n) { long r = 1; while (n--) r *= a; return r; }
static void nth (long i, uc const *alphabet, int a, int n, uc *out)
{
  for (int k = 0; k < n; k++) { out[k] = alphabet[i % a]; i /= a; }
}
