/* Takes over the collection points of Mes (linked with --wrap=gc_check --wrap=gc_stats).
   Between the first and the second call of (gc-stats), MESMC_GC decides what happens at each:
   eN      collect at every N-th; eN,P with phase P
   sN      collect at the N-th only
   fD      explore: at each point, fork a child that collects there and goes on; up to D collections in one run
   n       never
   MESMC_REF is the file with the output every child must produce. */
#include "mes/lib.h"
#include "mes/mes.h"
static long sc (long n, long a, long b, long c, long d)
{
  long r; register long r10 asm ("r10") = d;
  asm volatile ("syscall" : "=a" (r) : "a" (n), "D" (a), "S" (b), "d" (c), "r" (r10) : "rcx", "r11", "memory");
  return r;
}
static int started, mode, depth, out_fd, lim_on; static long every, phase, points, schedules, bad, from, stride, collections;
static int rfd = 2;
static char ref[65536]; static long ref_n; static char const *path = "";
extern struct scm *__real_gc_check (void), *__real_gc_stats (void);
static void say (char const *s) { long n = 0; while (s[n]) n++; sc (1, rfd, (long) s, n, 0); }
static void num (long v) { char b[24]; int i = 23; b[i] = 0; if (!v) b[--i] = '0'; while (v) { b[--i] = '0' + v % 10; v /= 10; } say (b + i); }
static char *env (char const *n) { extern char **environ; for (char **e = environ; *e; e++) { long i = 0; while (n[i] && (*e)[i] == n[i]) i++; if (!n[i] && (*e)[i] == '=') return *e + i + 1; } return 0; }
static long atol_ (char const **s) { long v = 0; while (**s >= '0' && **s <= '9') v = v * 10 + *(*s)++ - '0'; return v; }
/* ---- the heap as seen from the roots: a sequence that does not depend on addresses ---- */
#define TAB (1 << 19)
static struct { struct scm *p; unsigned id, gen; } tab[TAB];
static struct scm *todo[TAB]; static unsigned gen, ids; static unsigned long hsum; static long seen_cells;
static void mix (unsigned long v) { hsum = (hsum ^ v) * 0x9e3779b97f4a7c15UL; hsum ^= hsum >> 29; }
static long ntodo;
static void edge (struct scm *p)
{
  unsigned long h = (unsigned long) p * 0x9e3779b97f4a7c15UL >> 45;
  while (tab[h].gen == gen && tab[h].p != p) h = (h + 1) & (TAB - 1);
  if (tab[h].gen == gen) { mix (tab[h].id); return; }
  tab[h].gen = gen; tab[h].p = p; tab[h].id = ++ids; mix (ids);
  if (ids > TAB * 3 / 4) { say ("GC heap too large for the comparison\n"); sc (231, 9, 0, 0, 0); }
  todo[ntodo++] = p;
}
static void fields (struct scm *x)
{
  long t = x->type; mix (t); seen_cells++;
  if (t == TMACRO || t == TPAIR || t == TREF || t == TVARIABLE) edge (x->car); else mix (x->car_value);
  if (t == TBYTES) { char *b = (char *) x + 2 * sizeof (long); for (long i = 0; i < x->length; i++) mix (b[i]); }
  else if (t == TVECTOR || t == TSTRUCT) { for (long i = 0; i < x->length; i++) fields (x->vector + i); }
  else if (t == TCLOSURE || t == TCONTINUATION || t == TKEYWORD || t == TMACRO || t == TPAIR || t == TPORT || t == TSPECIAL || t == TSTRING || t == TSYMBOL || t == TVALUES) edge (x->cdr);
  else if (t == TCHAR || t == TNUMBER || t == TREF || t == TVARIABLE) mix (t == TREF || t == TVARIABLE ? 0 : x->value);
  else { say ("GC unknown type "); num (t); say ("\n"); sc (231, 9, 0, 0, 0); }
}
static unsigned long heap (void)
{
  gen++; ids = ntodo = 0; hsum = seen_cells = 0;
  for (struct scm *s = cell_nil; s < g_symbol_max; s++) edge (s);
  edge (g_symbols); edge (g_macros); edge (g_ports); edge (M0); edge (R0); edge (R1); edge (R2); edge (R3);
  for (long i = g_stack; i < STACK_SIZE; i++) edge (g_stack_array[i]);
  while (ntodo) fields (todo[--ntodo]);
  return hsum;
}
static int compare; static long compared, differing;
static void collect (void)
{
  unsigned long h0 = 0; if (compare) h0 = heap ();
  struct scm *before = g_free;
  long cells_before = before - g_cells;
  gc ();
  collections++;
  if (compare) { compared++; if (heap () != h0) { if (differing++ < 2) { say ("GC BAD at point "); num (points); say (" status 0 output the data reachable after it differs from before\n"); } bad++; } }
  /* nothing may be read any more from where the data was, or was copied to */
  char *p = (char *) g_free, *q = (char *) (before + (g_free - g_cells) + 2);
  while (p < q) *p++ = 0x5b;
}
static long trail[4]; static int ntrail; static long base;
static void explore (void)
{
  schedules++;
  /* what this process has written so far is where the child goes on */
  long pos = sc (8, 1, 0, 1, 0); if (pos < 0) { say ("GC standard output must be a file\n"); sc (231, 9, 0, 0, 0); }
  pos += base;
  int fd = sc (2, (long) (depth == 1 ? "gc.out.1" : depth == 2 ? "gc.out.2" : "gc.out.3"), 0x242, 0600, 0);
  /* the child shares the offsets of open files */
  static long off[48]; for (int i = 3; i < 48; i++) off[i] = i == fd ? -1 : sc (8, i, 0, 1, 0);
  long pid = sc (57, 0, 0, 0, 0);
  if (pid == 0)
    {
      /* the limit: ten seconds of processor time */
      long lim[2] = { 10, 10 }; sc (160, 0, (long) lim, 0, 0); long core[2] = { 0, 0 }; sc (160, 4, (long) core, 0, 0);
      sc (33, fd, 1, 0, 0); if (!ntrail) { sc (33, 2, 99, 0, 0); rfd = 99; int nul = sc (2, (long) "/dev/null", 1, 0, 0); sc (33, nul, 2, 0, 0); sc (3, nul, 0, 0, 0); } sc (3, fd, 0, 0, 0);
      trail[ntrail++] = points; base = pos;
      depth--; if (!depth) mode = 'n'; schedules = bad = 0;
      collect ();
      return;
    }
  int st = 0; sc (61, pid, (long) &st, 0, 0);
  for (int i = 3; i < 48; i++) if (off[i] >= 0) sc (8, i, off[i], 0, 0);
  static char buf[65536]; long n, k = 0; sc (8, fd, 0, 0, 0);
  while (k < 65536 && (n = sc (0, fd, (long) buf + k, 65536 - k, 0)) > 0) k += n;
  sc (3, fd, 0, 0, 0);
  char *o = buf;
  int same = k + pos == ref_n; for (long i = 0; same && i < k; i++) same = o[i] == ref[pos + i];
  if (st || !same)
    {
      if (bad++ < 4) { say ("GC BAD at point "); num (points); if (ntrail) { say (" after "); num (trail[0]); } say (" status "); num (st); say (" output "); for (long i = 0; i < k; i++) if (o[i] == '\n') o[i] = '~'; sc (1, rfd, (long) o, k < 300 ? k : 300, 0); say ("\n"); }
    }
}
struct scm *__wrap_gc_stats ()
{
  if (!started)
    {
      started = 1; char const *m = env ("MESMC_GC"); mode = m ? *m : 'n';
      if (m && mode == 'e') { m++; every = atol_ (&m); if (*m == ',') { m++; phase = atol_ (&m); } }
      if (m && mode == 's') { m++; every = atol_ (&m); }
      if (m && mode == 'f') { m++; depth = atol_ (&m); stride = 1; if (*m == ',') { m++; from = atol_ (&m); m++; stride = atol_ (&m); } }
      compare = env ("MESMC_COMPARE") != 0;
      collect (); collections = 0;
      char *f = env ("MESMC_REF"); if (f) { int fd = sc (2, (long) f, 0, 0, 0); if (fd >= 0) { ref_n = sc (0, fd, (long) ref, 65536, 0); sc (3, fd, 0, 0, 0); } }
    }
  else if (started == 1)
    {
      started = 2; mode = 0;
      if (!ntrail || schedules) { say (ntrail ? "GC sub " : "GC points "); num (points); say (" schedules "); num (schedules); say (" bad "); num (bad); say (" collections "); num (collections); say ("\n"); }
    }
  return __real_gc_stats ();
}
struct scm *__wrap_gc_check ()
{
  if (started != 1) return __real_gc_check ();
  points++;
  if (mode == 'e' && points % every == phase % every) collect ();
  else if (mode == 's' && points == every) collect ();
  else if (mode == 'f' && (ntrail || points % stride == from)) explore ();
  return cell_unspecified;
}
