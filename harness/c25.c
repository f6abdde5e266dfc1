#include "h.h"
static int deep;
extern void *mes_malloc (size_t), *mes_calloc (size_t, size_t), *mes_realloc (void *, size_t); extern void mes_free (void *);
extern char *mes_strdup (char const *), *mes_itoa (int);
extern int mes_errno;
#define MAXB 12
static struct { uc *p; long n; uc pat; } B[MAXB]; static int nb; static uc patc;
static char trace[400];
static long const S[] = { 1, 8, 24, 0, 33, 100000 };
#define NS 6
static void paint (int k) { memset (B[k].p, B[k].pat, B[k].n); }
static int check (char const *op)
{
  for (int i = 0; i < nb; i++)
    {
      if ((long) B[i].p % 8) { fail ("%s || block %d is at %p, not aligned", trace, i, B[i].p - (uc *) 0 + 0L); return 0; }
      if (B[i].n && (B[i].p < brk_base || B[i].p + B[i].n > brk_cur)) { fail ("%s || block %d is outside the memory the system granted", trace, i); return 0; }
      for (int j = 0; j < i; j++)
        if (B[i].n && B[j].n && B[i].p < B[j].p + B[j].n && B[j].p < B[i].p + B[i].n) { fail ("%s || blocks %d and %d overlap", trace, j, i); return 0; }
      for (long k = 0; k < B[i].n; k++) if (B[i].p[k] != B[i].pat) { fail ("%s || byte %ld of block %d changed", trace, k, i); return 0; }
    }
  return 1;
}
static void *(*lastp);
static int granted (void *p, long n, int may_fail, char const *op)
{
  if (!p)
    {
      if (!may_fail) { fail ("%s || NULL though the system has memory", trace); return 0; }
      if (mes_errno != ENOMEM) { fail ("%s || NULL, but errno is %d, not ENOMEM", trace, mes_errno); return 0; }
      return check (op);
    }
  if (may_fail == 2) { fail ("%s || %p, though the system refused", trace, p); return 0; }
  return 1;
}
/* One operation: OP over kinds times sizes; returns 0 to stop this sequence. */
static int step (int op)
{
  int cr; void *p = 0; long n; char *t = trace + strlen (trace);
  long k, refused0 = brk_refused;
  mes_errno = 0;
  if (op < NS)
    {
      n = S[op]; sprintf (t, " malloc %ld", n);
      if ((cr = TRY (p = mes_malloc (n)))) { fail ("%s || signal %d", trace, cr); return 0; }
      if (!granted (p, n, brk_refused != refused0, "malloc")) return 0;
      if (!p) return 1;
      B[nb].p = p; B[nb].n = n; B[nb].pat = ++patc; paint (nb++);
    }
  else if (op < 2 * NS)
    {
      n = S[op - NS]; long a = n % 3 ? 1 : 3, b = n / a; n = a * b; sprintf (t, " calloc %ld*%ld", a, b);
      if ((cr = TRY (p = mes_calloc (a, b)))) { fail ("%s || signal %d", trace, cr); return 0; }
      if (!granted (p, n, brk_refused != refused0, "calloc")) return 0;
      if (!p) return 1;
      for (k = 0; k < n; k++) if (((uc *) p)[k]) { fail ("%s || byte %ld is not zero", trace, k); return 0; }
      B[nb].p = p; B[nb].n = n; B[nb].pat = ++patc; paint (nb++);
    }
  else if (op < 2 * NS + 10)
    {
      static long const RS[] = { 1, 40, 8, 5000, 24 };
      int w = (op - 2 * NS) / 5; n = RS[(op - 2 * NS) % 5];
      if (nb <= w) return 0;
      w = w ? 0 : nb - 1;
      sprintf (t, " realloc #%d %ld", w, n);
      if ((cr = TRY (p = mes_realloc (B[w].p, n)))) { fail ("%s || signal %d", trace, cr); return 0; }
      if (!granted (p, n, brk_refused != refused0, "realloc")) return 0;
      if (!p) return 1;
      long m = n < B[w].n ? n : B[w].n;
      for (k = 0; k < m; k++) if (((uc *) p)[k] != B[w].pat) { fail ("%s || byte %ld of the common part is lost", trace, k); return 0; }
      B[w].p = p; B[w].n = n; paint (w);
    }
  else if (op == 2 * NS + 10 || op == 2 * NS + 11)
    {
      int w = op == 2 * NS + 10 ? nb - 1 : 0;
      if (!nb) return 0;
      sprintf (t, " free #%d", w);
      if ((cr = TRY (mes_free (B[w].p)))) { fail ("%s || signal %d", trace, cr); return 0; }
      memmove (B + w, B + w + 1, (nb - w - 1) * sizeof *B); nb--;
    }
  else if (op == 2 * NS + 12)
    {
      sprintf (t, " realloc NULL 24");
      if ((cr = TRY (p = mes_realloc (0, 24)))) { fail ("%s || signal %d", trace, cr); return 0; }
      if (!granted (p, 24, brk_refused != refused0, "realloc")) return 0;
      if (!p) return 1;
      B[nb].p = p; B[nb].n = 24; B[nb].pat = ++patc; paint (nb++);
    }
  else if (op == 2 * NS + 13)
    {
      sprintf (t, " strdup");
      if ((cr = TRY (p = mes_strdup ("\1\1\1\1\1")))) { fail ("%s || signal %d", trace, cr); return 0; }
      if (!granted (p, 6, brk_refused != refused0, "strdup")) return 0;
      if (!p) return 1;
      if (strcmp (p, "\1\1\1\1\1")) { fail ("%s || wrong copy", trace); return 0; }
      B[nb].p = p; B[nb].n = 6; B[nb].pat = ++patc; paint (nb++);
    }
  else
    {
      /* more than any system has: refused, and nothing changes */
      static long const H[] = { 1L << 40, LONG_MAX, -1L, -4096L, -64L, 1L << 63 };
      n = H[op - 2 * NS - 14]; sprintf (t, " malloc %lx", n);
      if ((cr = TRY (p = mes_malloc (n)))) { fail ("%s || signal %d", trace, cr); return 0; }
      if (!granted (p, n, 2, "malloc")) return 0;
      if ((cr = TRY (p = mes_calloc (n, 1)))) { fail ("%s calloc || signal %d", trace, cr); return 0; }
      if (!granted (p, n, 2, "calloc")) return 0;
      mes_errno = 0;
      if ((cr = TRY (p = mes_calloc (1L << 33, (1L << 31) + 1)))) { fail ("%s calloc of a product that wraps || signal %d", trace, cr); return 0; }
      if (!granted (p, n, 2, "calloc")) return 0;
      if (nb)
        {
          mes_errno = 0;
          if ((cr = TRY (p = mes_realloc (B[nb - 1].p, n)))) { fail ("%s realloc || signal %d", trace, cr); return 0; }
          if (!granted (p, n, 2, "realloc")) return 0;
        }
    }
  return check ("");
}
#define NOPS (2 * NS + 14 + 6)
static void reset (long start)
{
  lib_back (); brk_cur = brk_base + start; brk_calls = 0; nb = 0; patc = 0; strcpy (trace, "");
}
int main (int argc, char **argv)
{
  h_init ();
  deep = argc > 2;
  int part = atoi (argv[1]), parts = 16, L = deep ? 4 : 3;
  begin ("allocation");
  /* all sequences; with no failure, and with a failure of each of the first system calls */
  for (int n = 1; n <= L; n++) for (long i = part; i < ipow (NOPS, n); i += parts)
    for (int f = -1; f < n; f++)
      {
        static long const START[] = { 0, 8, 1 };
        reset (START[i % 3]); brk_fail_at = f; long j = i;
        evals++; nontriv++;
        if (f >= 0) sprintf (trace, "[request %d refused]", f);
        for (int k = 0; k < n; k++, j /= NOPS) if (!step (j % NOPS)) break;
        sample ("%s", trace);
      }
  return h_done ();
}
