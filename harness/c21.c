#include "h.h"
static int deep;
extern int mes_isalnum (int), mes_isalpha (int), mes_isascii (int), mes_iscntrl (int), mes_isdigit (int), mes_isgraph (int), mes_islower (int),
  mes_isprint (int), mes_ispunct (int), mes_isspace (int), mes_isupper (int), mes_isxdigit (int), mes_tolower (int), mes_toupper (int), mes_isnumber (int, int);
extern int mes_atoi (char const *); extern int mes_atol (char const *); extern int mes_abs (int);
extern long mes_strtol (char const *, char **, int); extern unsigned long mes_strtoul (char const *, char **, int);
extern long long mes_strtoll (char const *, char **, int); extern unsigned long long mes_strtoull (char const *, char **, int);
extern char *mes_itoa (int), *mes_ltoa (long), *mes_utoa (unsigned), *mes_ultoa (unsigned long), *mes_ltoab (long, int), *mes_ntoab (long, unsigned, int);
extern long mes_abtol (char const **, int);
extern long long mes___divdi3 (long long, long long), mes___moddi3 (long long, long long), mes___ashldi3 (long long, long), mes___ashrdi3 (long long, long);
extern unsigned long long mes___udivdi3 (unsigned long long, unsigned long long), mes___umoddi3 (unsigned long long, unsigned long long), mes___lshrdi3 (unsigned long long, long);
extern long dv___mesabi_imod (long, long), dv___mesabi_idiv (long, long);
extern unsigned long dv___mesabi_umod (unsigned long, unsigned long), dv___mesabi_udiv (unsigned long, unsigned long), dv___mesabi_uldiv (unsigned long, unsigned long, unsigned long *);
static int div0;
int mes___raise_div (int s) { div0++; return 0; }

static uc *R1;
static void classes (void)
{
  begin ("character classes");
#define CL(f) { int g = 0, w = c >= 0 && c < 128 ? !!f (c) : 0, cr; evals++; nontriv += w; \
    if ((cr = TRY (g = mes_##f (c))) || !g != !w) fail (#f " (%d) || %d, expected %s, signal %d", c, g, w ? "nonzero" : "0", cr); }
#define TO(f) { int g = 0, w = c >= 0 && c < 128 ? f (c) : c, cr; evals++; nontriv += w != c; \
    if ((cr = TRY (g = mes_##f (c))) || g != w) fail (#f " (%d) || %d, expected %d, signal %d", c, g, w, cr); }
  for (int c = -300; c < 700; c++)
    { CL (isalnum) CL (isalpha) CL (isascii) CL (iscntrl) CL (isdigit) CL (isgraph) CL (islower) CL (isprint) CL (ispunct) CL (isspace) CL (isupper) CL (isxdigit)
      TO (tolower) TO (toupper)
      static int const B[] = { 2, 8, 10, 16 };
      for (int k = 0; k < 4; k++)
        {
          int w = c >= 0 && c < 128 && (isdigit (c) ? c - '0' < B[k] : B[k] == 16 && isxdigit (c)), g = 0, cr; evals++;
          if ((cr = TRY (g = mes_isnumber (c, B[k]))) || !g != !w) fail ("isnumber (%d, %d) || %d, expected %s", c, B[k], g, w ? "nonzero" : "0");
        }
    }
  static int const V[] = { 0, 1, -1, 2, -2, 100, -100, INT_MAX, -INT_MAX, 65536, -65536, 255, -256 };
  for (int k = 0; k < sizeof V / sizeof *V; k++) { evals++; if (mes_abs (V[k]) != abs (V[k])) fail ("abs (%d) || %d", V[k], mes_abs (V[k])); }
}
static void parse_one (char *s, int n, int base)
{
  char *e = 0, *f = 0; int cr, over;
  errno = 0; long w = strtol (s, &e, base); over = errno == ERANGE;
  long g = 0;
  evals += 4; nontriv += e != s;
  if ((cr = TRY (g = mes_strtol (s, &f, base))) || (!over && g != w) || f != e) fail ("strtol (%s, %d) || %ld end %ld, expected %ld end %ld, signal %d", q (s, n), base, g, (long) (f - s), w, (long) (e - s), cr);
  if (!over && e != s) sample ("strtol (%s, %d) = %ld end %ld", q (s, n), base, w, (long) (e - s));
  g = 0;
  if ((cr = TRY (g = mes_strtol (s, 0, base))) || (!over && g != w)) fail ("strtol without end (%s, %d) || %ld, expected %ld, signal %d", q (s, n), base, g, w, cr);
  g = 0; f = 0;
  if ((cr = TRY (g = mes_strtoll (s, &f, base))) || (!over && g != w) || f != e) fail ("strtoll (%s, %d) || %ld end %ld, expected %ld end %ld, signal %d", q (s, n), base, g, (long) (f - s), w, (long) (e - s), cr);
  errno = 0; unsigned long uw = strtoul (s, &e, base), ug = 0; over = errno == ERANGE;
  f = 0;
  if ((cr = TRY (ug = mes_strtoul (s, &f, base))) || (!over && ug != uw) || f != e) fail ("strtoul (%s, %d) || %lu end %ld, expected %lu end %ld, signal %d", q (s, n), base, ug, (long) (f - s), uw, (long) (e - s), cr);
  f = 0;
  if ((cr = TRY (ug = mes_strtoull (s, &f, base))) || (!over && ug != uw) || f != e) fail ("strtoull (%s, %d) || %lu end %ld, expected %lu end %ld, signal %d", q (s, n), base, ug, (long) (f - s), uw, (long) (e - s), cr);
  if (base == 10)
    {
      errno = 0; w = strtol (s, &e, 10); int gi = 0;
      if (w == (int) w && !errno)
        {
          if ((cr = TRY (gi = mes_atoi (s))) || gi != (int) w) fail ("atoi (%s) || %d, expected %ld, signal %d", q (s, n), gi, w, cr);
          if ((cr = TRY (gi = mes_atol (s))) || gi != (int) w) fail ("atol (%s) || %d, expected %ld, signal %d", q (s, n), gi, w, cr);
        }
      evals += 2;
    }
}
static void parse (int part, int parts)
{
  begin ("parsing");
  static uc const Z[] = { '0', '1', '7', '9', 'a', 'F', 'x', 'X', '-', '+', ' ', 'z', 'g', '\n', 0x80, '8' };
  static int const B[] = { 10, 16, 0, 8, 2, 36, 35, 3 };
  uc x[32]; int A = sizeof Z, L = deep ? 6 : 5;
  for (int n = 0; n <= L; n++) for (long i = part; i < ipow (n == 6 ? 12 : A, n); i += parts)
    {
      nth (i, Z, n == 6 ? 12 : A, n, x); x[n] = 0;
      char *s = (char *) R1 + PAGE - n - 1; memcpy (s, x, n + 1);
      for (int b = 0; b < (n >= 5 ? 3 : 8); b++) parse_one (s, n, B[b]);
    }
}
static unsigned long const EDGE[] = { 0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 35, 36, 37, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 1001, 32767, 32768, 65535, 65536, 99999, 100000,
  0x7ffffffe, 0x7fffffff, 0x80000000ul, 0x80000001ul, 0xfffffffful, 0x100000000ul, 0x100000001ul, 999999999, 1000000000, 9999999999ul, 10000000000ul,
  0x7ffffffffffffffeul, 0x7ffffffffffffffful, 0x8000000000000000ul, 0x8000000000000001ul, 0xfffffffffffffffeul, 0xfffffffffffffffful, 0xffffffff7ffffffful, 0xffffffff80000000ul, 0xffffffff80000001ul,
  0x5555555555555555ul, 0xaaaaaaaaaaaaaaaaul, 1000000000000000000ul, 9223372036854775799ul, 0x123456789abcdeful, -2ul, -3ul, -7ul, -10ul, -16ul, -100ul, -1000000000ul, -4294967296ul };
#define NE (sizeof EDGE / sizeof *EDGE)
static void numeral (unsigned long v, int neg, int base, int upper, char *out)
{
  char b[80]; int n = 0;
  do { int d = v % base; b[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v);
  if (neg) *out++ = '-';
  while (n) *out++ = b[--n];
  *out = 0;
}
static void print (void)
{
  begin ("printing");
  char w[80]; char *g = 0; int cr;
#define PR(f, arg, fmt, neg, mag) { evals++; nontriv++; g = 0; numeral (mag, neg, 10, 0, w); if ((cr = TRY (g = mes_##f (arg))) || !g || strcmp (g, w)) fail (#f " (" fmt ") || %s, expected %s, signal %d", arg, cr ? "" : g, w, cr); }
  long n = NE + 3000;
  for (long k = 0; k < n; k++)
    {
      unsigned long v = k < NE ? EDGE[k] : k - NE - 1500;
      long l = v; int i = v; unsigned u = v;
      PR (itoa, i, "%d", i < 0, (i < 0 ? -(unsigned long) (long) i : i)) PR (ltoa, l, "%ld", l < 0, (l < 0 ? -v : v))
      PR (utoa, u, "%u", 0, u) PR (ultoa, v, "%lu", 0, v)
      for (int b = 2; b <= 36; b++)
        {
          evals += 3; nontriv += 3;
          numeral (l < 0 ? -v : v, l < 0, b, 0, w);
          if ((cr = TRY (g = mes_ltoab (l, b))) || strcmp (g, w)) fail ("ltoab (%ld, %d) || %s, expected %s, signal %d", l, b, cr ? "" : g, w, cr);
          if ((cr = TRY (g = mes_ntoab (l, b, 1))) || strcmp (g, w)) fail ("ntoab (%ld, %d, 1) || %s, expected %s, signal %d", l, b, cr ? "" : g, w, cr);
          numeral (v, 0, b, 0, w);
          if ((cr = TRY (g = mes_ntoab (l, b, 0))) || strcmp (g, w)) fail ("ntoab (%ld, %d, 0) || %s, expected %s, signal %d", l, b, cr ? "" : g, w, cr);
          if (k < NE || b == 10)
            for (int neg = 0; neg < 2; neg++) for (int up = 0; up < 2; up++) for (int tail = 0; tail < 4; tail++)
              {
                char t[100]; numeral (v, neg, b, up, t);
                strcat (t, tail == 0 ? "" : tail == 1 ? "|" : tail == 2 ? " 1" : ".5");
                parse_one (t, strlen (t), b);
                if (b == 16) { char t2[100]; sprintf (t2, "%s0%c%s", neg ? "-" : "", up ? 'X' : 'x', t + neg); parse_one (t2, strlen (t2), 16); parse_one (t2, strlen (t2), 0); }
                if (b == 8) { char t2[100]; sprintf (t2, "%s0%s", neg ? "-" : "", t + neg); parse_one (t2, strlen (t2), 0); }
              }
          static int const AB[] = { 2, 8, 10, 16 };
        }
      static int const AB[] = { 2, 8, 10, 16 };
      for (int b = 0; b < 4; b++) for (int up = 0; up < 2; up++)
        {
          char t[100]; numeral (l < 0 ? -v : v, l < 0, AB[b], up, t); strcat (t, "|");
          char const *p = t; long r = 0; evals++;
          if ((cr = TRY (r = mes_abtol (&p, AB[b]))) || r != l || *p != '|') fail ("abtol (%s, %d) || %ld, end %s, signal %d", t, AB[b], r, p, cr);
        }
    }
}
static void division (void)
{
  begin ("long long helpers");
  int cr;
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++)
    {
      unsigned long a = EDGE[i], b = EDGE[j], ug = 0, rem = 0; long sa = a, sb = b, g = 0;
      if (!b) continue;
      evals += 10; nontriv += 10;
#define DV(f, type, x, y, w) { type r = 0; if ((cr = TRY (r = f (x, y))) || r != (type) (w)) fail (#f " (%lx, %lx) || %lx, expected %lx, signal %d", (long) x, (long) y, (long) r, (long) (w), cr); }
      if (!(sa == LONG_MIN && sb == -1))
        {
          DV (mes___divdi3, long, sa, sb, sa / sb) DV (mes___moddi3, long, sa, sb, sa % sb)
          DV (dv___mesabi_idiv, long, sa, sb, sa / sb) DV (dv___mesabi_imod, long, sa, sb, sa % sb)
        }
      DV (mes___udivdi3, unsigned long, a, b, a / b) DV (mes___umoddi3, unsigned long, a, b, a % b)
      DV (dv___mesabi_udiv, unsigned long, a, b, a / b) DV (dv___mesabi_umod, unsigned long, a, b, a % b)
      if ((cr = TRY (ug = dv___mesabi_uldiv (a, b, &rem))) || ug != a / b || rem != a % b) fail ("__mesabi_uldiv (%lx, %lx) || %lx rem %lx, signal %d", a, b, ug, rem, cr);
      if ((cr = TRY (ug = dv___mesabi_uldiv (a, b, 0))) || ug != a / b) fail ("__mesabi_uldiv without remainder (%lx, %lx) || %lx, signal %d", a, b, ug, cr);
    }
  for (int i = 0; i < NE; i++) for (int k = 0; k < 64; k++)
    {
      unsigned long a = EDGE[i]; evals += 3; nontriv += 3; unsigned long long g;
      if ((g = mes___lshrdi3 (a, k)) != a >> k) fail ("__lshrdi3 (%lx, %d) || %llx", a, k, g);
      if ((g = mes___ashldi3 (a, k)) != a << k) fail ("__ashldi3 (%lx, %d) || %llx", a, k, g);
      if ((g = mes___ashrdi3 (a, k)) != (unsigned long) ((long) a >> k)) fail ("__ashrdi3 (%lx, %d) || %llx", a, k, g);
    }
  /* every pair of small values */
  for (long a = -200; a <= 200; a++) for (long b = -200; b <= 200; b++)
    if (b)
      {
        evals += 4; nontriv += 4;
        DV (dv___mesabi_idiv, long, a, b, a / b) DV (dv___mesabi_imod, long, a, b, a % b)
        DV (dv___mesabi_udiv, unsigned long, a, b, (unsigned long) a / b) DV (dv___mesabi_umod, unsigned long, a, b, (unsigned long) a % b)
      }
}
int main (int argc, char **argv)
{
  h_init ();
  deep = argc > 2;
  R1 = region (1);
  int k = atoi (argv[1]);
  if (k < 8) parse (k, 8);
  else if (k == 8) classes ();
  else if (k == 9) print ();
  else division ();
  return h_done ();
}
