#include "h.h"
static int deep;
extern int mes_vsnprintf (char *, size_t, char const *, char *), mes_vsprintf (char *, char const *, char *), mes_vfprintf (void *, char const *, char *), mes_vprintf (char const *, char *);
extern int mes_printf (char const *, ...), mes_sprintf (char *, char const *, ...), mes_snprintf (char *, size_t, char const *, ...), mes_fprintf (void *, char const *, ...);
static char sink[65536]; static int sinkn, sinkfd;
ssize_t mes__write (int fd, void const *b, size_t n) { if (fd != sinkfd) return n; if (sinkn + n < sizeof sink) memcpy (sink + sinkn, b, n); sinkn += n; return n; }
static uc *R;
static char want[65536];
/* One format with the arguments A; all functions, all limits near the length. */
static void one (char const *fmt, long *a, int limits)
{
  int w = snprintf (want, sizeof want, fmt, a[0], a[1], a[2], a[3], a[4], a[5]), g = -9, cr;
  char what[400]; long c[8];
  snprintf (what, sizeof what, "%s with %lx, %lx, %lx", qs (fmt), a[0], a[1], a[2]);
  evals += 3; nontriv += 3;
  sample ("%s -> %s", what, qs (want));
  char *d = (char *) R + PAGE - w - 1;
  memset (R, 0x5a, PAGE); memcpy (c, a, sizeof c);
  if ((cr = TRY (g = mes_vsprintf (d, fmt, (char *) c))) || g != w || memcmp (d, want, w + 1) || d[-1] != 0x5a) fail ("vsprintf %s || %d %s, expected %d %s, signal %d", what, g, q (d, w), w, q (want, w), cr);
  sinkfd = 7; sinkn = 0; memcpy (c, a, sizeof c); memset (sink, 0x5a, w + 4);
  if ((cr = TRY (g = mes_vfprintf ((void *) 7, fmt, (char *) c))) || g != w || sinkn != w || memcmp (sink, want, w)) fail ("vfprintf %s || %d %s, expected %d %s, signal %d", what, g, q (sink, sinkn), w, q (want, w), cr);
  sinkfd = 1; sinkn = 0; memcpy (c, a, sizeof c);
  if ((cr = TRY (g = mes_vprintf (fmt, (char *) c))) || g != w || sinkn != w || memcmp (sink, want, w)) fail ("vprintf %s || %d %s, expected %d %s, signal %d", what, g, q (sink, sinkn), w, q (want, w), cr);
#define V a[0], a[1], a[2], a[3], a[4], a[5]
  evals += 4; d = (char *) R + PAGE - w - 1; memset (R, 0x5a, PAGE); g = -9;
  if ((cr = TRY (g = mes_sprintf (d, fmt, V))) || g != w || memcmp (d, want, w + 1) || d[-1] != 0x5a) fail ("sprintf %s || %d %s, expected %d %s, signal %d", what, g, q (d, w), w, q (want, w), cr);
  sinkfd = 7; sinkn = 0; g = -9;
  if ((cr = TRY (g = mes_fprintf ((void *) 7, fmt, V))) || g != w || sinkn != w || memcmp (sink, want, w)) fail ("fprintf %s || %d %s, expected %d %s, signal %d", what, g, q (sink, sinkn), w, q (want, w), cr);
  sinkfd = 1; sinkn = 0; g = -9;
  if ((cr = TRY (g = mes_printf (fmt, V))) || g != w || sinkn != w || memcmp (sink, want, w)) fail ("printf %s || %d %s, expected %d %s, signal %d", what, g, q (sink, sinkn), w, q (want, w), cr);
  for (int k = 0; k <= w + 1; k += k == 1 && w > 1 ? w - 1 : 1)
    {
      if (k > 1 && k < w) continue;
      d = (char *) R + PAGE - k; memset (R + PAGE - k - 8, 0x5a, k + 8); g = -9; cr = TRY (g = mes_snprintf (d, k, fmt, V));
      static char lw[65536]; snprintf (lw, k, fmt, V);
      if (cr || g != w || (k && strcmp (d, lw)) || d[-1] != 0x5a) fail ("snprintf limit %d %s || %d %s, expected %d %s, signal %d", k, what, g, cr ? "" : q (d, k), w, k ? qs (lw) : "", cr);
    }
  for (int k = 0; k <= w + 2; k++)
    {
      if (!limits && k > 1 && k < w) continue;
      evals++;
      /* exactly K bytes before the guard: one byte more is a fault */
      d = (char *) R + PAGE - k; memset (R + PAGE - k - 8, 0x5a, k + 8); memcpy (c, a, sizeof c); g = -9;
      cr = TRY (g = mes_vsnprintf (d, k, fmt, (char *) c));
      snprintf (want, k, fmt, a[0], a[1], a[2], a[3], a[4], a[5]);
      if (cr || g != w || (k && strcmp (d, want)) || d[-1] != 0x5a) fail ("vsnprintf limit %d %s || %d %s, expected %d %s, signal %d", k, what, g, cr ? "" : q (d, k), w, k ? qs (want) : "", cr);
      if (!limits && k == w + 1) break;
    }
}
static long const INTS[] = { 0, 1, -1, 7, -7, 8, 9, 10, -10, 123, -123, 4096, 99999, -99999, 2147483647, -2147483648L, 4294967295L, 255, 0xabcdef };
static long const LONGS[] = { 0, 1, -1, 42, -42, 4294967296L, -4294967296L, LONG_MAX, LONG_MIN, LONG_MIN + 1, 2147483648L, 1000000000000L, 0x1234567890abcdefL, 15, 16, 1L << 62 };
static char const *STRS[] = { "", "a", "hello", "with %d in", "\xff\x80z", "a much longer string than any width used here" };
static char const *FLAGS[] = { "", "-", "0", " ", "- ", " -", "0 ", " 0", "-0", "0-", "--", "00" };
static char const *WIDTHS[] = { "", "1", "2", "5", "9", "10", "13", "25" };
static char const *PRECS[] = { "", ".", ".0", ".1", ".2", ".3", ".5", ".10", ".21" };
#define N(x) (sizeof (x) / sizeof *(x))
static void one_conversion (int part, int parts)
{
  begin ("one conversion");
  char f[64]; long a[8]; int id = 0;
  for (int fl = 0; fl < N (FLAGS); fl++) for (int w = -5; w < (int) N (WIDTHS); w++) for (int p = -4; p < (int) N (PRECS); p++)
    for (int cv = 0; cv < 16; cv++)
      {
        if (id++ % parts != part) continue;
        static char const *C[] = { "d", "i", "u", "o", "x", "X", "ld", "li", "lu", "lo", "lx", "lX", "lld", "llx", "s", "c" };
        int nconst = cv < 6 ? N (INTS) : cv < 14 ? N (LONGS) : cv == 14 ? N (STRS) : 6;
        if (cv >= 14 && (strchr (FLAGS[fl], '0') || strchr (FLAGS[fl], ' '))) continue;
        if (cv == 15 && p) continue;
        if (cv == 12 && !deep && p > 3) continue;
        for (int k = 0; k < nconst; k++)
          {
            int n = 0;
            static long const SW[] = { 0, 6, -6, -1, 20 }, SP[] = { 0, 3, -2, 15 };
            /* an int argument sits in a slot whose upper half is not part of it */
            if (w < 0) a[n++] = (SW[-w - 1] & 0xffffffff) | 0x7654321000000000;
            if (p < 0) a[n++] = (SP[-p - 1] & 0xffffffff) | 0x1234567800000000;
            a[n++] = cv < 6 ? (INTS[k] & 0xffffffff) | (k % 2 ? 0x5555555500000000 : 0) : cv < 14 ? LONGS[k] : cv == 14 ? (long) STRS[k] : "aZ \n\xff\x01"[k] & 0xff;
            a[n++] = 77; a[n++] = 78; a[n++] = 79; a[n++] = 80;
            char const *ws = w < 0 ? "*" : WIDTHS[w], *ps = p < 0 ? ".*" : PRECS[p];
            snprintf (f, sizeof f, "%%%s%s%s%s", FLAGS[fl], ws, ps, C[cv]);
            one (f, a, deep);
            if (k < 3) { snprintf (f, sizeof f, "<%%%s%s%s%s>%%%%%%d", FLAGS[fl], ws, ps, C[cv]); one (f, a, k == 0); }
          }
      }
}
/* results of every length around the sizes of buffers, up to 20000 */
static void long_results (void)
{
  begin ("long results");
  static char str[20100], f[20100]; long a[8] = { 0 };
  uc *old = R; R = region (8); R += 7 * PAGE; /* the guard follows */
  static int const B[] = { 63, 64, 80, 100, 127, 128, 200, 255, 256, 400, 500, 511, 512, 1000, 1023, 1024, 1999, 2000, 2047, 2048, 3000, 4000 };
  for (int b = 0; b < N (B); b++) for (int d = -2; d <= 2; d++)
    {
      int n = B[b] + d; for (int i = 0; i < n; i++) str[i] = 'a' + i % 23; str[n] = 0;
      a[0] = (long) str; a[1] = 77; one ("%s", a, 0); one ("<%s>%d", a, 0);
      strcpy (f, str); strcat (f, "%d"); a[0] = 5; one (f, a, 0);
      a[0] = n; a[1] = 9; one ("%*d", a, 0);
      a[0] = n; a[1] = (long) "x"; one ("%-*s|", a, 0); one ("%*s", a, 0);
    }
  static int const L[] = { 4093, 4094, 4095, 4096, 4097, 5000, 8190, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000 };
  static char out[20300];
  for (int b = 0; b < N (L); b++) for (int k = 0; k < 3; k++)
    {
      int n = L[b], g = -9, w, cr; for (int i = 0; i < n; i++) str[i] = 'a' + i % 23; str[n] = 0;
      char const *fm = k == 0 ? "<%s>%d" : k == 1 ? "%.20000s%d" : f; if (k == 2) { strcpy (f, str); strcat (f, "%.1s%d"); }
      w = snprintf (want, sizeof want, fm, str, 77); evals += 3;
      memset (out, 0x5a, sizeof out);
      if ((cr = TRY (g = mes_sprintf (out, fm, str, 77))) || g != w || memcmp (out, want, w + 1)) fail ("sprintf of %d characters, format %d || %d, expected %d, signal %d", n, k, g, w, cr);
      sinkfd = 7; sinkn = 0; g = -9;
      if ((cr = TRY (g = mes_fprintf ((void *) 7, fm, str, 77))) || g != w || sinkn != w || memcmp (sink, want, w)) fail ("fprintf of %d characters, format %d || %d, written %d, expected %d, signal %d", n, k, g, sinkn, w, cr);
      sinkfd = 1; sinkn = 0; g = -9;
      if ((cr = TRY (g = mes_printf (fm, str, 77))) || g != w || sinkn != w || memcmp (sink, want, w)) fail ("printf of %d characters, format %d || %d, written %d, expected %d, signal %d", n, k, g, sinkn, w, cr);
    }
  R = old;
}
static void strings_bounded (void)
{
  begin ("bounded strings");
  /* %.Ns reads at most N bytes of an array without terminator */
  uc *S = region (1); long a[8] = { 0 }; char f[32];
  for (int n = 0; n <= 9; n++) for (int w = 0; w <= 12; w++) for (int left = 0; left < 2; left++)
    {
      memset (S + PAGE - n, 'k', n);
      a[0] = (long) (S + PAGE - n);
      snprintf (f, sizeof f, "%%%s%d.%ds|", left ? "-" : "", w, n); if (!w) snprintf (f, sizeof f, "%%.%ds|", n);
      one (f, a, 1);
    }
}
static void sequences (int part, int parts)
{
  begin ("sequences");
  /* all sequences of up to four items: arguments are consumed in order */
  static char const *IT[] = { "%d", "%s", "%c", "%%", "%5.2x", "%ld", "%-4u", "%*d", "%.*s", "x", " %03d", "%n" };
  int L = deep ? 5 : 4;
  for (int n = 0; n <= L; n++) for (long i = part; i < ipow (11, n); i += parts)
    {
      char f[128] = ""; long a[16] = { 0 }; int k = 0; long j = i;
      for (int m = 0; m < n; m++, j /= 11)
        {
          int it = j % 11; strcat (f, IT[it]);
          if (it == 1) a[k++] = (long) "str";
          else if (it == 3 || it == 9) ;
          else if (it == 7) { a[k++] = 4; a[k++] = -12; }
          else if (it == 8) { a[k++] = 2; a[k++] = (long) "abcdef"; }
          else if (it == 2) a[k++] = 'c';
          else a[k++] = it == 5 ? -5000000000L : 30 + m;
        }
      if (k <= 6) one (f, a, 0);
    }
  /* many arguments: beyond those in registers */
  if (part == 0) for (int n = 0; n <= 12; n++)
    {
      char f[128] = "", b[200], x[200]; for (int k = 0; k < n; k++) strcat (f, k % 3 == 1 ? "%s," : k % 3 ? "%ld," : "%d,");
#define ARGS 1, "two", 3L, -4, "five", 6L, 7, "eight", LONG_MIN, 10, "", 12L
      evals += 2; int w = sprintf (x, f, ARGS), g = -1, h = -1; int cr = TRY (g = mes_sprintf (b, f, ARGS)); if (cr || g != w || strcmp (b, x)) fail ("sprintf %s || %d %s, expected %s", f, g, qs (b), qs (x));
      cr = TRY (h = mes_snprintf (b, 200, f, ARGS)); if (cr || h != w || strcmp (b, x)) fail ("snprintf %s || %d %s, expected %s", f, h, qs (b), qs (x));
    }
  /* %n */
  int n1 = 0, g; long a[4] = { 5, (long) &n1 }; char b[40];
  evals++;
  g = mes_vsnprintf (b, 40, "ab%dcd%n!", (char *) a);
  if (g != 6 || n1 != 5) fail ("%%n || %d, count %d", g, n1);
}
int main (int argc, char **argv)
{
  h_init ();
  deep = argc > 2;
  R = region (1);
  int k = atoi (argv[1]);
  if (k < 8) one_conversion (k, 8);
  else if (k < 12) sequences (k - 8, 4);
  else { strings_bounded (); long_results (); }
  return h_done ();
}
