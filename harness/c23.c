#include "h.h"
static int deep;
extern int mes_vsscanf (char const *, char const *, char *), mes_vfscanf (void *, char const *, char *), mes_fgetc (void *);
extern long mes___buffered_read_clear (int); extern void mes___ungetc_clear (int);
extern int mes_sscanf (char const *, char const *, ...), mes_fscanf (void *, char const *, ...);
static char const *in; static int inlen, inpos;
ssize_t mes__read (int fd, void *b, size_t n)
{
  if (fd != 5) return 0;
  int k = inlen - inpos; if (k > n) k = n;
  memcpy (b, in + inpos, k); inpos += k; return k;
}
static uc *R;
static void one (char const *s, int n, char const *fmt)
{
  unsigned long a[6], b[6]; char *va[6];
  long g = -9; int cr, w;
  /* left open by the standard, or outside what is supported: 0x without digits */
  for (char const *p = s; (p = strpbrk (p, "0")); p++) if ((p[1] == 'x' || p[1] == 'X') && !isxdigit (p[2]) && strchr (fmt, 'i')) return;
  memset (a, 0x5a, sizeof a); memset (b, 0x5a, sizeof b);
  w = sscanf (s, fmt, a, a + 1, a + 2, a + 3, a + 4, a + 5);
  for (int k = 0; k < 6; k++) va[k] = (char *) (b + k);
  evals += 2; nontriv += w > 0;
  if (w > 0) sample ("sscanf (%s, %s) = %d", q (s, n), qs (fmt), w);
  char *t = (char *) R + PAGE - n - 1; memcpy (t, s, n + 1);
  if ((cr = TRY (g = mes_vsscanf (t, fmt, (char *) va))) || g != w || memcmp (a, b, sizeof a))
    fail ("vsscanf (%s, %s) || %ld: %lx %lx %lx, expected %d: %lx %lx %lx, signal %d", q (s, n), qs (fmt), g, b[0], b[1], b[2], w, a[0], a[1], a[2], cr);
  memset (b, 0x5a, sizeof b); evals++; g = -9;
  if ((cr = TRY (g = mes_sscanf (t, fmt, b, b + 1, b + 2, b + 3, b + 4, b + 5))) || g != w || memcmp (a, b, sizeof a))
    fail ("sscanf (%s, %s) || %ld: %lx %lx %lx, expected %d: %lx %lx %lx, signal %d", q (s, n), qs (fmt), g, b[0], b[1], b[2], w, a[0], a[1], a[2], cr);
  memset (b, 0x5a, sizeof b);
  in = s; inlen = n; inpos = 0; g = -9;
  mes___buffered_read_clear (5); mes___ungetc_clear (5);
  /* what is left on the stream: the system's library on the same text */
  static FILE *f; static char mem[256];
  if (!f) f = fmemopen (mem, 256, "r");
  int rest = -2, rest2 = -2, grest = -2, grest2 = -2;
  memset (a, 0x5a, sizeof a);
  FILE *h = n ? fmemopen ((char *) s, n, "r") : fopen ("/dev/null", "r");
  w = fscanf (h, fmt, a, a + 1, a + 2, a + 3, a + 4, a + 5);
  rest = fgetc (h); rest2 = fgetc (h); fclose (h);
  if ((cr = TRY (g = mes_vfscanf ((void *) 5, fmt, (char *) va); grest = mes_fgetc ((void *) 5); grest2 = mes_fgetc ((void *) 5))) || g != w || memcmp (a, b, sizeof a) || grest != rest || grest2 != rest2)
    fail ("vfscanf (%s, %s) || %ld: %lx %lx %lx then %d %d, expected %d: %lx %lx %lx then %d %d, signal %d", q (s, n), qs (fmt), g, b[0], b[1], b[2], grest, grest2, w, a[0], a[1], a[2], rest, rest2, cr);
  memset (b, 0x5a, sizeof b); inpos = 0; g = -9; grest = -2; evals++;
  mes___buffered_read_clear (5); mes___ungetc_clear (5);
  if ((cr = TRY (g = mes_fscanf ((void *) 5, fmt, b, b + 1, b + 2, b + 3, b + 4, b + 5); grest = mes_fgetc ((void *) 5))) || g != w || memcmp (a, b, sizeof a) || grest != rest)
    fail ("fscanf (%s, %s) || %ld: %lx %lx %lx then %d, expected %d: %lx %lx %lx then %d, signal %d", q (s, n), qs (fmt), g, b[0], b[1], b[2], grest, w, a[0], a[1], a[2], rest, cr);
}
static char const *IT[] = { "%d", "%c", " ", "x", "%u", "%%", "%ld", "%i", "%lu", "\n", "-" };
static uc const Z[] = { '1', ' ', '-', 'x', '0', '\n', '%', '+', '7', 0xff };
static void all (int part, int parts)
{
  begin ("scan");
  int L = deep ? 5 : 4, nf = 0; uc s[16];
  for (int m = 0; m <= 3; m++) for (long i = 0; i < ipow (m == 3 ? 8 : 11, m); i++)
    {
      char f[64] = ""; long j = i;
      for (int k = 0; k < m; k++) { strcat (f, IT[j % (m == 3 ? 8 : 11)]); j /= m == 3 ? 8 : 11; }
      if (nf++ % parts != part) continue;
      int A = m == 3 ? (deep ? 6 : 5) : 9 + (m < 2);
      for (int n = 0; n <= (m == 3 ? L : m == 2 ? L : L + 1); n++) for (long k = 0; k < ipow (n > 4 && m == 2 ? 5 : n > 4 && m == 3 ? 4 : A, n); k++)
        { nth (k, Z, A, n, s); s[n] = 0; one ((char *) s, n, f); }
    }
}
static void values (void)
{
  begin ("values");
  static char const *V[] = { "0", "1", "-1", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "007", "0x1F", "0X1f", "017", "+5", "-0x7fffffff" };
  static char const *F[] = { "%d", "%i", "%u", "%ld", "%li", "%lu" };
  static char const *SEP[] = { "", " ", "\t\n", "," };
  char s[128], f[64];
  for (int i = 0; i < 15; i++) for (int k = 0; k < 6; k++)
    {
      int big = i >= 5 && k < 3 || i == 5 && k < 2 || i >= 7 && i < 9;
      if (i == 8 && k != 5 || i == 7 && (k == 5 || k < 3) || i == 6 && k < 3 || i == 5 && k < 2) continue;
      for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++)
        {
          snprintf (s, 128, "%s%s%s%s", a < 3 ? SEP[a] : "", V[i], SEP[b], "12"); snprintf (f, 64, "%s%s%%d", F[k], b == 3 ? "," : ""); if (!b) strcpy (f, F[k]);
          if (b) one (s, strlen (s), f);
          snprintf (s, 128, "%s%s%sz", SEP[a % 3], V[i], SEP[b]); snprintf (f, 64, "%s%%c", F[k]); if (i == 8 && !b) continue; one (s, strlen (s), f);
        }
    }
  for (int c = 1; c < 256; c++)
    { s[0] = c; s[1] = c; s[2] = 'a'; s[3] = 0; one (s, 3, "%c%c%c"); one (s, 3, "%c"); one (s, 3, "%c%d"); one (s, 3, "%d%c"); }
}
int main (int argc, char **argv)
{
  h_init ();
  deep = argc > 2;
  R = region (1);
  int k = atoi (argv[1]);
  if (k < 16) all (k, 16); else values ();
  return h_done ();
}
