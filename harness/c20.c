#include "h.h"
#define D(ret, name, ...) ret mes_##name (__VA_ARGS__);
D (void *, memchr, void const *, int, size_t) D (int, memcmp, void const *, void const *, size_t)
D (void *, memcpy, void *, void const *, size_t) D (void *, memmove, void *, void const *, size_t)
D (void *, memset, void *, int, size_t) D (void *, memmem, void const *, int, void const *, int)
D (int, bcmp, void const *, void const *, size_t) D (void, bcopy, void const *, void *, size_t) D (void, bzero, void *, size_t)
D (char *, index, char const *, int) D (char *, rindex, char const *, int)
D (char *, strcat, char *, char const *) D (char *, strchr, char const *, int) D (char *, strrchr, char const *, int)
D (int, strcmp, char const *, char const *) D (int, strncmp, char const *, char const *, size_t)
D (char *, strcpy, char *, char const *) D (char *, strncpy, char *, char const *, size_t) D (char *, strncat, char *, char const *, size_t)
D (size_t, strlen, char const *) D (size_t, strspn, char const *, char const *) D (size_t, strcspn, char const *, char const *)
D (char *, strpbrk, char const *, char const *) D (char *, strstr, char const *, char const *)
D (char *, strdup, char const *) D (char *, strerror, int) D (char *, strlwr, char *) D (char *, strupr, char *)
D (void *, __memcpy, void *, void const *, size_t) D (void *, __memmove, void *, void const *, size_t) D (void *, __memset, void *, int, size_t)

static uc *R1, *R2, *R3;       /* one page each, guarded on both sides */
static int deep;
/* Places N bytes so that they end at the guard (end=1) or start at it. */
static uc *put (uc *r, uc const *b, int n, int end) { uc *p = end ? r + PAGE - n : r; memcpy (p, b, n); return p; }

static uc const A5[] = { 'a', 'b', 0x80, 0xff, 0x7f };

static void cmp_one (uc *a, int n, uc *b, int m, int end)
{
  /* a, b without terminator */
  uc x[16], y[16]; memcpy (x, a, n); x[n] = 0; memcpy (y, b, m); y[m] = 0;
  char *s = (char *) put (R1, x, n + 1, end), *t = (char *) put (R2, y, m + 1, end);
  int g = 0, w, cr;
  evals++; nontriv++;
  w = strcmp (s, t);
  if ((cr = TRY (g = mes_strcmp (s, t))) || sgn (g) != sgn (w)) fail ("strcmp (%s, %s) || %d, expected the sign of %d, signal %d", q (s, n), q (t, m), g, w, cr);
  int top = (n > m ? n : m) + 2;
  for (int k = 0; k <= top; k++)
    {
      evals++;
      w = strncmp (s, t, k);
      if ((cr = TRY (g = mes_strncmp (s, t, k))) || sgn (g) != sgn (w)) fail ("strncmp (%s, %s, %d) || %d, expected the sign of %d, signal %d", q (s, n), q (t, m), k, g, w, cr);
    }
  /* arrays not terminated */
  s = (char *) put (R1, x, n, end), t = (char *) put (R2, y, m, end);
  int k = n < m ? n : m;
  evals += 2;
  w = memcmp (s, t, k);
  if ((cr = TRY (g = mes_memcmp (s, t, k))) || sgn (g) != sgn (w)) fail ("memcmp (%s, %s, %d) || %d, expected the sign of %d, signal %d", q (s, k), q (t, k), k, g, w, cr);
  if ((cr = TRY (g = mes_bcmp (s, t, k))) || !g != !w) fail ("bcmp (%s, %s, %d) || %d, expected %s, signal %d", q (s, k), q (t, k), k, g, w ? "nonzero" : "0", cr);
  w = strncmp (s, t, k);
  if (end && ((cr = TRY (g = mes_strncmp (s, t, k))) || sgn (g) != sgn (w))) fail ("strncmp unterminated (%s, %s, %d) || %d, expected the sign of %d, signal %d", q (s, k), q (t, k), k, g, w, cr);
}
static void compare (void)
{
  begin ("compare");
  int L = deep ? 4 : 3;
  uc x[8], y[8];
  for (int n = 0; n <= L; n++) for (long i = 0; i < ipow (4, n); i++)
    for (int m = 0; m <= L; m++) for (long j = 0; j < ipow (4, m); j++)
      { nth (i, A5, 4, n, x); nth (j, A5, 4, m, y); cmp_one (x, n, y, m, (i + j) % 2); cmp_one (x, n, y, m, 1); }
  for (int i = 1; i < 256; i++) for (int j = 1; j < 256; j++)
    { x[0] = i; y[0] = j; cmp_one (x, 1, y, 1, 1);
      x[0] = y[0] = 'k'; x[1] = i; y[1] = j; x[2] = j; y[2] = i; cmp_one (x, 3, y, 3, 1); }
  /* memcmp over zero bytes as well */
  static uc const Z[] = { 0, 1, 0xff };
  for (int n = 0; n <= 4; n++) for (long i = 0; i < ipow (3, n); i++) for (long j = 0; j < ipow (3, n); j++)
    {
      nth (i, Z, 3, n, x); nth (j, Z, 3, n, y);
      for (int end = 0; end < 2; end++)
        {
          uc *s = put (R1, x, n, end), *t = put (R2, y, n, end); int g = 0, w = memcmp (s, t, n), cr;
          evals++;
          if ((cr = TRY (g = mes_memcmp (s, t, n))) || sgn (g) != sgn (w)) fail ("memcmp (%s, %s, %d) || %d, expected the sign of %d, signal %d", q (s, n), q (t, n), n, g, w, cr);
        }
    }
}
static void search_char (void)
{
  begin ("search a character");
  static uc const Z[] = { 'a', 0x80, 0xff, 'A', 0 };
  uc x[16];
  int L = deep ? 6 : 5;
  for (int n = 0; n <= L; n++) for (long i = 0; i < ipow (4, n); i++)
    {
      nth (i, Z, 4, n, x); x[n] = 0;
      for (int end = 0; end < 2; end++)
        {
          char *s = (char *) put (R1, x, n + 1, end);
          size_t l = 0; int cr;
          evals++;
          if ((cr = TRY (l = mes_strlen (s))) || l != n) fail ("strlen (%s) || %ld, signal %d", q (s, n), (long) l, cr);
          static int const C[] = { 'a', 0x80, 0xff, 'A', 0, 'b', -128, -1, 'a' + 256, 256, 1, 0x7f };
          for (int k = 0; k < sizeof C / sizeof *C; k++)
            {
              char *g = 0, *w;
#define P(f, e) evals++; nontriv++; w = e; if ((cr = TRY (g = mes_##f (s, C[k]))) || g != w) \
  fail (#f " (%s, %d) || offset %ld, expected %ld, signal %d (-1: NULL)", q (s, n), C[k], g ? g - s : -1L, w ? w - s : -1L, cr);
              P (strchr, strchr (s, C[k])) P (strrchr, strrchr (s, C[k])) P (index, strchr (s, C[k])) P (rindex, strrchr (s, C[k]))
            }
        }
    }
  for (int n = 0; n <= L; n++) for (long i = 0; i < ipow (5, n); i++)
    {
      nth (i, Z, 5, n, x);
      uc *s = put (R1, x, n, 1);
      static int const C[] = { 'a', 0x80, 0xff, 'A', 0, 'b', -128, -1, 'a' + 256 };
      for (int k = 0; k < sizeof C / sizeof *C; k++) for (int m = 0; m <= n; m++)
        {
          uc *g = 0, *w = memchr (s, C[k], m); int cr;
          evals++;
          if ((cr = TRY (g = mes_memchr (s, C[k], m))) || g != w) fail ("memchr (%s, %d, %d) || offset %ld, expected %ld, signal %d", q (s, n), C[k], m, g ? g - s : -1L, w ? w - s : -1L, cr);
        }
    }
  for (int b = 0; b < 256; b++) for (int c = -128; c < 512; c++)
    {
      x[0] = 'q'; x[1] = b; x[2] = 'r'; x[3] = b; x[4] = 0;
      char *s = (char *) put (R1, x, 5, 1), *g = 0, *w; int cr;
      evals += 3;
      w = memchr (s, c, 5); if ((cr = TRY (g = mes_memchr (s, c, 5))) || g != w) fail ("memchr (%s, %d, 5) || offset %ld, expected %ld, signal %d", q (s, 5), c, g ? g - s : -1L, w ? w - s : -1L, cr);
      w = strchr (s, c); if ((cr = TRY (g = mes_strchr (s, c))) || g != w) fail ("strchr (%s, %d) || offset %ld, expected %ld, signal %d", qs (s), c, g ? g - s : -1L, w ? w - s : -1L, cr);
      w = strrchr (s, c); if ((cr = TRY (g = mes_strrchr (s, c))) || g != w) fail ("strrchr (%s, %d) || offset %ld, expected %ld, signal %d", qs (s), c, g ? g - s : -1L, w ? w - s : -1L, cr);
    }
}
static void search_string (void)
{
  begin ("search a string");
  uc x[16], y[16];
  static uc const Z[] = { 'a', 'b', 0xff, 0 };
  int L = deep ? 8 : 7;
  for (int n = 0; n <= L; n++) for (long i = 0; i < ipow (2 + (n < 6), n); i++)
    for (int m = 0; m <= 4; m++) for (long j = 0; j < ipow (2 + (n < 6), m); j++)
      {
        nth (i, Z, 2 + (n < 6), n, x); nth (j, Z, 2 + (n < 6), m, y); x[n] = y[m] = 0;
        char *s = (char *) put (R1, x, n + 1, 1), *t = (char *) put (R2, y, m + 1, 1), *g = 0, *w = strstr (s, t); int cr;
        evals += 2; nontriv++;
        if ((cr = TRY (g = mes_strstr (s, t))) || g != w) fail ("strstr (%s, %s) || offset %ld, expected %ld, signal %d", qs (s), qs (t), g ? g - s : -1L, w ? w - s : -1L, cr);
        s = (char *) put (R1, x, n, 1), t = (char *) put (R2, y, m, 1); w = memmem (s, n, t, m);
        if ((cr = TRY (g = mes_memmem (s, n, t, m))) || g != w) fail ("memmem (%s, %d, %s, %d) || offset %ld, expected %ld, signal %d", q (s, n), n, q (t, m), m, g ? g - s : -1L, w ? w - s : -1L, cr);
      }
  static uc const Y[] = { 'a', 0, 0x80 };
  for (int n = 0; n <= 5; n++) for (long i = 0; i < ipow (3, n); i++)
    for (int m = 0; m <= 3; m++) for (long j = 0; j < ipow (3, m); j++)
      {
        nth (i, Y, 3, n, x); nth (j, Y, 3, m, y);
        char *s = (char *) put (R1, x, n, 1), *t = (char *) put (R2, y, m, 1), *g = 0, *w = memmem (s, n, t, m); int cr;
        evals++;
        if ((cr = TRY (g = mes_memmem (s, n, t, m))) || g != w) fail ("memmem (%s, %d, %s, %d) || offset %ld, expected %ld, signal %d", q (s, n), n, q (t, m), m, g ? g - s : -1L, w ? w - s : -1L, cr);
      }
}
static void span (void)
{
  begin ("spans");
  uc x[16], y[16];
  int L = deep ? 5 : 4;
  for (int n = 0; n <= L; n++) for (long i = 0; i < ipow (5, n); i++)
    for (int m = 0; m <= 3; m++) for (long j = 0; j < ipow (4, m); j++)
      {
        nth (i, A5, 5, n, x); nth (j, A5, 4, m, y); x[n] = y[m] = 0;
        char *s = (char *) put (R1, x, n + 1, 1), *t = (char *) put (R2, y, m + 1, 1), *g = 0, *w = strpbrk (s, t); int cr;
        size_t gs = 0, ws = strspn (s, t);
        evals += 3; nontriv++;
        if ((cr = TRY (g = mes_strpbrk (s, t))) || g != w) fail ("strpbrk (%s, %s) || offset %ld, expected %ld, signal %d (-1: NULL)", qs (s), qs (t), g ? g - s : -1L, w ? w - s : -1L, cr);
        if ((cr = TRY (gs = mes_strspn (s, t))) || gs != ws) fail ("strspn (%s, %s) || %ld, expected %ld, signal %d", qs (s), qs (t), (long) gs, (long) ws, cr);
        ws = strcspn (s, t);
        if ((cr = TRY (gs = mes_strcspn (s, t))) || gs != ws) fail ("strcspn (%s, %s) || %ld, expected %ld, signal %d", qs (s), qs (t), (long) gs, (long) ws, cr);
      }
}
/* Whole-region comparison: what the call did to R3 must be what the reference did to a copy. */
static uc want[PAGE];
static int same (void) { return !memcmp (R3, want, PAGE); }
static void fill (void) { for (int i = 0; i < PAGE; i++) R3[i] = want[i] = 1 + (i * 7) % 250; }
static char const *diffs (void)
{
  static char b[200]; char *p = b; int k = 0; *b = 0;
  for (int i = 0; i < PAGE && k < 4; i++) if (R3[i] != want[i]) { p += sprintf (p, " [%d]=%02x not %02x", i, R3[i], want[i]); k++; }
  return b;
}
static void copies (void)
{
  begin ("copies");
  int N = deep ? 20 : 12, base = 100, cr; void *g = 0;
  for (int src = 0; src <= N; src++) for (int dst = 0; dst <= N; dst++) for (int n = 0; n <= N; n++)
    for (int at = 0; at < 2; at++)
      {
        /* both in R3, possibly overlapping; at=1: the higher end touches the guard */
        int b = at ? PAGE - (src > dst ? src : dst) - n : 0;
        for (int f = 0; f < 6; f++)
          {
            int overlap = !(src + n <= dst || dst + n <= src);
            if ((f == 0 || f == 1) && overlap) continue;
            fill ();
            memmove (want + b + dst, want + b + src, n);
            evals++; nontriv += n > 0;
            void *d = R3 + b + dst, *s = R3 + b + src;
            switch (f)
              {
              case 0: cr = TRY (g = mes_memcpy (d, s, n)); break;
              case 1: cr = TRY (g = mes___memcpy (d, s, n)); break;
              case 2: cr = TRY (g = mes_memmove (d, s, n)); break;
              case 3: cr = TRY (g = mes___memmove (d, s, n)); break;
              case 4: cr = TRY (mes_bcopy (s, d, n)); g = d; break;
              case 5: if (src) continue; memset (want + b + dst, dst * 37 + 5, n); if (n <= N) memcpy (want + b + src, R3 + b + src, 0);
                fill (); memset (want + b + dst, dst * 37 + 5, n); cr = TRY (g = mes___memset (d, dst * 37 + 5, n)); break;
              }
            static char const *F[] = { "memcpy", "__memcpy", "memmove", "__memmove", "bcopy", "__memset" };
            if (cr || g != d || !same ()) fail ("%s to %d from %d, %d bytes%s || result %s, signal %d%s", F[f], dst, src, n, at ? ", at the end of a page" : "", g == d ? "right" : "wrong", cr, diffs ());
          }
      }
  for (int dst = 0; dst <= 9; dst++) for (int n = 0; n <= 17; n++) for (int at = 0; at < 2; at++) for (int c = -1; c < 260; c += n > 3 ? 51 : 1)
    {
      int b = at ? PAGE - dst - n : dst; evals += 2; nontriv++;
      fill (); memset (want + b, c, n);
      if ((cr = TRY (g = mes_memset (R3 + b, c, n))) || g != R3 + b || !same ()) fail ("memset (%d, %d, %d) || signal %d%s", dst, c, n, cr, diffs ());
      fill (); memset (want + b, 0, n);
      if ((cr = TRY (mes_bzero (R3 + b, n))) || !same ()) fail ("bzero (%d, %d) || signal %d%s", dst, n, cr, diffs ());
    }
}
static void str_copies (void)
{
  begin ("string copies");
  int L = deep ? 5 : 4, cr; char *g = 0; uc x[16], y[16];
  for (int n = 0; n <= L; n++) for (long i = 0; i < ipow (3, n); i++)
    {
      nth (i, A5 + 1, 3, n, x); x[n] = 0;
      char *s = (char *) put (R1, x, n + 1, 1);
      evals += 2; nontriv++;
      fill (); strcpy ((char *) want + PAGE - n - 1, s);
      if ((cr = TRY (g = mes_strcpy ((char *) R3 + PAGE - n - 1, s))) || (uc *) g != R3 + PAGE - n - 1 || !same ()) fail ("strcpy (%s) || signal %d%s", qs (s), cr, diffs ());
      if ((cr = TRY (g = mes_strdup (s))) || !g || g == s || strcmp (g, s)) fail ("strdup (%s) || %s, signal %d", qs (s), cr ? "" : qs (g), cr);
      /* strncpy, also from an array of exactly the limit without a terminator */
      for (int k = 0; k <= n + 3; k++) for (int unterm = 0; unterm < 2; unterm++)
        {
          if (unterm && k > n) continue;
          char *t = unterm ? (char *) put (R2, x, k, 1) : s;
          fill (); evals++; nontriv++;
          strncpy ((char *) want + PAGE - k, t, k);
          if ((cr = TRY (g = mes_strncpy ((char *) R3 + PAGE - k, t, k))) || (uc *) g != R3 + PAGE - k || !same ())
            fail ("strncpy (d, %s%s, %d) || signal %d%s", q (t, unterm ? k : n), unterm ? " unterminated" : "", k, cr, diffs ());
          fill (); evals++;
          strncpy ((char *) want + 50, t, k);
          if ((cr = TRY (g = mes_strncpy ((char *) R3 + 50, t, k))) || (uc *) g != R3 + 50 || !same ())
            fail ("strncpy in the middle (d, %s%s, %d) || signal %d%s", q (t, unterm ? k : n), unterm ? " unterminated" : "", k, cr, diffs ());
        }
      for (int m = 0; m <= 3; m++) for (long j = 0; j < ipow (2, m); j++)
        {
          nth (j, A5, 2, m, y); y[m] = 0;
          uc *d = R3 + PAGE - n - m - 1; evals++;
          fill (); memcpy (d, y, m + 1); memcpy (want + (d - R3), y, m + 1); strcat ((char *) want + (d - R3), s);
          if ((cr = TRY (g = mes_strcat ((char *) d, s))) || (uc *) g != d || !same ()) fail ("strcat (%s, %s) || signal %d%s", qs ((char *) y), qs (s), cr, diffs ());
          for (int k = 0; k <= n + 2; k++) for (int unterm = 0; unterm < 2; unterm++)
            {
              if (unterm && k > n) continue;
              int l = k < n ? k : n;
              char *t = unterm ? (char *) put (R2, x, k, 1) : s;
              d = R3 + PAGE - m - l - 1; evals++;
              fill (); memcpy (d, y, m + 1); memcpy (want + (d - R3), y, m + 1); strncat ((char *) want + (d - R3), t, k);
              if ((cr = TRY (g = mes_strncat ((char *) d, t, k))) || (uc *) g != d || !same ()) fail ("strncat (%s, %s%s, %d) || signal %d%s", qs ((char *) y), q (t, unterm ? k : n), unterm ? " unterminated" : "", k, cr, diffs ());
            }
        }
    }
  for (int c = 1; c < 256; c++)
    {
      uc w[4] = { c, 'z', c, 0 }; int u; evals += 2; nontriv++;
      fill (); memcpy (R3, w, 4); for (int k = 0; k < 3; k++) w[k] = w[k] < 128 ? tolower (w[k]) : w[k]; memcpy (want, w, 4);
      if ((cr = TRY (g = mes_strlwr ((char *) R3))) || (uc *) g != R3 || !same ()) fail ("strlwr of byte %d || signal %d%s", c, cr, diffs ());
      w[0] = w[2] = c; w[1] = 'z';
      fill (); memcpy (R3, w, 4); for (int k = 0; k < 3; k++) w[k] = w[k] < 128 ? toupper (w[k]) : w[k]; memcpy (want, w, 4);
      if ((cr = TRY (g = mes_strupr ((char *) R3))) || (uc *) g != R3 || !same ()) fail ("strupr of byte %d || signal %d%s", c, cr, diffs ());
    }
  char *seen[200]; int ns = 0;
  for (int e = -5; e < 200; e++)
    {
      evals++;
      if ((cr = TRY (g = mes_strerror (e))) || !g || !*g) { fail ("strerror (%d) || signal %d", e, cr); continue; }
      if (e > 0 && e <= 34)
        {
          for (int k = 0; k < ns; k++) if (!strcmp (seen[k], g)) fail ("strerror (%d) || the text of another error: %s", e, qs (g));
          seen[ns++] = g;
        }
    }
}
static void long_ones (void)
{
  begin ("long");
  /* lengths across word and page sizes, at every alignment */
  int cr; size_t l = 0; char *g = 0;
  uc *B = region (4), *C = region (4);
  for (int n = 0; n <= 2100; n += n < 300 ? 1 : 97) for (int al = 0; al < 9; al++)
    {
      memset (B, 'x', 4 * PAGE); memset (C, 'y', 4 * PAGE);
      char *s = (char *) B + al, *d = (char *) C + 3 * al; s[n] = 0;
      evals += 5; nontriv++;
      if ((cr = TRY (l = mes_strlen (s))) || l != n) fail ("strlen of %d || %ld, signal %d", n, (long) l, cr);
      if ((cr = TRY (g = mes_memcpy (d, s, n))) || g != d || memcmp (d, s, n) || d[n] != 'y' || d[-1 + !al] != 'y' && al) fail ("memcpy of %d || signal %d", n, cr);
      memset (C, 'y', 4 * PAGE);
      if ((cr = TRY (g = mes_strcpy (d, s))) || g != d || strcmp (d, s) || d[n + 1] != 'y') fail ("strcpy of %d || signal %d", n, cr);
      if ((cr = TRY (g = mes_strchr (s, 0))) || g != s + n) fail ("strchr (long %d, 0) || signal %d", n, cr);
      if ((cr = TRY (g = mes_memmove (s + 1, s, n + 1))) || g != s + 1 || s[0] != 'x' && n || s[n + 1]) fail ("memmove by 1 of %d || signal %d", n, cr);
    }
}
int main (int argc, char **argv)
{
  h_init ();
  deep = argc > 2;
  R1 = region (1); R2 = region (1); R3 = region (1);
  switch (argv[1][0])
    {
    case '0': compare (); break;
    case '1': search_char (); break;
    case '2': search_string (); break;
    case '3': span (); break;
    case '4': copies (); break;
    case '5': str_copies (); break;
    case '6': long_ones (); break;
    }
  return h_done ();
}
