#include "h.h"
#include <getopt.h>
static int deep;
extern char *mes_getenv (char const *); extern int mes_setenv (char const *, char const *, int); extern void mes_unsetenv (char const *);
extern void mes_qsort (void *, size_t, size_t, int (*) (void const *, void const *));
extern int mes_getopt (int, char *const *, char const *), mes_getopt_long (int, char *const *, char const *, struct option const *, int *);
extern char *mes_optarg; extern int mes_optind, mes_opterr;
extern int mes_execvp (char const *, char *const *), mes_execv (char const *, char *const *);
extern int mes_errno;

/* ---- environment: the real one against an exact map ---- */
static char const *NM[] = { "A", "AB", "B" }; static char const *VL[] = { "", "x", "=yy" };
static char *init_env[4][4] = { { 0 }, { "A=1", 0 }, { "AB=2", "A=1", 0 }, { "B=", "A=1", "AB=", 0 } };
static uc *top; /* a guarded page: environ lies at its very end */
static void env_seq (int ini, long code, int n)
{
  static char trace[400]; char const *model[3] = { 0 };
  static char mbuf[3][16];
  char **src = init_env[ini]; int cnt = 0; while (src[cnt]) cnt++;
  char **e = (char **) (top + PAGE) - (cnt + 1);
  static char copy[4][8];
  for (int k = 0; k <= cnt; k++) e[k] = src[k] ? strcpy (copy[k], src[k]) : 0;
  for (int k = 0; k < cnt; k++) for (int j = 0; j < 3; j++) if (!strncmp (src[k], NM[j], strlen (NM[j])) && src[k][strlen (NM[j])] == '=')
    model[j] = strcpy (mbuf[j], src[k] + strlen (NM[j]) + 1);
  lib_back ();
  mes_environ = e;
  memset (brk_base, 0xa5, 8192);
  sprintf (trace, "env %d:", ini);
  for (int s = 0; s < n; s++)
    {
      int op = code % 22, cr, r = 0; code /= 22; char *t = trace + strlen (trace);
      evals++; nontriv++;
      if (op < 18)
        {
          int nm = op / 6, v = op / 2 % 3, ow = op % 2;
          sprintf (t, " setenv(%s,%s,%d)", NM[nm], VL[v], ow);
          /* the caller's strings need not live on */
          char nb[8], vb[8]; strcpy (nb, NM[nm]); strcpy (vb, VL[v]);
          if ((cr = TRY (r = mes_setenv (nb, vb, ow)))) { fail ("%s || signal %d", trace, cr); return; }
          memset (nb, 'Z', 7); memset (vb, 'Z', 7);
          if (r) { fail ("%s || returns %d", trace, r); return; }
          if (ow || !model[nm]) model[nm] = strcpy (mbuf[nm], VL[v]);
        }
      else if (op < 21)
        {
          sprintf (t, " unsetenv(%s)", NM[op - 18]);
          if ((cr = TRY (mes_unsetenv (NM[op - 18])))) { fail ("%s || signal %d", trace, cr); return; }
          model[op - 18] = 0;
        }
      else
        {
          sprintf (t, " setenv(bad)"); mes_errno = 0;
          if ((cr = TRY (r = mes_setenv (s & 1 ? "A=B" : "", "v", 1)))) { fail ("%s || signal %d", trace, cr); return; }
          if (r != -1 || mes_errno != EINVAL) { fail ("%s || returns %d, errno %d", trace, r, mes_errno); return; }
        }
      for (uc *p = brk_cur; p < brk_base + 8192; p++) if (*p != 0xa5) { fail ("%s || writes past its memory", trace); return; }
      int have = 0, listed = 0;
      for (int j = 0; j < 3; j++)
        {
          char *g = 0;
          if ((cr = TRY (g = mes_getenv (NM[j])))) { fail ("%s getenv || signal %d", trace, cr); return; }
          if (!g != !model[j] || (g && strcmp (g, model[j]))) { fail ("%s || getenv(%s) is %s, not %s", trace, NM[j], qs (g), qs (model[j])); return; }
          have += !!model[j];
        }
      if (mes_getenv ("Z") || mes_getenv ("ABC")) { fail ("%s || getenv of a name never set", trace); return; }
      for (char **p = mes_environ; *p; p++)
        {
          listed++; int ok = 0;
          for (int j = 0; j < 3; j++) { char want[32]; if (model[j]) { sprintf (want, "%s=%s", NM[j], model[j]); ok += !strcmp (want, *p); } }
          if (ok != 1) { fail ("%s || environ lists %s", trace, qs (*p)); return; }
        }
      if (listed != have) { fail ("%s || environ lists %d entries, not %d", trace, listed, have); return; }
    }
  sample ("%s", trace);
}
static void env (int part, int parts)
{
  begin ("environment");
  top = region (1);
  int L = deep ? 5 : 4;
  for (int ini = 0; ini < 4; ini++) for (int n = 1; n <= L; n++)
    for (long i = part; i < ipow (22, n); i += parts) { if (n == L && !deep && ini != 2 && ini != 0) break; env_seq (ini, i, n); }
  /* memory refused: the environment stays */
  for (int f = 0; f < 3; f++)
    {
      char *e[] = { "A=1", 0 }; int cr, r = 0;
      lib_back (); mes_environ = e; brk_calls = 0; brk_fail_at = f; mes_errno = 0;
      long ref = brk_refused;
      evals++;
      if ((cr = TRY (r = mes_setenv ("B", "2", 1)))) { fail ("setenv, request %d refused || signal %d", f, cr); continue; }
      if (brk_refused != ref && (r != -1 || mes_errno != ENOMEM || mes_getenv ("B"))) fail ("setenv, request %d refused || returns %d, errno %d", f, r, mes_errno);
      if (!mes_getenv ("A") || strcmp (mes_getenv ("A"), "1")) fail ("setenv, request %d refused || A is lost", f);
      brk_fail_at = -1;
    }
}

/* ---- qsort ---- */
static uc *lo, *hi; static size_t esz; static int bad;
static int cmp (void const *a, void const *b)
{
  uc const *x = a, *y = b;
  if (x < lo || x + esz > hi || (x - lo) % esz || y < lo || y + esz > hi || (y - lo) % esz) { bad++; return 0; }
  return *x == *y ? 0 : *x < *y ? -7 : 1 << 30;
}
static int rcmp (void const *a, void const *b) { return cmp (b, a); }
static int same (void const *a, void const *b) { return cmp (a, b), 0; }
static void sort_one (uc const *v, int n, size_t size, int mode)
{
  static uc *r; if (!r) r = region (1);
  uc *p = mode & 1 ? r : r + PAGE - n * size; /* against the page before, or the page after */
  uc want[1024];
  memset (r, 0xee, PAGE);
  for (int i = 0; i < n; i++) { memset (p + i * size, 0x40 + i, size); p[i * size] = v[i]; if (size > 1) p[i * size + size - 1] = 0x40 + i; }
  memcpy (want, p, n * size);
  lo = p; hi = p + n * size; esz = size; bad = 0;
  int rev = mode & 2, cr; evals++; nontriv += n > 1;
  static char name[1400]; sprintf (name, "qsort of %d elements of %ld bytes, keys %s%s", n, (long) size, q (v, n), rev ? ", descending" : "");
  if ((cr = TRY (mes_qsort (p, n, size, mode & 4 ? same : rev ? rcmp : cmp)))) { fail ("%s || signal %d", name, cr); return; }
  if (bad) { fail ("%s || compares things that are not elements", name); return; }
  for (uc *z = r; z < r + PAGE; z++) if ((z < lo || z >= hi) && *z != 0xee) { fail ("%s || writes outside the array", name); return; }
  for (int i = 1; i < n; i++)
    if (!(mode & 4) && (rev ? p[(i - 1) * size] < p[i * size] : p[(i - 1) * size] > p[i * size])) { fail ("%s || result %s is not in order", name, q (p, n * size)); return; }
  int used[64] = { 0 };
  for (int i = 0; i < n; i++)
    {
      int k; for (k = 0; k < n; k++) if (!used[k] && !memcmp (p + i * size, want + k * size, size)) { used[k] = 1; break; }
      if (k == n) { fail ("%s || result %s is not a permutation", name, q (p, n * size)); return; }
    }
  sample ("%s", name);
}
static void sorts (int part, int parts)
{
  begin ("sorting");
  static uc const K[] = { 3, 200, 0, 127, 1 };
  static int const SZ[] = { 1, 4, 8, 13 };
  int L = deep ? 9 : 7; uc v[64];
  for (int n = 0; n <= L; n++) for (long i = part; i < ipow (n > 6 ? 4 : 5, n); i += parts) for (int s = 0; s < 4; s++) for (int m = 0; m < (n > 6 ? 1 : 5); m++)
    { nth (i, K, n > 6 ? 4 : 5, n, v); sort_one (v, n, SZ[s], m); }
  /* all permutations of 8 distinct keys (deep: 9), and longer regular arrays */
  int N = deep ? 9 : 8; long f = 1; for (int i = 2; i <= N; i++) f *= i;
  for (long i = part; i < f; i += parts)
    { uc w[16]; for (int k = 0; k < N; k++) w[k] = k * 25; long c = i; for (int k = N; k > 0; k--) { int j = c % k; c /= k; v[k - 1] = w[j]; w[j] = w[k - 1]; } sort_one (v, N, 4, 0); }
  for (int n = part; n < 60; n += parts) for (int st = 0; st < 60; st++) { for (int k = 0; k < n; k++) v[k] = k * st % 61; sort_one (v, n, 8, 0); sort_one (v, n, 3, 3); }
}

/* ---- getopt ---- */
static char const *OT[] = { "-a", "-b", "-bx", "-ab", "-abx", "--", "-", "x", "-z", "-c", "-cx", "-a-", "", "-:", "-ca" };
#define NOT 15
static char const *LT[] = { "--foo", "--fo", "--foo=v", "--bar", "--bar=v", "--baz", "--ba", "--opt", "--opt=v", "--unknown", "--bar=", "--", "-a", "-b", "x", "--flag", "-z", "--f", "--foox", "-" };
#define NLT 20
static int mflag;
static struct option const LO[] = { { "foo", 0, 0, 'f' }, { "bar", 1, 0, 'B' }, { "baz", 0, 0, 'Z' }, { "opt", 2, 0, 'O' }, { "flag", 0, &mflag, 77 }, { "fo", 0, 0, 'F' }, { 0 } };
static void opts (int part, int parts)
{
  begin ("options");
  mes_opterr = opterr = 0;
  int L = deep ? 5 : 4;
  for (int lng = 0; lng < 2; lng++) for (int n = 0; n <= L - lng; n++) for (long i = part; i < ipow (lng ? NLT : NOT, n); i += parts)
    for (int os = 0; os < (lng ? 1 : 2); os++)
    {
      char *av[8] = { "prog" }, *bv[8] = { "prog" }; long c = i; int ac = n + 1;
      for (int k = 1; k <= n; k++, c /= lng ? NLT : NOT) av[k] = bv[k] = (char *) (lng ? LT[c % NLT] : OT[c % NOT]);
      av[ac] = bv[ac] = 0;
      char const *o = os ? "c::ab:" : "ab:c::"; char ref[16] = "+"; strcat (ref, o);
      static char name[300]; sprintf (name, "getopt%s \"%s\"", lng ? "_long" : "", o);
      for (int k = 1; k <= n; k++) { strcat (name, " "); strcat (name, qs (av[k])); }
      optind = 0; mes_optind = 0;
      for (int call = 0; call < 16; call++)
        {
          int r = 0, li = -5, fl, cr, wli = -5; evals++; nontriv += n > 1;
          mflag = 0; optarg = 0; int w = lng ? getopt_long (ac, bv, ref, LO, &wli) : getopt (ac, bv, ref); int wfl = mflag;
          mflag = 0;
          if ((cr = TRY (r = lng ? mes_getopt_long (ac, av, o, LO, &li) : mes_getopt (ac, av, o)))) { fail ("%s, call %d || signal %d", name, call, cr); goto next; }
          fl = mflag;
          if (r != w || mes_optind != optind || (w != -1 && w != '?' && (mes_optarg != optarg || li != wli || fl != wfl)))
            { fail ("%s, call %d || %d, optind %d, optarg %s, index %d, flag %d; not %d, %d, %s, %d, %d", name, call, r, mes_optind, qs (mes_optarg), li, fl, w, optind, qs (optarg), wli, wfl); goto next; }
          if (w == -1) break;
        }
      for (int k = 0; k <= ac; k++) if (av[k] != bv[k]) { fail ("%s || rearranges the arguments", name); break; }
      sample ("%s", name);
    next:;
    }
}

/* ---- executables along PATH ---- */
extern int mes_execl (char const *, char const *, ...), mes_execlp (char const *, char const *, ...);
static int exec_ok, exec_argc; static char *exec_copy[51];
static char execd[8192]; static char *const *exec_argv; static char **exec_env; static int exec_n;
int mes_execve (char const *f, char *const *argv, char *const *envp)
{
  exec_ok = argv[0] && argv[1] && !argv[2] && !strcmp (argv[0], "zero") && !strcmp (argv[1], "one"); exec_argc = 0; while (argv[exec_argc]) exec_argc++; if (exec_argc < 50) for (int k = 0; k <= exec_argc; k++) exec_copy[k] = argv[k];
  exec_n++; strncpy (execd, f, sizeof execd - 1); exec_argv = argv; exec_env = (char **) envp; mes_errno = 99; return -1;
}
static void mk (char const *p, int mode) { int fd = open (p, O_CREAT | O_WRONLY, 0600); write (fd, "#!x\n", 4); close (fd); chmod (p, mode); }
static void paths (int part, int parts)
{
  begin ("search");
  char cwd[PATH_MAX]; getcwd (cwd, sizeof cwd);
  static char dir[8][3000]; int nd = 0;
  mkdir ("d1", 0755); mkdir ("d2", 0755); mkdir ("d3", 0755); mkdir ("d4", 0755); mkdir ("d4/prog", 0755);
  mk ("d1/prog", 0755); mk ("d1/only1", 0755); mk ("d2/prog", 0755); mk ("d2/only2", 0755); mk ("d3/prog", 0644); mk ("here", 0755); mk ("d3/only1", 0644);
  sprintf (dir[nd++], "%s/d1", cwd); sprintf (dir[nd++], "%s/d2/", cwd); sprintf (dir[nd++], "%s/d3", cwd); sprintf (dir[nd++], "%s/d4", cwd);
  strcpy (dir[nd++], ""); strcpy (dir[nd++], "/nowhere");
  strcpy (dir[nd], "/"); for (int k = 0; k < 290; k++) strcat (dir[nd], "x"); nd++;
  strcpy (dir[nd++], "d1");
  static char const *FN[] = { "prog", "only1", "only2", "here", "none", "d1", "./d3/prog", "d2/prog" };
  int L = deep ? 4 : 3;
  for (int n = 0; n <= L; n++) for (long i = part; i < ipow (nd, n); i += parts) for (int f = 0; f < 8; f++)
    {
      static char env[16000]; char *e[2] = { env, 0 }; char *argv[] = { "zero", "one", 0 };
      strcpy (env, "PATH="); long c = i;
      char want[4096]; int found = 0, r = 0, cr;
      if (n == 0) { e[0] = "X=1"; }
      if (strchr (FN[f], '/')) { strcpy (want, FN[f]); found = 1; }
      for (int k = 0; k < n; k++, c /= nd)
        {
          char *d = dir[c % nd]; struct stat st;
          if (k) strcat (env, ":"); strcat (env, d);
          if (found) continue;
          sprintf (want, "%s%s%s", *d ? d : ".", *d && d[strlen (d) - 1] == '/' ? "" : "/", FN[f]);
          found = !stat (want, &st) && S_ISREG (st.st_mode) && (st.st_mode & 0111);
        }
      mes_environ = e; exec_n = 0; execd[0] = 0; mes_errno = 0; evals++; nontriv++;
      if ((cr = TRY (r = mes_execvp (FN[f], argv)))) { fail ("execvp %s with %s || signal %d", FN[f], e[0], cr); continue; }
      struct stat s1, s2;
      if (!found) { if (r != -1 || exec_n || (mes_errno != ENOENT && mes_errno != EACCES)) fail ("execvp %s with %s || %d, errno %d, executes %s", FN[f], e[0], r, mes_errno, execd); }
      else if (r != -1 || mes_errno != 99 || exec_n != 1 || exec_argv != argv && (strcmp (exec_argv[0], "zero") || strcmp (exec_argv[1], "one") || exec_argv[2]) || exec_env != e
               || (strcmp (execd, want) && (!(!stat (execd, &s1) && !stat (want, &s2) && s1.st_ino == s2.st_ino))))
        fail ("execvp %s with %s || executes %s, not %s (%d, errno %d)", FN[f], e[0], execd, want, r, mes_errno);
      sample ("execvp %s with %s", FN[f], e[0]);
      exec_n = 0; execd[0] = 0; mes_errno = 0; evals++;
      if ((cr = TRY (r = mes_execlp (FN[f], "zero", "one", (char *) 0)))) { fail ("execlp %s with %s || signal %d", FN[f], e[0], cr); continue; }
      if (!found) { if (r != -1 || exec_n) fail ("execlp %s with %s || %d, executes %s", FN[f], e[0], r, execd); }
      else if (r != -1 || mes_errno != 99 || exec_n != 1 || !exec_ok || exec_env != e || (strcmp (execd, want) && (!(!stat (execd, &s1) && !stat (want, &s2) && s1.st_ino == s2.st_ino))))
        fail ("execlp %s with %s || executes %s, not %s (%d, errno %d)%s", FN[f], e[0], execd, want, r, mes_errno, exec_ok ? "" : ", wrong arguments");
    }
}
static void lists (void)
{
  begin ("execl");
  static char *e[1]; char *t[] = { "a", "", "b c", "d", "e", "f", "g", "h", "i", "j", "k", "l" };
  for (int n = 1; n <= 12; n++)
    {
      char *v[13] = { 0 }; memcpy (v, t, n * sizeof *v); int r = 0, cr; mes_environ = e; exec_n = 0; exec_argc = -1; mes_errno = 0; evals++; nontriv++;
      cr = TRY (r = mes_execl ("/bin/file", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]));
      int bad = cr || r != -1 || mes_errno != 99 || exec_n != 1 || strcmp (execd, "/bin/file") || exec_argc != n || exec_env != e; for (int k = 0; !bad && k < n; k++) bad = exec_copy[k] != v[k];
      if (bad) fail ("execl with %d arguments || executes %s with %d, first %s; %d, errno %d, signal %d", n, execd, exec_argc, exec_argc > 0 ? qs (exec_copy[0]) : "", r, mes_errno, cr);
    }
}
int main (int argc, char **argv)
{
  h_init (); deep = argc > 2;
  int part = atoi (argv[1]), parts = 8;
  env (part, parts); sorts (part, parts); opts (part, parts); paths (part, parts); if (!part) lists ();
  return h_done ();
}
