/* System call wrappers of the Mes C Library against a recording kernel: every wrapper, argument patterns, every answer. */
#include "h.h"
#include <sys/resource.h>
extern int mes_errno;
static long rec[64][7]; static int nrec; static long answer[64], def_answer; static int nanswer;
static void (*effect) (long nr, long *a);
static long entry (long nr, int n, long a, long b, long c, long d)
{
  if (nr == 12) return mes_brk ((void *) a);
  int k = nrec < 63 ? nrec++ : 63; long v[4] = { a, b, c, d };
  rec[k][0] = nr; rec[k][5] = n; for (int i = 0; i < 4; i++) rec[k][1 + i] = v[i];
  if (effect) effect (nr, v);
  return k < nanswer ? answer[k] : def_answer;
}
static void back (void) { static char *none[1]; lib_back (); mes_environ = none; mes___stdin = 0; mes___stdout = 1; mes___stderr = 2; }
static long ret (long r) { if (r < 0) { mes_errno = -r; return -1; } mes_errno = 0; return r; }
#define U 0x7ace7ace7ace7aceL
long mes___sys_call (long n) { return entry (n, 0, U, U, U, U); } long mes__sys_call (long n) { return ret (mes___sys_call (n)); }
long mes___sys_call1 (long n, long a) { return entry (n, 1, a, U, U, U); } long mes__sys_call1 (long n, long a) { return ret (mes___sys_call1 (n, a)); }
long mes___sys_call2 (long n, long a, long b) { return entry (n, 2, a, b, U, U); } long mes__sys_call2 (long n, long a, long b) { return ret (mes___sys_call2 (n, a, b)); }
long mes___sys_call3 (long n, long a, long b, long c) { return entry (n, 3, a, b, c, U); } long mes__sys_call3 (long n, long a, long b, long c) { return ret (mes___sys_call3 (n, a, b, c)); }
long mes___sys_call4 (long n, long a, long b, long c, long d) { return entry (n, 4, a, b, c, d); } long mes__sys_call4 (long n, long a, long b, long c, long d) { return ret (mes___sys_call4 (n, a, b, c, d)); }
long mes__write (int fd, void const *p, size_t n) { return entry (1, 3, fd, (long) p, n, U); }

/* ---- plain wrappers: one system call, the same arguments in order ---- */
typedef long (*F) (); /* called with exact types through casts below */
enum { I, L, P, Z }; /* int, long, pointer */
enum { RI, RL, RP };
#define X(name) extern long mes_##name ();
X(access)X(chmod)X(clock_gettime)X(execve)X(fork)X(fsync)X(gettimeofday)X(ioctl3)X(waitpid)X(getpid)X(kill)X(getdents)X(getegid)X(geteuid)X(getgid)X(getuid)X(getppid)X(getrusage)
X(mknod)X(nanosleep)X(pipe)X(readlink)X(setitimer)X(sigprocmask)X(chdir)X(rmdir)X(unlink)X(rename)X(link)X(symlink)X(mkdir)X(stat)X(lstat)X(fstat)X(setuid)X(setgid)X(_open3)X(_read)X(write)X(dup)X(dup2)X(close)X(lseek)X(read)
typedef struct { char const *name; F f; int nr, n, t[4], kn; long extra[2]; int rt; } W;
#define E(nm, nr, n, ...) { #nm, (F) mes_##nm, nr, n, __VA_ARGS__ }
static W const w[] = {
  E (access, 21, 2, { P, I }), E (chmod, 90, 2, { P, I }), E (clock_gettime, 228, 2, { I, P }), E (execve, 59, 3, { P, P, P }), E (fork, 57, 0, { 0 }), E (fsync, 74, 1, { I }),
  E (gettimeofday, 96, 2, { P, P }), E (ioctl3, 16, 3, { I, Z, L }), E (waitpid, 61, 3, { I, P, I }, 4, { 0 }), E (getpid, 39, 0, { 0 }), E (kill, 62, 2, { I, I }), E (getdents, 78, 3, { I, P, Z }),
  E (getegid, 108, 0, { 0 }), E (geteuid, 107, 0, { 0 }), E (getgid, 104, 0, { 0 }), E (getuid, 102, 0, { 0 }), E (getppid, 110, 0, { 0 }), E (getrusage, 98, 2, { I, P }),
  E (mknod, 133, 3, { P, I, Z }), E (nanosleep, 35, 2, { P, P }), E (pipe, 22, 1, { P }), E (readlink, 89, 3, { P, P, Z }, 0, { 0 }, RL), E (setitimer, 38, 3, { I, P, P }), E (sigprocmask, 14, 3, { I, P, P }, 4, { 8 }),
  E (chdir, 80, 1, { P }), E (rmdir, 84, 1, { P }), E (unlink, 87, 1, { P }), E (rename, 82, 2, { P, P }), E (link, 86, 2, { P, P }), E (symlink, 88, 2, { P, P }), E (mkdir, 83, 2, { P, I }),
  E (stat, 4, 2, { P, P }), E (lstat, 6, 2, { P, P }), E (fstat, 5, 2, { I, P }), E (setuid, 105, 1, { I }), E (setgid, 106, 1, { I }), E (_open3, 2, 3, { P, I, I }), E (_read, 0, 3, { I, P, Z }, 0, { 0 }, RL),
  E (write, 1, 3, { I, P, Z }, 0, { 0 }, RL), E (dup, 32, 1, { I }), E (dup2, 33, 2, { I, I }), E (close, 3, 1, { I }), E (lseek, 8, 3, { I, L, I }, 0, { 0 }, RL),
};
static long const ints[] = { 0, 1, 2, 3, 7, 0755, -1, -2, 100, 65535, 65536, INT_MAX, INT_MIN, 0x12345678 };
static long const longs[] = { 0, 1, 4096, -1, 0x7fffffff, 0x80000000L, 0xffffffffL, 0x123456789abcdefL, LONG_MAX, LONG_MIN };
static long const ptrs[] = { 0, 0x1000, 0x7ffff7ff1234L, 0x12340000L };
static char text0[] = "name", text1[] = "other"; static char area[3][4096];
static long call (W const *x, long *a)
{
  long r;
  /* all integer arguments travel in whole registers: the upper half of an int argument carries rubbish, as the ABI allows */
  long v[4]; for (int i = 0; i < 4; i++) v[i] = i < x->n && x->t[i] == I ? (long) ((unsigned long) (unsigned) a[i] | 0x5a5a5a5a00000000UL) : a[i];
  r = x->f (v[0], v[1], v[2], v[3]);
  return x->rt == RI ? (long) (int) r : r;
}
static char const *dom_name[] = { "int", "long", "pointer", "size" };
static int dom (int t, long const **p) { if (t == I) { *p = ints; return sizeof ints / 8; } if (t == P) { *p = ptrs; return 4; } *p = longs; return sizeof longs / 8; }
static void show (W const *x, long *a, char *b) { b += sprintf (b, "%s (", x->name); for (int i = 0; i < x->n; i++) b += sprintf (b, i ? ", %#lx" : "%#lx", a[i]); sprintf (b, ")"); }
static void one (W const *x, long *a, long ans)
{
  char b[200]; show (x, a, b);
  evals++; back (); nrec = 0; nanswer = 0; def_answer = ans; effect = 0; mes_errno = 77;
  long r = 0; int s = TRY (r = call (x, a));
  if (s) { fail ("%s, answer %ld || signal %d", b, ans, s); return; }
  long want = ans < 0 ? -1 : ans;
  if (x->rt == RI) want = (int) want;
  if (nrec != 1) fail ("%s, answer %ld || %d system calls", b, ans, nrec);
  else if (rec[0][0] != x->nr) fail ("%s, answer %ld || system call %ld, expected %d", b, ans, rec[0][0], x->nr);
  else
    {
      int kn = x->kn ? x->kn : x->n;
      if (rec[0][5] != kn) fail ("%s, answer %ld || %ld arguments passed, expected %d", b, ans, rec[0][5], kn);
      for (int i = 0; i < kn; i++)
        {
          long e = i < x->n ? a[i] : x->extra[i - x->n], g = rec[0][1 + i];
          if (i < x->n && x->t[i] == I ? (int) e != (int) g : e != g) fail ("%s, answer %ld || argument %d is %#lx", b, ans, i + 1, g);
        }
      if (r != want) fail ("%s, answer %ld || returned %ld, expected %ld", b, ans, r, want);
      if (ans < 0 && mes_errno != -ans) fail ("%s, answer %ld || errno %d, expected %ld", b, ans, mes_errno, -ans);
    }
  if (ans < 0) nontriv++;
  sample ("%s -> kernel %ld -> %ld", b, ans, r);
}
static void plain (W const *x)
{
  static long const okv[] = { 0, 1, 2, 3, 17, 255, 511, 512, 600, 4095, 4096, 65536, INT_MAX };
  static long const okl[] = { 0x80000000L, 0xffffffffL, 0x7ffff000000L };
  begin (x->name);
  long a[4] = { 0 }; long const *d[4]; int n[4], i[4];
  for (int k = 0; k < 4; k++) n[k] = k < x->n ? dom (x->t[k], &d[k]) : 1;
  for (i[0] = 0; i[0] < n[0]; i[0]++) for (i[1] = 0; i[1] < n[1]; i[1]++) for (i[2] = 0; i[2] < n[2]; i[2]++)
    {
      for (int k = 0; k < x->n; k++) a[k] = d[k][i[k]];
      one (x, a, 0); one (x, a, 1); one (x, a, -EINTR); one (x, a, -ENOENT);
    }
  for (int k = 0; k < x->n; k++) a[k] = x->t[k] == I ? 7 + k : x->t[k] == P ? (long) area[k] : 0x1000;
  if (x->n > 0 && x->t[0] == P) { a[0] = (long) text0; }
  for (long e = 1; e <= 4095; e++) one (x, a, -e);
  for (int k = 0; k < sizeof okv / 8; k++) one (x, a, okv[k]);
  if (x->nr == 8) for (int k = 0; k < sizeof okl / 8; k++) one (x, a, okl[k]);
}

/* ---- functions made of several, or with results of their own ---- */
extern char *mes_getcwd (char *, size_t); extern int mes_raise (int), mes_isatty (int), mes_wait (int *), mes_open (char const *, int, ...), mes_fcntl (int, int, ...), mes_ioctl (int, unsigned long, ...), mes_execv (char const *, char **); extern long mes_time (long *); extern unsigned mes_sleep (unsigned), mes_alarm (unsigned);
extern void *mes_signal (int, void *), *mes_opendir (char const *), *mes_readdir (void *); extern int mes_closedir (void *);
#define START(ans) (evals++, back (), nrec = 0, nanswer = 0, def_answer = (ans), effect = 0, mes_errno = 77)
static long eff_sec, eff_nsec; static char const *eff_text; static int eff_which;
static void e_timespec (long nr, long *a) { if (a[1]) { ((long *) a[1])[0] = eff_sec; ((long *) a[1])[1] = eff_nsec; } }
static void e_itimer (long nr, long *a) { if (nr == 38 && a[2]) { memset ((void *) a[2], 0, 32); ((long *) a[2])[2] = eff_sec; ((long *) a[2])[3] = eff_nsec; } }
static long seen[8];
static void e_itimer2 (long nr, long *a) { if (nr == 38 && a[1]) memcpy (seen, (void *) a[1], 32); e_itimer (nr, a); }
static void e_timespec2 (long nr, long *a) { if (a[0]) memcpy (seen, (void *) a[0], 16); e_timespec (nr, a); }
static void e_timeval (long nr, long *a) { if (a[0]) { ((long *) a[0])[0] = eff_sec; ((long *) a[0])[1] = eff_nsec; } }
static void e_cwd (long nr, long *a) { if (def_answer >= 0) memcpy ((void *) a[0], eff_text, strlen (eff_text) + 1); }
static void e_action (long nr, long *a) { memset (seen, 0, sizeof seen); if (a[1]) memcpy (seen, (void *) a[1], 32); if (a[2] && def_answer >= 0) { memset ((void *) a[2], 0, 32); ((long *) a[2])[0] = eff_sec; } }
static void composite (void)
{
  int s; long r;
  begin ("raise");
  for (int sig = 1; sig < 65; sig++) for (int e = 0; e < 40; e++)
    {
      START (-e); nanswer = 1; answer[0] = 4242; r = 0;
      s = TRY (r = mes_raise (sig));
      if (s || nrec != 2 || rec[0][0] != 39 || rec[1][0] != 62 || (int) rec[1][1] != 4242 || (int) rec[1][2] != sig || (int) r != (e ? -1 : 0) || e && mes_errno != e) fail ("raise (%d), answer %d || returned %ld, errno %d, %d calls, kill (%ld, %ld)", sig, -e, r, mes_errno, nrec, rec[1][1], rec[1][2]);
    }
  begin ("sleep");
  for (int i = 0; i < 14; i++) for (int e = 0; e < 2; e++) for (int rem = 0; rem < 4; rem++)
    {
      unsigned sec = ints[i]; START (e ? -EINTR : 0); effect = e_timespec2; eff_sec = rem; eff_nsec = 500; seen[0] = -1;
      s = TRY (r = mes_sleep (sec));
      if (s || nrec != 1 || rec[0][0] != 35 || (unsigned long) seen[0] != sec || seen[1] || (unsigned) r != (e ? rem : 0)) fail ("sleep (%u), %s, %d s left || returned %ld after nanosleep of %ld s %ld ns", sec, e ? "interrupted" : "done", rem, r, seen[0], seen[1]);
    }
  begin ("alarm");
  static long const usecs[] = { 0, 1, 499999, 500000, 999999 };
  for (int i = 0; i < 14; i++) for (int os = 0; os < 3; os++) for (int ou = 0; ou < 5; ou++) for (int e = 0; e < 2; e++)
    {
      unsigned sec = ints[i] & INT_MAX; START (e ? -EINVAL : 0); effect = e_itimer2; eff_sec = os; eff_nsec = usecs[ou]; seen[0] = -1;
      s = TRY (r = mes_alarm (sec));
      /* a pending alarm is never reported as none; otherwise the seconds, cut or rounded */
      int ok = e ? r == 0 : (os || usecs[ou]) ? r > 0 && (r == os || r == os + 1 && usecs[ou]) : r == 0;
      if (s || nrec != 1 || rec[0][0] != 38 || rec[0][1] != 0 || seen[0] || seen[1] || seen[2] != sec || seen[3] || !ok) fail ("alarm (%u), old %d.%06ld%s || returned %ld, set %ld.%06ld every %ld.%06ld", sec, os, usecs[ou], e ? ", refused" : "", r, seen[2], seen[3], seen[0], seen[1]);
    }
  begin ("time");
  for (int i = 0; i < sizeof longs / 8; i++) for (int p = 0; p < 2; p++) for (int e = 0; e < 2; e++)
    {
      long t = 555; START (e ? -EFAULT : 0); effect = e_timeval; eff_sec = longs[i]; eff_nsec = 999999;
      s = TRY (r = mes_time (p ? &t : 0));
      if (s || r != (e ? -1 : longs[i]) || p && t != (e ? 555 : longs[i])) fail ("time (%s) at %ld%s || returned %ld, stored %ld", p ? "&t" : "NULL", longs[i], e ? " refused" : "", r, t);
    }
  begin ("wait");
  for (int e = -133; e < 20; e++)
    {
      int st; START (e); s = TRY (r = mes_wait (&st));
      if (s || nrec != 1 || rec[0][0] != 61 || (int) rec[0][1] != -1 || rec[0][2] != (long) &st || (int) rec[0][3] || rec[0][4] || (int) r != (e < 0 ? -1 : e) || e < 0 && mes_errno != -e) fail ("wait, answer %d || returned %ld errno %d, wait4 (%ld, .., %ld)", e, r, mes_errno, rec[0][1], rec[0][3]);
    }
  begin ("getcwd");
  static char long_cwd[4200]; memset (long_cwd, 'd', 4090); long_cwd[0] = '/';
  for (int n = 2; n < 600; n += n < 20 ? 1 : 37) for (int sz = 0; sz < 4; sz++) for (int nul = 0; nul < 2; nul++)
    {
      static char dir[700], buf[700]; memset (dir, 'd', 700); dir[0] = '/'; dir[n - 1] = 0; long size = sz == 0 ? n : sz == 1 ? n - 1 : sz == 2 ? 512 : 1;
      int fits = size >= n; START (fits ? n : -ERANGE); effect = e_cwd; eff_text = dir; memset (buf, 1, sizeof buf);
      char *p = 0; s = TRY (p = mes_getcwd (nul ? 0 : buf, size));
      if (s) fail ("getcwd (%s, %ld) in a directory of %d characters || signal %d", nul ? "NULL" : "buffer", size, n - 1, s);
      else if (nrec && (rec[0][0] != 79 || rec[0][2] != size || !nul && rec[0][1] != (long) buf)) fail ("getcwd (%s, %ld) || passed %ld (%#lx, %ld)", nul ? "NULL" : "buffer", size, rec[0][0], rec[0][1], rec[0][2]);
      else if (fits ? !p || strcmp (p, dir) : p || mes_errno != ERANGE) fail ("getcwd (%s, %ld) in a directory of %d characters || %s, errno %d", nul ? "NULL" : "buffer", size, n - 1, qs (p), mes_errno);
    }
  for (int e = 1; e < 134; e++) { static char buf[10]; START (-e); s = TRY (r = (long) mes_getcwd (buf, 10)); if (s || r || mes_errno != e) fail ("getcwd, answer %d || returned %ld errno %d", -e, r, mes_errno); }
  begin ("isatty");
  for (int fd = -1; fd < 5; fd++) for (int e = 0; e < 134; e++) { START (-e); s = TRY (r = mes_isatty (fd)); if (s || nrec != 1 || rec[0][0] != 16 || (int) rec[0][1] != fd || rec[0][2] != 0x5401 || (int) r != !e || e && mes_errno != e) fail ("isatty (%d), answer %d || returned %ld, errno %d", fd, -e, r, mes_errno); }
  begin ("execv");
  for (int e = 1; e < 134; e++) { char *av[2] = { text0, 0 }; static char *ev[1]; START (-e); mes_environ = ev; s = TRY (r = mes_execv (text1, av)); if (s || nrec != 1 || rec[0][0] != 59 || rec[0][1] != (long) text1 || rec[0][2] != (long) av || rec[0][3] != (long) ev || (int) r != -1 || mes_errno != e) fail ("execv, answer %d || returned %ld, errno %d", -e, r, mes_errno); }
  begin ("signal");
  static void *hs[] = { (void *) 0, (void *) 1, (void *) 0x401234L, (void *) 0x7ffff7ff1234L };
  /* twice in a row: the first call must leave nothing behind for the second */
  for (int s1 = 0; s1 < 65; s1++) for (int s2 = 1; s2 < 65; s2++) for (int h = 0; h < 4; h++) for (int e = 0; e < 3; e++)
    {
      START (0); effect = e_action; void *r = 0; if (s1) TRY (mes_signal (s1, hs[2])); nrec = 0; evals++;
      def_answer = e == 1 ? -EINVAL : 0; eff_sec = (long) hs[e == 2 ? 2 : 0]; mes_errno = 77;
      s = TRY (r = mes_signal (s2, hs[h]));
      void *want = e == 1 ? (void *) -1 : hs[e == 2 ? 2 : 0];
      int flags_ok = seen[1] & 0x04000000 ? seen[2] != 0 : 1;
      if (s || nrec != 1 || rec[0][0] != 13 || (int) rec[0][1] != s2 || rec[0][4] != 8 || seen[0] != (long) hs[h] || seen[3] & ~(1L << (s2 - 1)) || r != want || e == 1 && mes_errno != EINVAL) fail ("signal (%d, h) then signal (%d, %p), answer %ld, old %#lx || returned %p, errno %d, action %#lx flags %#lx mask %#lx", s1, s2, hs[h], def_answer, eff_sec, r, mes_errno, seen[0], seen[1], seen[3]);
      else if (!flags_ok) fail ("signal (%d, %p) || no way back from the handler: flags %#lx restorer %#lx", s2, hs[h], seen[1], seen[2]);
    }
  /* variable arguments */
  begin ("open");
  for (int f = 0; f < 14; f++) for (int e = -133; e < 10; e++)
    {
      int fl = ints[f] & ~O_CREAT & ~3 | f % 3; START (e); s = TRY (r = mes_open (text0, fl));
      if (s || nrec != 1 || rec[0][0] != 2 || rec[0][1] != (long) text0 || (int) rec[0][2] != fl || (int) r != (e < 0 ? -1 : e) || e < 0 && mes_errno != -e) fail ("open (f, %#x), answer %d || returned %ld, errno %d, passed %#lx", fl, e, r, mes_errno, rec[0][2]);
      fl |= O_CREAT; START (e); s = TRY (r = mes_open (text0, fl, 0644));
      if (s || nrec != 1 || rec[0][0] != 2 || rec[0][1] != (long) text0 || (int) rec[0][2] != fl || (int) r != (e < 0 ? -1 : e) || e < 0 && mes_errno != -e) fail ("open (f, %#x, m), answer %d || returned %ld, errno %d, passed %#lx", fl, e, r, mes_errno, rec[0][2]);
      if ((int) rec[0][3] != 0644 && f == 0 && e == 5) fail ("open (f, O_CREAT, mode): the mode || not what was passed");
    }
  begin ("fcntl");
  for (int cmd = 0; cmd < 12; cmd++) for (int e = -133; e < 10; e++)
    {
      START (e); s = TRY (r = mes_fcntl (5, cmd, 9));
      if (s || nrec != 1 || rec[0][0] != 72 || (int) rec[0][1] != 5 || (int) rec[0][2] != cmd || (int) r != (e < 0 ? -1 : e) || e < 0 && mes_errno != -e) fail ("fcntl (5, %d, x), answer %d || returned %ld, errno %d", cmd, e, r, mes_errno);
      if (rec[0][3] != 9 && cmd == 0 && e == 5) fail ("fcntl (fd, command, data): the data || not what was passed");
    }
  begin ("ioctl");
  for (int i = 0; i < 10; i++) for (int e = -133; e < 10; e++)
    {
      START (e); s = TRY (r = mes_ioctl (5, longs[i], area[0]));
      if (s || nrec != 1 || rec[0][0] != 16 || (int) rec[0][1] != 5 || rec[0][2] != longs[i] || (int) r != (e < 0 ? -1 : e) || e < 0 && mes_errno != -e) fail ("ioctl (5, %#lx, p), answer %d || returned %ld, errno %d", longs[i], e, r, mes_errno);
      if (rec[0][3] != (long) area[0] && i == 0 && e == 5) fail ("ioctl (fd, request, data): the data || not what was passed");
    }
}

/* ---- directories: every listing of a few entries cut into every sequence of answers ---- */
static int ents[8], nents, cuts[8], ncut, dpos, dfail_at, dcalls;
static int put_ent (char *p, int i)
{
  int nl = 1 + i % 5, len = (18 + nl + 2 + 7) & ~7; memset (p, 0, len); *(long *) p = ents[i] ? 100 + i : 0; *(long *) (p + 8) = i + 1; *(short *) (p + 16) = len; for (int k = 0; k < nl; k++) p[18 + k] = 'a' + i; return len;
}
static void e_dir (long nr, long *a)
{
  def_answer = -ENOSYS;
  if (nr == 2) def_answer = 5;
  else if (nr == 5) { memset ((void *) a[1], 0, 144); *(long *) (a[1] + 56) = 4096; *(unsigned *) (a[1] + 24) = 040755; def_answer = 0; }
  else if (nr == 72 || nr == 3) def_answer = 0;
  else if (nr == 78)
    {
      int k = dcalls++;
      if (k == dfail_at) { def_answer = -EIO; return; }
      int n = k < ncut ? cuts[k] : nents; char *p = (char *) a[1]; while (n-- && dpos < nents) p += put_ent (p, dpos++); def_answer = p - (char *) a[1];
    }
}
static void directories (void)
{
  begin ("readdir");
  for (nents = 0; nents <= 6; nents++)
    for (int dead = 0; dead < 1 << nents; dead++)
      for (int comp = 0; comp < 1 << (nents ? nents - 1 : 0); comp++)
        for (dfail_at = -1; dfail_at < 3; dfail_at++)
          {
            for (int i = 0; i < nents; i++) ents[i] = !(dead >> i & 1);
            ncut = 0; int run = 1; for (int i = 0; i < nents; i++) { if (i == nents - 1 || comp >> i & 1) { cuts[ncut++] = run; run = 1; } else run++; }
            evals++; back (); nrec = nanswer = 0; effect = e_dir; dpos = dcalls = 0;
            void *d = 0; char got[64] = "", want[64] = ""; int s = TRY (d = mes_opendir ("dir")); int er = 0, want_er = 0;
            int p = 0; for (int k = 0; ; k++) { if (k == dfail_at) { want_er = EIO; break; } if (k >= ncut) break; for (int n = 0; n < cuts[k]; n++, p++) if (ents[p]) sprintf (want + strlen (want), "%.*s ", 1 + p % 5, (char[8]) { 'a' + p, 'a' + p, 'a' + p, 'a' + p, 'a' + p, 0 }); }
            if (!s && d) { for (int n = 0; n < 9; n++) { char *e = 0; mes_errno = 0; s = TRY (e = mes_readdir (d)); if (s || !e) { er = mes_errno; break; } sprintf (got + strlen (got), "%.6s ", e + 18); } }
            int cl = -9; if (!s && d) s = TRY (cl = mes_closedir (d));
            if (s || !d || cl || strcmp (got, want) || er != want_er) fail ("%d entries, absent %#x, answers split at %#x, failure at answer %d || listed %s, expected %s; errno %d, expected %d; signal %d, closedir %d", nents, dead, comp, dfail_at, qs (got), qs (want), er, want_er, s, cl);
            if (rec[nrec - 1][0] != 3 || (int) rec[nrec - 1][1] != 5) fail ("closedir || did not close the descriptor");
          }
  begin ("closedir");
  for (int e = 0; e < 134; e++)
    {
      evals++; back (); nrec = 0; effect = 0; nanswer = 3; answer[0] = 5; answer[1] = answer[2] = 0; def_answer = 0; mes_errno = 0;
      void *d = 0; int cl = -9, s = TRY (d = mes_opendir ("dir"));
      if (s || !d) { fail ("opendir || %p, signal %d", d, s); continue; }
      nrec = nanswer = 0; def_answer = -e; mes_errno = 0; s = TRY (cl = mes_closedir (d));
      int ncl = 0; for (int i = 0; i < nrec; i++) if (rec[i][0] == 3) ncl += (int) rec[i][1] == 5 ? 1 : 99;
      if (s || cl != (e ? -1 : 0) || (e && mes_errno != e) || ncl != 1) fail ("closedir, close answers %d || %d, errno %d, %d calls of close, signal %d", -e, cl, mes_errno, ncl, s);
    }
  begin ("opendir");
  for (int k = 0; k < 3; k++) for (int e = 1; e < 134; e++)
    {
      evals++; back (); nrec = 0; effect = 0; nanswer = 3; answer[0] = 5; answer[1] = answer[2] = 0; answer[k] = -e; def_answer = 0; mes_errno = 0;
      void *d = &d; int s = TRY (d = mes_opendir ("dir"));
      int closed = nrec && rec[nrec - 1][0] == 3 && (int) rec[nrec - 1][1] == 5;
      if (s || d || mes_errno != e || (k > 0) != closed) fail ("opendir, call %d answered %d || %p, errno %d, %s, signal %d", k, -e, d, mes_errno, closed ? "closed" : "not closed", s);
    }
}
int main (int argc, char **argv)
{
  int part = atoi (argv[1]); h_init ();
  int nw = sizeof w / sizeof *w;
  for (int i = 0; i < nw; i++) if (i % 7 == part) plain (&w[i]);
  if (part == 7) { composite (); directories (); }
  return h_done ();
}
