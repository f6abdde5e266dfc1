/* The Mes C Library on the real kernel, next to the system's library: two equal trees, one for each; as an unprivileged user, inside the working directory. */
#include "h.h"
#include <dirent.h>
#include <grp.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
static int deep;
extern int mes_errno;
extern int mes_access (char const *, int), mes_stat (char const *, void *), mes_lstat (char const *, void *), mes_fstat (int, void *), mes_chmod (char const *, int), mes_mkdir (char const *, int), mes_rmdir (char const *), mes_unlink (char const *), mes_remove (char const *),
  mes_open (char const *, int, ...), mes_close (int), mes_chdir (char const *), mes_mknod (char const *, int, long), mes_rename (char const *, char const *), mes_link (char const *, char const *), mes_symlink (char const *, char const *), mes_closedir (void *), mes_dup (int), mes_dup2 (int, int), mes_pipe (int *), mes_fsync (int),
  mes_fork (void), mes_waitpid (int, int *, int), mes_wait (int *), mes_execve (char const *, char **, char **), mes_getpid (void), mes_getppid (void), mes_getuid (void), mes_geteuid (void), mes_getgid (void), mes_getegid (void), mes_gettimeofday (void *, void *), mes_clock_gettime (int, void *), mes_getrusage (int, void *), mes_setitimer (int, void *, void *), mes_nanosleep (void *, void *), mes_isatty (int), mes_fcntl (int, int, ...), mes_sigprocmask (int, void *, void *), mes_raise (int);
extern long mes_readlink (char const *, char *, size_t), mes_read (int, void *, size_t), mes_write (int, void const *, size_t), mes_lseek (int, long, int), mes_time (long *); extern void *mes_opendir (char const *), *mes_readdir (void *), *mes_signal (int, void *); extern char *mes_getcwd (char *, size_t); extern unsigned mes_sleep (unsigned), mes_alarm (unsigned); extern void mes__exit (int), mes_exit (int);
extern long acc_stat (void *, int), acc_ino (void *), acc_tv (void *, int), acc_ts (void *, int), acc_ru (void *, int); extern char *acc_name (void *);
static char const *NM[] = { "f", "no", "d", "e", "l", "d/x", "dl", "f/x", "", "loop", "locked", "locked/x", "secret", "d/new", "LONG", "fifo" };
enum { NN = 16 };
static char longname[320];
static char const *nm (int i) { return i == 14 ? longname : NM[i]; }
static void wr (char const *n, char const *t, int m) { int fd = open (n, O_CREAT | O_WRONLY | O_TRUNC, m); write (fd, t, strlen (t)); close (fd); chmod (n, m); }
static void tree (char const *root)
{
  mkdir (root, 0755); if (chdir (root)) abort ();
  wr ("f", "contents", 0644); wr ("secret", "s", 0); mkdir ("d", 0755); wr ("d/x", "xx", 0600); mkdir ("e", 0711); symlink ("f", "l"); symlink ("nothing", "dl"); symlink ("loop", "loop"); mkfifo ("fifo", 0640);
  mkdir ("locked", 0755); wr ("locked/x", "y", 0644); chmod ("locked", 0);
  chdir ("..");
}
static void wipe (char const *d)
{
  chmod (d, 0700);
  DIR *p = opendir (d); struct dirent *e; if (!p) return; char b[1000]; struct stat st;
  while ((e = readdir (p))) { if (!strcmp (e->d_name, ".") || !strcmp (e->d_name, "..")) continue; snprintf (b, 1000, "%s/%s", d, e->d_name); if (!lstat (b, &st) && S_ISDIR (st.st_mode)) wipe (b); else unlink (b); }
  closedir (p); rmdir (d);
}
static int cmpstr (void const *a, void const *b) { return strcmp (*(char **) a, *(char **) b); }
static void snap (char const *d, char *o, int strip)
{
  DIR *p = opendir (d); struct dirent *e; char b[1000], l[400]; struct stat st; char *names[64]; int n = 0;
  if (!p) return;
  while ((e = readdir (p)) && n < 64) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) names[n++] = strdup (e->d_name);
  closedir (p); qsort (names, n, sizeof *names, cmpstr);
  for (int i = 0; i < n; i++)
    {
      snprintf (b, 1000, "%s/%s", d, names[i]); free (names[i]); lstat (b, &st);
      o += strlen (o); int k = S_ISLNK (st.st_mode) ? readlink (b, l, 399) : 0; l[k > 0 ? k : 0] = 0;
      sprintf (o, "%s %o %ld %d %s; ", b + strip, st.st_mode, S_ISDIR (st.st_mode) ? 0L : (long) st.st_size, (int) st.st_nlink, l);
      if (S_ISDIR (st.st_mode)) { if (!(st.st_mode & 0500)) continue; snap (b, o + strlen (o), strip); }
    }
}
typedef struct { char const *name; int two, nvar; } Op;
static int const OF[] = { O_RDONLY, O_WRONLY, O_RDWR, O_WRONLY | O_CREAT, O_RDWR | O_CREAT | O_TRUNC, O_WRONLY | O_CREAT | O_EXCL, O_RDONLY | O_DIRECTORY, O_WRONLY | O_TRUNC, O_WRONLY | O_APPEND };
static int const MODES[] = { 0, 0755, 0644, 0777, 0400 };
static Op const ops[] = { { "access", 0, 5 }, { "stat", 0, 1 }, { "lstat", 0, 1 }, { "readlink", 0, 4 }, { "chmod", 0, 5 }, { "mkdir", 0, 5 }, { "rmdir", 0, 1 }, { "unlink", 0, 1 }, { "remove", 0, 1 }, { "open", 0, 9 * 2 }, { "chdir", 0, 1 }, { "mkfifo", 0, 2 }, { "opendir", 0, 1 },
  { "rename", 1, 1 }, { "link", 1, 1 }, { "symlink", 1, 1 } };
enum { NOPS = sizeof ops / sizeof *ops };
static int id_op[2000], id_var[2000], id_a[2000], id_b[2000], nid;
/* Performs one operation; a description of everything the caller sees goes to O. */
static void perform (int id, int mes, char *o)
{
  int v = id_var[id]; char const *a = nm (id_a[id]), *b = nm (id_b[id]); long r = -99; char buf[600]; struct stat st; int e;
#define C(x, y) (mes_errno = 0, errno = 0, r = mes ? (x) : (y), e = mes ? mes_errno : errno)
  *o = 0; memset (buf, 0x55, sizeof buf); memset (&st, 0x55, sizeof st);
  switch (id_op[id])
    {
    case 0: C (mes_access (a, v ? 1 << v >> 1 : F_OK), access (a, v ? 1 << v >> 1 : F_OK)); break;
    case 1: C (mes_stat (a, &st), stat (a, &st)); break;
    case 2: C (mes_lstat (a, &st), lstat (a, &st)); break;
    case 3: { static int const sz[] = { 0, 1, 3, 500 }; C (mes_readlink (a, buf, sz[v]), readlink (a, buf, sz[v])); o += sprintf (o, "%s ", q (buf, r > 0 ? r + 1 : 1)); break; }
    case 4: C (mes_chmod (a, MODES[v]), chmod (a, MODES[v])); break;
    case 5: C (mes_mkdir (a, MODES[v]), mkdir (a, MODES[v])); break;
    case 6: C (mes_rmdir (a), rmdir (a)); break;
    case 7: C (mes_unlink (a), unlink (a)); break;
    case 8: C (mes_remove (a), remove (a)); break;
    case 9:
      {
        int fl = OF[v % 9] | O_NONBLOCK, m = v / 9 ? 0600 : 0755;
        C (mes_open (a, fl, m), open (a, fl, m));
        if (r >= 0) { long n = -1; if ((fl & 3) != O_WRONLY) n = mes ? mes_read (r, buf, 20) : read (r, buf, 20); o += sprintf (o, "read %ld %s ", n, q (buf, n > 0 ? n : 0)); if ((fl & 3)) n = mes ? mes_write (r, "W", 1) : write (r, "W", 1);
            long p = mes ? mes_lseek (r, 0, SEEK_CUR) : lseek (r, 0, SEEK_CUR), q2 = mes ? mes_lseek (r, -1, SEEK_END) : lseek (r, -1, SEEK_END); o += sprintf (o, "%ld at %ld end %ld ", n, p, q2); if (mes) mes_close (r); else close (r); r = 100; }
        break;
      }
    case 10: { int h = open (".", O_RDONLY); C (mes_chdir (a), chdir (a)); if (!r) { struct stat s2; stat (".", &s2); fchdir (h); stat (a, &st); o += sprintf (o, "%d ", st.st_ino == s2.st_ino); } close (h); fchdir (h); memset (&st, 0x55, sizeof st); break; }
    case 11: C (mes_mknod (a, S_IFIFO | MODES[v + 1], 0), mknod (a, S_IFIFO | MODES[v + 1], 0)); break;
    case 12:
      {
        void *d = mes ? mes_opendir (a) : opendir (a); e = mes ? mes_errno : errno; r = !!d ? 0 : -1;
        char *l[40]; int n = 0; if (d) for (;;) { void *p = mes ? mes_readdir (d) : readdir (d); if (!p) break; if (n < 40) l[n++] = strdup (mes ? acc_name (p) : ((struct dirent *) p)->d_name); }
        qsort (l, n, sizeof *l, cmpstr); for (int i = 0; i < n; i++) { o += sprintf (o, "%.30s ", l[i]); free (l[i]); }
        if (d) o += sprintf (o, "%d ", mes ? mes_closedir (d) : closedir (d)); break;
      }
    case 13: C (mes_rename (a, b), rename (a, b)); break;
    case 14: C (mes_link (a, b), link (a, b)); break;
    case 15: C (mes_symlink (a, b), symlink (a, b)); break;
    }
  o += sprintf (o, "= %ld errno %d", r, r < 0 ? e : 0);
  if ((id_op[id] == 1 || id_op[id] == 2) && !r)
    for (int i = 0; i < 16; i++)
      {
        long x[] = { st.st_dev, 0, st.st_mode, st.st_nlink, st.st_uid, st.st_gid, st.st_rdev, st.st_size, st.st_blksize, st.st_blocks, 0, 0, sizeof st, !!S_ISDIR (st.st_mode), !!S_ISREG (st.st_mode), !!S_ISFIFO (st.st_mode) };
        if (i == 1 || i == 10 || i == 11) { if (mes) { struct stat s2; id_op[id] == 1 ? stat (a, &s2) : lstat (a, &s2); long g = acc_stat (&st, i), w = i == 1 ? s2.st_ino : i == 10 ? s2.st_mtime : s2.st_ctime; if (g != w) o += sprintf (o, " field %d is %ld, expected %ld", i, g, w); } continue; }
        o += sprintf (o, " %ld", mes ? acc_stat (&st, i) : x[i]);
      }
}
static void describe (int id, char *o) { Op const *p = &ops[id_op[id]]; if (p->two) sprintf (o, "%s (%.20s, %.20s)", p->name, nm (id_a[id]), nm (id_b[id])); else sprintf (o, "%s#%d (%.20s)", p->name, id_var[id], nm (id_a[id])); }
static void files (int part, int parts)
{
  begin ("files");
  memset (longname, 'n', 300);
  for (int o = 0; o < NOPS; o++) for (int v = 0; v < ops[o].nvar; v++) for (int a = 0; a < NN; a++) for (int b = 0; b < (ops[o].two ? NN : 1); b++) { id_op[nid] = o; id_var[nid] = v; id_a[nid] = a; id_b[nid] = b; nid++; }
  static int first[2000]; int nfirst = 0;
  static char s0[60000], sa[60000], sb[60000], oa[9000], ob[9000], d1[200], d2[200], base[60000];
  *base = 0; wipe ("A"); tree ("A"); snap ("A", base, 2); wipe ("A");
  /* what changes the tree may come first in a sequence of two */
  int home = open (".", O_RDONLY);
  for (int i = 0; i < nid; i++)
    {
      tree ("A"); chdir ("A"); perform (i, 0, ob); fchdir (home); *sb = 0; snap ("A", sb, 2); if (strcmp (sb, base)) first[nfirst++] = i; wipe ("A");
    }
  long n = 0;
  for (int k = -1; k < (deep ? nfirst : nfirst); k++)
    for (int i = 0; i < nid; i++)
      {
        /* after a first operation, only those on a name it touched */
        if (k >= 0)
          {
            int f = first[k]; int rel = id_a[i] == id_a[f] || id_b[i] == id_a[f] && ops[id_op[i]].two || ops[id_op[f]].two && (id_a[i] == id_b[f] || id_b[i] == id_b[f] && ops[id_op[i]].two);
            if (!rel || !deep && (id_var[f] > 0 || id_var[i] > 0 || id_a[f] > 5 || id_b[f] > 3 || ops[id_op[i]].two)) continue;
          }
        if (n++ % parts != part) continue;
        evals++; nontriv += k >= 0;
        tree ("A"); tree ("B"); *oa = *ob = *d1 = 0; int s;
        chdir ("A"); s = TRY (if (k >= 0) perform (first[k], 1, oa)); fchdir (home); chdir ("B"); if (k >= 0) { perform (first[k], 0, ob); describe (first[k], d1); strcat (d1, "; "); } fchdir (home); describe (i, d2);
        if (!s && !strcmp (oa, ob))
          { chdir ("A"); s = TRY (perform (i, 1, oa)); fchdir (home); chdir ("B"); perform (i, 0, ob); fchdir (home); }
        *sa = *sb = 0; snap ("A", sa, 2); snap ("B", sb, 2);
        if (s || strcmp (oa, ob) || strcmp (sa, sb)) fail ("%s%s || %s, expected %s, signal %d%s%s%s%s", d1, d2, oa, ob, s, strcmp (sa, sb) ? "; tree " : "", strcmp (sa, sb) ? sa : "", strcmp (sa, sb) ? " expected " : "", strcmp (sa, sb) ? sb : "");
        sample ("%s%s %s", d1, d2, oa);
        wipe ("A"); wipe ("B");
      }
}
static volatile int handled, handled_with; static void on_sig (int s) { handled++; handled_with = s; }
static long now (void) { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000 + t.tv_nsec / 1000; }
static void processes (void)
{
  begin ("processes");
  int st, st2;
  /* every exit code; the ways to wait */
  for (int code = 0; code < 300; code++) for (int way = 0; way < 3; way++)
    {
      evals++; nontriv++; int pid = mes_fork (); if (!pid) { if (way == 1) _exit (code); mes__exit (code); }
      st = 0x55555555; int r = way == 2 ? mes_wait (&st) : mes_waitpid (pid, &st, 0);
      if (pid <= 0 || r != pid || !WIFEXITED (st) || WEXITSTATUS (st) != (code & 255)) fail ("child exits %d, way %d || pid %d, waited %d, status %#x", code, way, pid, r, st);
    }
  for (int sig = 1; sig < 32; sig++)
    {
      if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH || sig == SIGSTOP || sig == SIGTSTP || sig == SIGTTIN || sig == SIGTTOU) continue;
      evals++; int pid = mes_fork (); if (!pid) { signal (sig, SIG_DFL); struct rlimit l = { 0, 0 }; setrlimit (RLIMIT_CORE, &l); mes_raise (sig); _exit (0); }
      int r = mes_waitpid (pid, &st, 0); if (r != pid || !WIFSIGNALED (st) || WTERMSIG (st) != sig) fail ("child raises %d || waited %d, status %#x", sig, r, st);
    }
  { evals++; int p[2]; mes_pipe (p); int pid = mes_fork (); if (!pid) { char c; read (p[0], &c, 1); _exit (3); } struct sigaction sa = { .sa_handler = on_sig }; sigaction (SIGALRM, &sa, 0); alarm (20); int r = mes_waitpid (-1, &st, WNOHANG); alarm (0); signal (SIGALRM, SIG_DFL); write (p[1], "x", 1); int r2 = mes_waitpid (pid, &st, 0); if (r || r2 != pid || WEXITSTATUS (st) != 3) fail ("WNOHANG || %d then %d", r, r2); close (p[0]); close (p[1]);
    mes_errno = 0; r = mes_wait (&st); if (r != -1 || mes_errno != ECHILD) fail ("wait without children || %d, errno %d", r, mes_errno); r = mes_waitpid (1, &st, 0); if (r != -1 || mes_errno != ECHILD) fail ("waitpid of another || %d, errno %d", r, mes_errno); }
  /* execve: arguments and environment arrive, descriptors stay */
  for (int n = 0; n < 4; n++)
    {
      int p[2]; evals++; if (mes_pipe (p)) fail ("pipe || failed");
      int pid = mes_fork (); if (!pid) { mes_dup2 (p[1], 1); char *av[] = { "sh", "-c", "echo \"$0 $1 $X $Y\"", "a b", "c", 0 }; char *ev[] = { "X=1", "Y=z z", 0 }; av[3 + (n < 3 ? n : 2)] = 0; ev[n < 3 ? n : 2] = 0; mes_execve ("/bin/sh", av, ev); _exit (99); }
      mes_close (p[1]); char b[100] = "", w[100]; int k = 0, r; while ((r = mes_read (p[0], b + k, 99 - k)) > 0) k += r; mes_close (p[0]); mes_waitpid (pid, &st, 0);
      snprintf (w, 100, "%s %s %s %s\n", n > 0 ? "a b" : "sh", n > 1 ? "c" : "", n > 0 ? "1" : "", n > 1 ? "z z" : ""); if (strcmp (b, w) || st) fail ("execve %d || wrote %s, expected %s, status %#x", n, qs (b), qs (w), st);
    }
  static struct { char const *f; int e; } const X[] = { { "nothere", ENOENT }, { ".", EACCES }, { "plain", EACCES }, { "junk", ENOEXEC }, { "plain/x", ENOTDIR } };
  wr ("plain", "text", 0644); wr ("junk", "junk", 0755);
  for (int i = 0; i < 5; i++) { char *av[] = { "x", 0 }; evals++; mes_errno = 0; int r = mes_execve (X[i].f, av, av + 1); if (r != -1 || mes_errno != X[i].e) fail ("execve (%s) || %d, errno %d", X[i].f, r, mes_errno); }
  if (mes_getpid () != getpid () || mes_getppid () != getppid () || mes_getuid () != getuid () || mes_geteuid () != geteuid () || mes_getgid () != getgid () || mes_getegid () != getegid ()) fail ("identity || getpid and the others");
  /* handlers: called with the signal, return to where they interrupted, stay set, can be ignored, and give the previous */
  static int const S[] = { SIGUSR1, SIGUSR2, SIGHUP, SIGINT, SIGTERM, SIGALRM, SIGCHLD, SIGPIPE, SIGWINCH };
  for (int i = 0; i < 9; i++) for (int n = 1; n < 4; n++)
    {
      evals++; handled = handled_with = 0; void *p = 0, *p2 = 0; int s;
      p = mes_signal (S[i], on_sig); s = TRY (for (int k = 0; k < n; k++) mes_raise (S[i])); p2 = mes_signal (S[i], (void *) 0);
      if (s || p != (void *) 0 || p2 != (void *) on_sig || handled != n || handled_with != S[i]) fail ("signal %d raised %d times || handled %d, with %d; previous %p then %p; crash %d", S[i], n, handled, handled_with, p, p2, s);
      mes_signal (S[i], (void *) 1); raise (S[i]); mes_signal (S[i], (void *) 0);
    }
  { void *p; evals++; if ((p = mes_signal (SIGKILL, on_sig)) != (void *) -1 || mes_errno != EINVAL) fail ("signal of SIGKILL || %p, errno %d", p, mes_errno); if ((p = mes_signal (1000, on_sig)) != (void *) -1 || mes_errno != EINVAL) fail ("signal 1000 || %p, errno %d", p, mes_errno); }
  { unsigned long m = 1UL << (SIGUSR1 - 1), old = 7, now_ = 0; evals++; handled = 0; mes_signal (SIGUSR1, on_sig); int r = mes_sigprocmask (SIG_BLOCK, &m, &old); raise (SIGUSR1); int h = handled; int r2 = mes_sigprocmask (SIG_SETMASK, &old, &now_); if (r || r2 || h || handled != 1 || now_ != (old | m)) fail ("sigprocmask || %d %d, handled %d then %d, masks %lx %lx, errno %d", r, r2, h, handled, old, now_, mes_errno); }
  /* time */
  { evals++; long tv[2], ts[2], t = 0; struct timeval a; struct timespec b; gettimeofday (&a, 0); int r = mes_gettimeofday (tv, 0); if (r || acc_tv (tv, 0) - a.tv_sec > 2 || acc_tv (tv, 0) < a.tv_sec || acc_tv (tv, 1) >= 1000000) fail ("gettimeofday || %d: %ld %ld", r, acc_tv (tv, 0), acc_tv (tv, 1));
    clock_gettime (CLOCK_MONOTONIC, &b); r = mes_clock_gettime (CLOCK_MONOTONIC, ts); if (r || acc_ts (ts, 0) < b.tv_sec || acc_ts (ts, 0) > b.tv_sec + 2) fail ("clock_gettime || %d: %ld, expected %ld", r, acc_ts (ts, 0), b.tv_sec); long t2 = mes_time (&t); if (t2 != t || t < a.tv_sec || t > a.tv_sec + 3) fail ("time || %ld %ld", t2, t); }
  { evals++; struct rusage a; long b[40]; memset (b, 0x55, sizeof b); int r = mes_getrusage (RUSAGE_SELF, b); getrusage (RUSAGE_SELF, &a); if (r || acc_ru (b, 0) > a.ru_utime.tv_sec || acc_ru (b, 4) > a.ru_maxrss || acc_ru (b, 4) < 100 || acc_ru (b, 5) > a.ru_minflt || acc_ru (b, 5) < a.ru_minflt - 100 || acc_ru (b, 7) > a.ru_nvcsw || acc_ru (b, 7) < a.ru_nvcsw - 20 || acc_ru (b, 9) != sizeof a) fail ("getrusage || %d: maxrss %ld minflt %ld (%ld %ld)", r, acc_ru (b, 4), acc_ru (b, 5), a.ru_maxrss, a.ru_minflt); }
  { evals++; long ts[2] = { 0, 30000000 }, t0 = now (); int r = mes_nanosleep (ts, 0); long d = now () - t0; if (r || d < 29000 || d > 5000000) fail ("nanosleep of 30 ms || %d after %ld us", r, d); t0 = now (); r = mes_sleep (0); d = now () - t0; if (r || d > 900000) fail ("sleep (0) || %d after %ld us", r, d); }
  { evals++; handled = 0; mes_signal (SIGALRM, on_sig); long it[4] = { 0, 0, 0, 20000 }, old[4], t0 = now (); int r = mes_setitimer (0, it, 0); unsigned left = mes_sleep (3); long d = now () - t0; if (r || handled != 1 || left < 2 || left > 3 || d > 2500000) fail ("setitimer interrupts sleep (3) || %d, handled %d, %u left, %ld us", r, handled, left, d);
    unsigned x = mes_alarm (50), y = mes_alarm (0), z = mes_alarm (0); if (x || y < 49 || y > 50 || z) fail ("alarm || %u %u %u", x, y, z); }
  /* descriptors */
  { evals++; int p[2]; mes_pipe (p); if (p[1] == p[0] || mes_write (p[1], "ab", 2) != 2) fail ("pipe || %d %d", p[0], p[1]); int d = mes_dup (p[0]); char b[4] = ""; if (mes_read (d, b, 1) != 1 || b[0] != 'a') fail ("dup || %d %s", d, b); if (mes_read (p[0], b, 1) != 1 || b[0] != 'b') fail ("dup shares || %s", b);
    int fl = mes_fcntl (d, F_GETFD); int r = mes_fcntl (d, F_SETFD, FD_CLOEXEC); int f2 = mes_fcntl (d, F_GETFD, 0); if (fl || r || f2 != FD_CLOEXEC || fcntl (d, F_GETFD) != FD_CLOEXEC) fail ("fcntl F_SETFD || %d %d %d", fl, r, f2);
    int e = mes_fcntl (d, F_DUPFD, 300); if (e < 300) fail ("fcntl F_DUPFD || %d", e); struct flock lk = { F_WRLCK, SEEK_SET, 0, 0 }; int h = mes_open ("plain", O_RDWR); r = mes_fcntl (h, F_SETLK, &lk); lk.l_type = F_WRLCK; int r2 = mes_fcntl (h, F_GETLK, &lk); if (r || r2 || lk.l_type != F_UNLCK) fail ("fcntl F_SETLK || %d %d %d", r, r2, lk.l_type);
    if (mes_fsync (h) || mes_fsync (p[0]) != -1 || mes_errno != EINVAL) fail ("fsync || errno %d", mes_errno); if (mes_isatty (h) || mes_errno != ENOTTY || mes_isatty (999) || mes_errno != EBADF) fail ("isatty || errno %d", mes_errno);
    if (mes_lseek (p[0], 0, SEEK_CUR) != -1 || mes_errno != ESPIPE) fail ("lseek of a pipe || errno %d", mes_errno); char cwd[600], want[600]; getcwd (want, 600); if (!mes_getcwd (cwd, 600) || strcmp (cwd, want) || mes_getcwd (cwd, 3) || mes_errno != ERANGE) fail ("getcwd || %s, errno %d", cwd, mes_errno);
    mes_close (e); mes_close (d); mes_close (p[0]); mes_close (p[1]); mes_close (h); if (mes_close (h) != -1 || mes_errno != EBADF) fail ("close twice || errno %d", mes_errno); }
  /* a big directory */
  { mkdir ("big", 0755); static char seen_[3000]; memset (seen_, 0, 3000); char b[300]; for (int i = 0; i < 3000; i++) { sprintf (b, "big/%d%.*s", i, i % 200, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); close (open (b, O_CREAT | O_WRONLY, 0600)); }
    evals++; int dots = 0, bad = 0; void *d = mes_opendir ("big"), *e; while ((e = mes_readdir (d))) { char *n = acc_name (e); if (*n == '.') { dots++; continue; } int i = atoi (n); struct stat st; sprintf (b, "big/%s", n); if (stat (b, &st) || st.st_ino != acc_ino (e) || i < 0 || i >= 3000 || seen_[i]++) bad++; } mes_closedir (d); for (int i = 0; i < 3000; i++) bad += !seen_[i]; if (dots != 2 || bad) fail ("directory of 3000 || %d wrong, %d dots", bad, dots); wipe ("big"); }
}
int main (int argc, char **argv)
{
  int part = atoi (argv[1]); deep = argc > 2;
  if (!getuid ()) { chown (".", 65534, 65534); setgroups (0, 0); setgid (65534); setuid (65534); }
  umask (022); for (int i = 1; i < 32; i++) signal (i, SIG_DFL);
  h_init (); static char *env[] = { "MES_READ_BUFFER=64", 0 }; mes_environ = env;
  char d[20]; sprintf (d, "w%d", part); mkdir (d, 0755); if (chdir (d)) abort ();
  if (part == 7) processes (); else files (part, 7);
  chdir (".."); wipe (d);
  return h_done ();
}
