/* Streams and descriptors of the Mes C Library, on a model kernel whose every answer can be spoilt, against a reference that never reads ahead. */
#include "h.h"
typedef void MF;
extern MF *mes_fopen (char const *, char const *), *mes_freopen (char const *, char const *, MF *), *mes_fdopen (int, char const *);
extern int mes_fclose (MF *), mes_fgetc (MF *), mes_getc (MF *), mes_ungetc (int, MF *), mes_fputc (int, MF *), mes_putc (int, MF *), mes_fputs (char const *, MF *), mes_fseek (MF *, long, int), mes_feof (MF *), mes_fileno (MF *),
  mes_fflush (MF *), mes_puts (char const *), mes_putchar (int), mes_getchar (void), mes_vfprintf (MF *, char const *, void *), mes_remove (char const *);
extern char *mes_fgets (char *, int, MF *); extern size_t mes_fread (void *, size_t, size_t, MF *), mes_fwrite (void const *, size_t, size_t, MF *); extern long mes_ftell (MF *);
extern long mes_read (int, void *, size_t), mes_write (int, void const *, size_t); extern long mes_lseek (int, long, int); extern int mes_dup (int), mes_dup2 (int, int), mes_close (int), mes__open3 (char const *, int, int), mes_unlink (char const *), mes_rmdir (char const *);
extern int mes_errno;
static int deep;

/* ---- the kernel ---- */
#define NF 3
#define NO 24
#define NFD 1100
#define FSZ 512
typedef struct { uc data[FSZ]; int len, exists, isdir; } File;
typedef struct { int used, kind, file, pos, flags; } Ofd; /* kind 0 file, 1 queue in (not seekable), 2 queue both ways */
typedef struct { File f[NF]; Ofd o[NO]; short fd[NFD]; uc in[64]; int inpos, inlen; uc out[256]; int outlen; } K;
static char const *fname[NF] = { "F", "G", "D" };
static K M, R; /* what Mes works on; what the reference works on */
static int kcalls, fault_at = -1, fault_kind, faulted, shorted, blocked, in_op_lseek_ok; static int kkind[4096];
static Ofd *ofd (K *k, long fd) { return fd < 0 || fd >= NFD || k->fd[fd] < 0 ? 0 : &k->o[k->fd[fd]]; }
static void unref (K *k, int i) { for (int n = 0; n < 16; n++) if (k->fd[n] == i) return; for (int n = 590; n < 610; n++) if (k->fd[n] == i) return; k->o[i].used = 0; }
static int k_open (K *k, char const *name, int flags)
{
  int f; for (f = 0; f < NF; f++) if (!strcmp (name, fname[f])) break;
  if (f == NF) return -ENOENT;
  File *x = &k->f[f];
  if (!x->exists) { if (!(flags & O_CREAT)) return -ENOENT; x->exists = 1; x->len = 0; x->isdir = 0; }
  if (x->isdir && (flags & O_ACCMODE)) return -EISDIR;
  if (flags & O_TRUNC) x->len = 0;
  int i, n; for (i = 0; i < NO; i++) if (!k->o[i].used) break;
  for (n = 0; n < NFD; n++) if (k->fd[n] < 0) break;
  k->o[i] = (Ofd) { 1, 0, f, 0, flags }; k->fd[n] = i;
  return n;
}
static long k_read (K *k, long fd, uc *p, long n, int real)
{
  Ofd *o = ofd (k, fd); if (!o || (o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  if (o->kind)
    {
      long a = k->inlen - k->inpos; if (n > a) n = a;
      if (!a) { if (o->flags & 0x10000000) return 0; if (real) blocked++; return real ? 0 : -99999; }
      memcpy (p, k->in + k->inpos, n); k->inpos += n; return n;
    }
  File *f = &k->f[o->file]; if (f->isdir) return -EISDIR;
  long a = f->len - o->pos; if (a < 0) a = 0; if (n > a) n = a;
  memcpy (p, f->data + o->pos, n); o->pos += n; return n;
}
static long k_write (K *k, long fd, uc const *p, long n)
{
  Ofd *o = ofd (k, fd); if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
  if (o->kind) { if (k->outlen + n > 256) return -ENOSPC; memcpy (k->out + k->outlen, p, n); k->outlen += n; return n; }
  File *f = &k->f[o->file]; if (o->flags & O_APPEND) o->pos = f->len;
  if (o->pos + n > FSZ) return -ENOSPC;
  if (n && o->pos > f->len) memset (f->data + f->len, 0, o->pos - f->len);
  memcpy (f->data + o->pos, p, n); o->pos += n; if (o->pos > f->len) f->len = o->pos;
  return n;
}
static long k_lseek (K *k, long fd, long off, int wh)
{
  Ofd *o = ofd (k, fd); if (!o) return -EBADF; if (o->kind) return -ESPIPE;
  long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : wh == SEEK_END ? k->f[o->file].len : -1;
  if (b < 0 || b + off < 0) return -EINVAL;
  return o->pos = b + off;
}
static int k_close (K *k, long fd) { if (!ofd (k, fd)) return -EBADF; int i = k->fd[fd]; k->fd[fd] = -1; unref (k, i); return 0; }
static int k_dup2 (K *k, long a, long b) { if (!ofd (k, a) || b < 0 || b >= NFD) return -EBADF; if (a == b) return b; if (ofd (k, b)) k_close (k, b); k->fd[b] = k->fd[a]; return b; }
static int k_dup (K *k, long a) { if (!ofd (k, a)) return -EBADF; int n; for (n = 0; n < NFD; n++) if (k->fd[n] < 0) break; return k_dup2 (k, a, n); }
static int k_unlink (K *k, char const *name) { int f; for (f = 0; f < NF; f++) if (!strcmp (name, fname[f])) break; if (f == NF || !k->f[f].exists) return -ENOENT; if (k->f[f].isdir) return -EISDIR; k->f[f].exists = 0; return 0; }
static int k_rmdir (K *k, char const *name) { int f; for (f = 0; f < NF; f++) if (!strcmp (name, fname[f])) break; if (f == NF || !k->f[f].exists) return -ENOENT; if (!k->f[f].isdir) return -ENOTDIR; k->f[f].exists = 0; return 0; }
/* The system call entry of Mes: numbers of x86_64. */
static long entry (long nr, long a, long b, long c)
{
  int me = kcalls++, hit = me == fault_at;
  if (me < 4096) kkind[me] = nr;
  if (hit)
    {
      if (nr == 0 || nr == 1)
        {
          if (fault_kind <= 1 || fault_kind == 4) { faulted = 1; return -(fault_kind == 0 ? EIO : fault_kind == 1 ? EINTR : nr ? ENOSPC : EAGAIN); }
          shorted = 1;
          if (c > 1) c = fault_kind == 2 ? 1 : c - 1;
        }
      else { faulted = 1; return -(nr == 2 ? EMFILE : EIO); }
    }
  switch (nr)
    {
    case 0: return k_read (&M, (int) a, (uc *) b, c, 1);
    case 1: return k_write (&M, (int) a, (uc *) b, c);
    case 2: return k_open (&M, (char *) a, b);
    case 3: return k_close (&M, (int) a);
    case 8: return k_lseek (&M, (int) a, b, c);
    case 32: return k_dup (&M, (int) a);
    case 33: return k_dup2 (&M, (int) a, (int) b);
    case 87: return k_unlink (&M, (char *) a);
    case 84: return k_rmdir (&M, (char *) a);
    case 21: { int f; for (f = 0; f < NF; f++) if (!strcmp ((char *) a, fname[f]) && M.f[f].exists) return 0; return -ENOENT; }
    case 74: { Ofd *o = ofd (&M, (int) a); return !o ? -EBADF : o->kind ? -EINVAL : 0; }
    case 4: case 6: { int f; for (f = 0; f < NF; f++) if (!strcmp ((char *) a, fname[f]) && M.f[f].exists) { memset ((void *) b, 0, 144); *(unsigned *) (b + 24) = M.f[f].isdir ? 040755 : 0100644; return 0; } return -ENOENT; }
    case 5: { Ofd *o = ofd (&M, (int) a); if (!o) return -EBADF; memset ((void *) b, 0, 144); *(unsigned *) (b + 24) = o->kind ? 010600 : M.f[o->file].isdir ? 040755 : 0100644; return 0; }
    case 16: { Ofd *o = ofd (&M, (int) a); return !o ? -EBADF : -ENOTTY; }
    case 12: return mes_brk ((void *) a);
    }
  return -ENOSYS;
}
static long ret (long r) { if (r < 0) { mes_errno = -r; return -1; } mes_errno = 0; return r; }
long mes___sys_call (long n) { return entry (n, 0, 0, 0); } long mes__sys_call (long n) { return ret (entry (n, 0, 0, 0)); }
long mes___sys_call1 (long n, long a) { return entry (n, a, 0, 0); } long mes__sys_call1 (long n, long a) { return ret (entry (n, a, 0, 0)); }
long mes___sys_call2 (long n, long a, long b) { return entry (n, a, b, 0); } long mes__sys_call2 (long n, long a, long b) { return ret (entry (n, a, b, 0)); }
long mes___sys_call3 (long n, long a, long b, long c) { return entry (n, a, b, c); } long mes__sys_call3 (long n, long a, long b, long c) { return ret (entry (n, a, b, c)); }
long mes___sys_call4 (long n, long a, long b, long c, long d) { return entry (n, a, b, c); } long mes__sys_call4 (long n, long a, long b, long c, long d) { return ret (entry (n, a, b, c)); }
long mes__write (int fd, void const *p, size_t n) { return entry (1, fd, (long) p, n); }

static void k_init (K *k, int exists)
{
  memset (k, 0, sizeof *k); for (int n = 0; n < NFD; n++) k->fd[n] = -1;
  if (exists) { k->f[0].exists = 1; k->f[0].len = 10; memcpy (k->f[0].data, "a\n\0cd\377efgh", 10); }
  k->f[1].exists = 1; k->f[1].len = 4; memcpy (k->f[1].data, "1234", 4);
  k->f[2].exists = 1; k->f[2].isdir = 1;
  for (int n = 0; n < 3; n++) { k->o[n] = (Ofd) { 1, 2, 0, 0, O_RDWR }; k->fd[n] = n; }
  k->inlen = 7; memcpy (k->in, "\0q\nrstu", 7);
}
static int rbuf; static char rb_env[32]; static char *envp1[] = { rb_env, 0 };
static void lib_reset (void)
{
  lib_back (); mes___stdin = 0; mes___stdout = 1; mes___stderr = 2;
  sprintf (rb_env, "MES_READ_BUFFER=%d", rbuf); mes_environ = envp1;
}

static char trace[600];
static int differ (char const *what) { fail ("%s || %s", trace, what); return 0; }

/* ---- streams ---- */
static int rfd, pushed, eofed, lastc; static MF *mf;
static int r_getc (void)
{
  if (pushed >= 0) { int c = pushed; pushed = -1; return c; }
  uc c; long r = k_read (&R, rfd, &c, 1, 0);
  if (r == -99999) return -2;
  if (r == 0) eofed = 1; if (r > 0) eofed = 0;
  return r == 1 ? c : -1;
}
static char const *MODE[] = { "r", "r+", "w", "w+", "a", "a+", "rb", "rb+", "r+b", "wb", "w+b", "ab" };
static int mflags (char const *m) { int p = !!strchr (m, '+'); return m[0] == 'r' ? (p ? O_RDWR : O_RDONLY) : (p ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND); }
static int same_files (void)
{
  for (int f = 0; f < NF; f++) if (M.f[f].exists != R.f[f].exists || M.f[f].len != R.f[f].len || memcmp (M.f[f].data, R.f[f].data, M.f[f].len)) return 0;
  return M.outlen == R.outlen && !memcmp (M.out, R.out, M.outlen);
}
/* After a failed output of N bytes P: some prefix may have been written. */
static int adopt_prefix (uc const *p, int n)
{
  static K save; save = R;
  for (int j = 0; j <= n; j++) { R = save; if (j) k_write (&R, rfd, p, j); if (same_files () && (ofd (&R, rfd)->kind || ofd (&R, rfd)->pos == ofd (&M, mes_fileno (mf))->pos)) return 1; }
  R = save; return same_files ();
}
#define NSOP 23
#define T(call) if ((cr = TRY (call))) { sprintf (b, "signal %d", cr); return differ (b); }
#define BLOCKS (blocked ? differ ("waits for input though it has enough") : 1)
/* returns 1: go on, 0: failed, 2: stop here */
static int s_op (int op)
{
  char b[300]; int cr, c = 0, w, n, j; long l = 0, wl; uc buf[40], wb[40]; char *t = trace + strlen (trace), *g = 0;
  Ofd *ro = ofd (&R, rfd);
  faulted = 0;
  switch (op)
    {
    case 0: case 20:
      sprintf (t, op ? " getc" : " fgetc"); w = r_getc (); if (w == -2) return 2;
      T (c = op ? mes_getc (mf) : mes_fgetc (mf));
      if (c != w) { if (faulted && c == -1) { if (pushed < 0 && w >= 0) { k_lseek (&R, rfd, -1, SEEK_CUR); if (ro->kind) R.inpos--; } eofed = -1; return 1; } sprintf (b, "returns %d, not %d", c, w); return differ (b); }
      if (faulted) eofed = -1;
      if (c >= 0) lastc = c;
      return BLOCKS;
    case 1:
      if (pushed >= 0) return 2;
      c = lastc >= 0 ? lastc : 'U'; if (c > 127 && op) c = (signed char) c == -1 ? 255 : (signed char) c;
      sprintf (t, " ungetc(%d)", c); w = c & 255; T (n = mes_ungetc (c, mf));
      if (n != w) { sprintf (b, "returns %d, not %d", n, w); return differ (b); }
      pushed = w; eofed = 0; return 1;
    case 2:
      sprintf (t, " fgets(4)");
      for (n = 0; n < 3; ) { w = r_getc (); if (w == -2) return 2; if (w < 0) break; wb[n++] = w; if (w == '\n') break; }
      memset (buf, 'Z', sizeof buf);
      T (g = mes_fgets (buf, 4, mf));
      if (faulted && (!g || (strlen (buf) < n && !memcmp (buf, wb, strlen (buf)))))
        { int got = g ? strlen (buf) : 0; if (ro->kind || memchr (wb, 0, n)) return 2; k_lseek (&R, rfd, got - n, SEEK_CUR); eofed = -1; pushed = -1; return 1; }
      wb[n] = 0;
      if (n == 0) { if (g) { sprintf (b, "returns %s at the end of the file", qs (g)); return differ (b); } }
      else if (g != (char *) buf || memcmp (buf, wb, n + 1) || buf[n + 1] != 'Z') { sprintf (b, "returns %s, not %s", q (buf, n + 1), q (wb, n)); return differ (b); }
      if (n) lastc = wb[n - 1];
      if (faulted) eofed = -1;
      return BLOCKS;
    case 3: case 4: case 5:
      {
        int sz = op == 4 ? 2 : 1, cnt = op == 3 ? 5 : op == 4 ? 2 : 9, pb = pushed >= 0;
        sprintf (t, " fread(%d,%d)", sz, cnt);
        for (n = 0; n < sz * cnt; n++) { w = r_getc (); if (w == -2) return 2; if (w < 0) break; wb[n] = w; }
        memset (buf, 'Z', sizeof buf);
        T (l = mes_fread (buf, sz, cnt, mf));
        if (l < n / sz && faulted)
          {
            if (memcmp (buf, wb, l * sz)) { sprintf (b, "%ld items, but %s, not %s", l, q (buf, l * sz), q (wb, l * sz)); return differ (b); }
            if (sz > 1 || ro->kind) return 2;
            k_lseek (&R, rfd, l - n, SEEK_CUR); if (pb && l == 0) return 2; eofed = -1; return 1;
          }
        if (l != n / sz || memcmp (buf, wb, l * sz) || buf[sz * cnt] != 'Z') { sprintf (b, "%ld items %s, not %d items %s", l, q (buf, l * sz), n / sz, q (wb, n)); return differ (b); }
        if (n) lastc = wb[n - 1];
        if (faulted) { eofed = -1; if (n % sz) return 2; }
        return BLOCKS;
      }
    case 6: case 7: case 8: case 16: case 18: case 21:
      {
        static char const *S[] = { "X", "YZ", "123", 0, 0, 0, 0, 0, 0, 0, "uv-42", 0, "\377", 0, 0, "W" };
        char const *s = S[op - 6]; n = strlen (s);
        if (pushed >= 0) return 2;
        static long va[2]; va[0] = (long) "uv"; va[1] = -42;
        sprintf (t, op == 6 ? " fputc(X)" : op == 21 ? " putc(W)" : op == 18 ? " fputc(255)" : op == 7 ? " fputs(YZ)" : op == 8 ? " fwrite(123)" : " vfprintf(uv-42)");
        static K before; before = R;
        wl = k_write (&R, rfd, s, n);
        T (l = op == 6 || op == 18 ? mes_fputc (*(uc *) s, mf) : op == 21 ? mes_putc ('W', mf) : op == 7 ? mes_fputs (s, mf) : op == 8 ? mes_fwrite (s, 1, 3, mf) : mes_vfprintf (mf, "%s%d", va));
        int bad = op == 8 ? l != 3 : l < 0;
        if (wl < 0 && !bad) { sprintf (b, "returns %ld though nothing can be written", l); return differ (b); }
        if (wl < 0) return 1;
        if (faulted && bad)
          {
            R = before;
            if (op == 8) { if (l > 0) k_write (&R, rfd, s, l); if (l >= 3 || !same_files ()) { sprintf (b, "reports %ld bytes, but that is not what the file has", l); return differ (b); } }
            else if (!adopt_prefix (s, op == 7 || op == 16 ? n - 1 : 0)) return differ ("fails, and the file has not a part of what was to be written");
            return 1;
          }
        if (bad) { sprintf (b, "returns %ld", l); return differ (b); }
        if (op != 7 && op != 8 && op != 16 && l != *(uc *) s) { sprintf (b, "returns %ld, not %d", l, *(uc *) s); return differ (b); }
        if (op == 16 && l != 5) { sprintf (b, "returns %ld, not 5", l); return differ (b); }
        if (!same_files ()) return differ ("the file has not the contents written");
        return 1;
      }
    case 9: case 10: case 11: case 12: case 13:
      {
        static struct { long o; int w; } const S[] = { { 0, SEEK_SET }, { 2, SEEK_SET }, { -1, SEEK_CUR }, { -2, SEEK_END }, { 3, SEEK_END } };
        long o = S[op - 9].o; int wh = S[op - 9].w;
        if (op == 13 && !(ro->flags & O_ACCMODE)) { o = 1; wh = SEEK_CUR; }
        sprintf (t, " fseek(%ld,%d)", o, wh);
        if (pushed >= 0 && wh == SEEK_CUR && ro->pos == 0) return 2;
        wl = k_lseek (&R, rfd, wh == SEEK_CUR && pushed >= 0 ? o - 1 : o, wh);
        long back = wl;
        T (c = mes_fseek (mf, o, wh));
        if (faulted && c == -1) { /* nothing moved */ return 3; }
        if (c != (wl < 0 ? -1 : 0)) { sprintf (b, "returns %d, not %d", c, wl < 0 ? -1 : 0); return differ (b); }
        if (wl >= 0) { pushed = -1; eofed = 0; }
        return 1;
      }
    case 14:
      sprintf (t, " ftell"); wl = k_lseek (&R, rfd, 0, SEEK_CUR); if (wl < 0) wl = -1; if (pushed >= 0) { if (wl == 0) return 2; if (wl > 0) wl--; }
      T (l = mes_ftell (mf));
      if (faulted && l == -1) return 1;
      if (l != wl) { sprintf (b, "returns %ld, not %ld", l, wl); return differ (b); }
      return 1;
    case 15:
      sprintf (t, " feof"); T (c = mes_feof (mf)); if (eofed >= 0 && !c != !eofed) { sprintf (b, "returns %d, not %d", c, eofed); return differ (b); }
      return 1;
    case 17: case 19:
      {
        if (ro->kind) return 2;
        int again = op == 19;
        sprintf (t, again ? " freopen(G,r)" : " fclose fopen(F,r)");
        if (again) { MF *p = 0; T (p = mes_freopen ("G", "r", mf)); if (p != mf) { if (faulted && !p) return 2; sprintf (b, "returns %p", p); return differ (b); } }
        else { T (c = mes_fclose (mf)); if (c) { if (faulted) return 2; return differ ("fclose fails"); } T (mf = mes_fopen ("F", "r")); if (!mf) { if (faulted) return 2; return differ ("fopen fails"); } }
        int o2 = k_open (&R, again ? "G" : "F", O_RDONLY); k_dup2 (&R, o2, rfd); k_close (&R, o2);
        pushed = -1; eofed = 0; lastc = -1;
        return 1;
      }
    case 22:
      {
        if (pushed >= 0 || eofed) return 2;
        sprintf (t, " moved by dup"); int o = 0, nfd = 0; T (o = mes_fileno (mf)); T (nfd = mes_dup (o)); if (nfd < 0) { if (faulted) return 2; return differ ("dup fails"); }
        T (c = mes_close (o)); if (c) { if (faulted) return 2; return differ ("close fails"); } T (mf = mes_fdopen (nfd, "r")); return 1;
      }
    }
  return 2;
}
/* One sequence, with the fault in force; returns the number of kernel calls, or -1 */
static int s_seq (int target, int mode, int exists, long code, int n)
{
  int cr, fd; char b[200]; static int dirty = 1; 
  k_init (&M, exists); k_init (&R, exists);
  if (dirty) lib_reset (); dirty = 1;
  kcalls = 0; blocked = 0; pushed = -1; eofed = 0; lastc = -1; faulted = 0; shorted = 0;
  if (mode >= 0) sprintf (trace, "%s buffer %d%s: fopen(F,%s)", exists ? "file," : "no file,", rbuf, "", MODE[mode]); else sprintf (trace, "%s, buffer %d:", target == 1 ? "pipe" : "terminal", rbuf);
  if (fault_at >= 0) sprintf (trace + strlen (trace), " [call %d: %s]", fault_at, fault_kind == 0 ? "EIO" : fault_kind == 1 ? "EINTR" : fault_kind == 4 ? "ENOSPC" : fault_kind == 2 ? "1 byte" : "1 byte less");
  evals++; nontriv++;
  if (mode >= 0)
    {
      rfd = k_open (&R, "F", mflags (MODE[mode])); mf = 0;
      if ((cr = TRY (mf = mes_fopen ("F", MODE[mode])))) { sprintf (b, "signal %d", cr); differ (b); return -1; }
      if (!mf != (rfd < 0)) { if (faulted && !mf) return -1; differ (mf ? "opens a missing file" : "fails"); return -1; }
      if (!mf) return -1;
    }
  else { rfd = 5; mf = (MF *) 5L; R.o[5] = M.o[5] = (Ofd) { 1, target, 0, 0, target == 1 ? O_RDONLY | 0x10000000 * (exists) : O_RDWR }; M.fd[5] = R.fd[5] = 5; if (mode == -1) { M.inlen = R.inlen = exists ? 5 : 7; } }
  if (!same_files ()) { differ ("opening changes the file wrongly"); return -1; }
  int st = 1; 
  for (int k = 0; k < n && st == 1; k++, code /= NSOP)
    {
      Ofd before; { Ofd *o = ofd (&R, rfd); before = *o; }
      int p0 = pushed, e0 = eofed;
      st = s_op (code % NSOP);
      if (st == 3) { *ofd (&R, rfd) = before; pushed = p0; eofed = e0; st = 1; }
    }
  if (st == 0) return -1;
  if (st == 1)
    {
      /* what is left reads the same; the files end the same */
      strcat (trace, " drain"); int fa = fault_at; 
      for (int k = 0; k < 24; k++)
        {
          int w = r_getc (), c = 0; if (w == -2) break; faulted = 0;
          if ((cr = TRY (c = mes_fgetc (mf)))) { sprintf (b, "signal %d", cr); differ (b); return -1; }
          if (faulted) return kcalls;
          if (c != w) { sprintf (b, "byte %d is %d, not %d", k, c, w); differ (b); return -1; }
          if (blocked) { differ ("waits for input though it has enough"); return -1; }
          if (w < 0) break;
        }
      if (!same_files ()) { differ ("the files end differently"); return -1; }
    }
  for (int k = 0; k < 16; k++) if (ofd (&M, k) && k > 2) { int fa = fault_at; fault_at = -1; int kc = kcalls; if ((cr = TRY (mes_close (k)))) { sprintf (b, "close: signal %d", cr); differ (b); return -1; } kcalls = kc; fault_at = fa; }
  dirty = st != 1 || fault_at >= 0;
  sample ("%s", trace);
  return kcalls;
}
static int fault_ok (int nr) { return nr == 0 || nr == 1 || nr == 2 || nr == 8; }
static void with_faults (int (*seq) (int, int, int, long, int), int target, int mode, int exists, long code, int n, int faults)
{
  fault_at = -1;
  int calls = seq (target, mode, exists, code, n);
  if (calls <= 0 || !faults) return;
  int nr[128]; for (int k = 0; k < calls && k < 128; k++) nr[k] = kkind[k];
  for (int k = 0; k < calls && k < 128; k++) for (int kind = 0; kind < 5; kind++)
    {
      if (!fault_ok (nr[k])) continue;
      if (nr[k] > 1 && kind) continue;
      if (nr[k] == 0 && kind == 4) continue;
      fault_at = k; fault_kind = kind; seq (target, mode, exists, code, n);
    }
  fault_at = -1;
}
static void streams (int part, int parts)
{
  static int const RB[] = { 3, 128, 0 };
  for (int r = 0; r < 3; r++)
    {
      rbuf = RB[r];
      char *g = r == 0 ? "streams, buffer 3" : r == 1 ? "streams, buffer 128" : "streams, unbuffered"; begin (g);
      lib_reset ();
      int L = deep ? 4 : 3;
      for (int n = 1; n <= L; n++) for (long i = part; i < ipow (NSOP, n); i += parts) for (int ex = 1; ex >= 0; ex--) for (int m = 0; m < (n == 1 ? 12 : 6); m++)
        {
          if (!ex && (m < 2 || n > 2)) continue;
          if (n == L && !deep && r == 2 && m != 1) continue;
          with_faults (s_seq, 0, m, ex, i, n, n < L || (m == 1 && r != 2) || (m == 5 && !r));
        }
      for (int n = 1; n <= 3; n++) for (long i = part; i < ipow (NSOP, n); i += parts) for (int tg = 1; tg <= 2; tg++)
        with_faults (s_seq, tg, -1, tg == 1, i, n, n < 3 || deep);
    }
}

/* ---- descriptors ---- */
#define NDOP 21
static int d_seq (int target, int mode, int exists, long code, int n)
{
  int cr, c = 0; char b[300]; long l = 0; static int dirty = 1;
  k_init (&M, 1); k_init (&R, 1); if (dirty) lib_reset (); dirty = 1;
  kcalls = 0; blocked = 0; faulted = 0; shorted = 0;
  sprintf (trace, "%s, buffer %d:", target == 0 ? "file" : target == 1 ? "pipe" : "terminal", rbuf);
  if (fault_at >= 0) sprintf (trace + strlen (trace), " [call %d: %s]", fault_at, fault_kind == 0 ? "EIO" : fault_kind == 1 ? "EINTR" : fault_kind == 4 ? "ENOSPC" : fault_kind == 2 ? "1 byte" : "1 byte less");
  evals++; nontriv++;
  int a = 3, B = mode ? 600 : 9;
  if (target == 0) { if ((cr = TRY (c = mes__open3 ("F", O_RDWR | (exists ? 0 : O_APPEND), 0)))) return differ ("open: signal"), -1; k_open (&R, "F", O_RDWR | (exists ? 0 : O_APPEND)); if (faulted && c < 0) return -1; if (c != 3) return differ ("open"), -1; }
  else { R.o[3] = M.o[3] = (Ofd) { 1, target, 0, 0, target == 1 ? O_RDONLY | 0x10000000 : O_RDWR }; M.fd[3] = R.fd[3] = 3; }
  for (int k = 0; k < n; k++, code /= NDOP)
    {
      int op = code % NDOP; uc buf[40], wb[40]; char *t = trace + strlen (trace); faulted = 0; blocked = 0;
      static int const RN[] = { 1, 2, 9 }; int fd = op < 10 ? a : B;
      if (op < 3 || (op >= 10 && op < 13))
        {
          int sz = RN[op % 10]; long w; sprintf (t, " read(%d,%d)", fd, sz);
          static K save; save = R; w = k_read (&R, fd, wb, sz, 0); if (w == -99999) return kcalls;
          memset (buf, 'Z', 40); shorted = 0;
          if ((cr = TRY (l = mes_read (fd, buf, sz)))) { sprintf (b, "signal %d", cr); differ (b); return -1; }
          if (w < 0) { if (l != -1 || (mes_errno != -w && !faulted)) { sprintf (b, "returns %ld, errno %d, not %ld", l, mes_errno, w); differ (b); return -1; } continue; }
          if (faulted && l == -1) { R = save; continue; }
          if (l != w && l > 0 && l < w && (shorted || faulted || target)) { R = save; w = k_read (&R, fd, wb, l, 0); }
          if (l != w || memcmp (buf, wb, w) || buf[w] != 'Z') { sprintf (b, "returns %ld %s, not %ld %s", l, q (buf, l > 0 ? l : 0), w, q (wb, w)); differ (b); return -1; }
          if (blocked) { differ ("waits for input though it has some"); return -1; }
        }
      else if (op == 3 || op == 4 || op == 13)
        {
          char const *s = op == 4 ? "QRS" : op == 3 ? "t" : "u"; long w; int sz = strlen (s); sprintf (t, " write(%d,%s)", fd, s);
          static K save; save = R; w = k_write (&R, fd, s, sz); shorted = 0;
          if ((cr = TRY (l = mes_write (fd, s, sz)))) { sprintf (b, "signal %d", cr); differ (b); return -1; }
          if (w < 0) { if (l != -1 || (mes_errno != -w && !faulted)) { sprintf (b, "returns %ld, errno %d, not %ld", l, mes_errno, w); differ (b); return -1; } continue; }
          if (faulted && l == -1) { R = save; if (!same_files ()) { differ ("fails, yet writes"); return -1; } continue; }
          if (l > 0 && l < w && shorted) { R = save; w = k_write (&R, fd, s, l); }
          if (l != w) { sprintf (b, "returns %ld, not %ld", l, w); differ (b); return -1; }
          if (!same_files ()) { differ ("the file has not the contents written"); return -1; }
        }
      else if (op <= 8 || (op >= 14 && op <= 15))
        {
          static struct { long o; int w; } const S[] = { { 0, SEEK_SET }, { -1, SEEK_CUR }, { 0, SEEK_CUR }, { 2, SEEK_END } , { 1, SEEK_SET }, { -2, SEEK_CUR } };
          int j = op <= 8 ? op - 5 : op - 10; long o = S[j].o, w; sprintf (t, " lseek(%d,%ld,%d)", fd, o, S[j].w);
          Ofd before; if (ofd (&R, fd)) before = *ofd (&R, fd);
          w = k_lseek (&R, fd, o, S[j].w);
          if ((cr = TRY (l = mes_lseek (fd, o, S[j].w)))) { sprintf (b, "signal %d", cr); differ (b); return -1; }
          if (faulted && l == -1) { if (ofd (&R, fd)) *ofd (&R, fd) = before; continue; }
          if (w < 0 ? l != -1 || mes_errno != -w : l != w) { sprintf (b, "returns %ld, errno %d, not %ld", l, mes_errno, w); differ (b); return -1; }
        }
      else
        {
          int w;
          if (op == 16) { sprintf (t, " dup2(%d,%d)", a, B); w = k_dup2 (&R, a, B); cr = TRY (c = mes_dup2 (a, B)); }
          else if (op == 17) { sprintf (t, " close(%d)", B); w = k_close (&R, B); cr = TRY (c = mes_close (B)); }
          else if (op == 18) { if (!ofd (&R, a)) return kcalls; sprintf (t, " dup(%d) close(%d) dup2 close", a, a); w = 0; int x = k_dup (&R, a), y = 0; k_close (&R, a); k_dup2 (&R, x, a); k_close (&R, x);
              cr = TRY (({ y = mes_dup (a); mes_close (a); c = mes_dup2 (y, a); mes_close (y); })); if (y != x || c != a) { if (faulted) return kcalls; sprintf (b, "dup %d, dup2 %d, not %d, %d", y, c, x, a); differ (b); return -1; } c = 0; }
          else if (op == 19) { sprintf (t, " dup2(%d,%d)", B, a); w = k_dup2 (&R, B, a); cr = TRY (c = mes_dup2 (B, a)); }
          else if (op == 20) { sprintf (t, " bad calls"); w = -EBADF; cr = TRY (({ c = mes_close (-1); if (c == -1) c = mes_read (-1, buf, 1); if (c == -1) c = mes_lseek (-1, 0, 0); if (c == -1) c = mes_write (700, "x", 1); if (c == -1) c = mes_read (700, buf, 3); if (c == -1) c = mes_close (700); if (c == -1) c = mes_dup (-1); if (c == -1) c = mes_dup2 (-1, -1); })); }
          else return kcalls;
          if (cr) { sprintf (b, "signal %d", cr); differ (b); return -1; }
          if (faulted) return kcalls;
          if (w < 0 ? c != -1 || mes_errno != -w : c != w) { sprintf (b, "returns %d, errno %d, not %d", c, mes_errno, w); differ (b); return -1; }
        }
    }
  /* a shared offset is where the reader is, once the readers close */
  strcat (trace, " end"); int fa = fault_at; fault_at = -1; int kc = kcalls;
  if (target == 0 && ofd (&M, a) && ofd (&R, a))
    {
      Ofd *mo = ofd (&M, a), *wo = ofd (&R, a);
      cr = TRY (({ mes_close (a); mes_close (B); }));
      if (cr) { differ ("close: signal"); return -1; }
      if (mo->pos != wo->pos) { sprintf (b, "closing leaves the shared offset at %d, not %d", mo->pos, wo->pos); differ (b); return -1; }
    }
  else cr = TRY (({ mes_close (a); mes_close (B); }));
  fault_at = fa; kcalls = kc;
  dirty = fault_at >= 0;
  sample ("%s", trace);
  return kcalls;
}
static void descriptors (int part, int parts)
{
  static int const RB[] = { 3, 128, 0 };
  for (int r = 0; r < 3; r++)
    {
      rbuf = RB[r]; lib_reset (); begin (r == 0 ? "descriptors, buffer 3" : r == 1 ? "descriptors, buffer 128" : "descriptors, unbuffered");
      int L = deep ? 5 : 4;
      for (int n = 1; n <= L; n++) for (long i = part; i < ipow (NDOP, n); i += parts) for (int tg = 0; tg < 3; tg++)
        {
          if (n == L && r == 2) continue;
          with_faults (d_seq, tg, 0, 1, i, n, n < L);
          if (n < L) if (r == 2) with_faults (d_seq, tg, 1, 1, i, n, 0);
          if (n < L && !tg) with_faults (d_seq, 0, 0, 0, i, n, 0);
        }
    }
}
/* ---- the standard streams, and files by name ---- */
static void others (void)
{
  begin ("standard streams"); rbuf = 3; int cr, c = 0;
  for (int fk = -1; fk < 5; fk++) for (int at = 0; at < 4; at++)
    {
      fault_at = fk < 0 ? -1 : at; fault_kind = fk < 0 ? 0 : fk; lib_reset ();
      static char const *S[] = { "puts", "putchar", "getchar", "puts-empty", "putchar-255" };
      for (int op = 0; op < 5; op++)
        {
          k_init (&M, 1); faulted = shorted = 0; kcalls = 0; evals++; nontriv++; lib_reset (); kcalls = 0;
          sprintf (trace, "%s, fault %d at call %d", S[op], fault_kind, fault_at);
          cr = TRY (c = op == 0 ? mes_puts ("abc") : op == 1 ? mes_putchar ('x') : op == 2 ? mes_getchar () : op == 3 ? mes_puts ("") : mes_putchar (255));
          if (cr) { differ ("signal"); continue; }
          char const *w = op == 0 ? "abc\n" : op == 1 ? "x" : op == 3 ? "\n" : op == 4 ? "\377" : "";
          if (faulted) { if (c != -1) differ ("does not report failure"); continue; }
          if (op == 2 ? c != 0 : op == 1 ? c != 'x' : op == 4 ? c != 255 : c < 0) { differ ("returns the wrong value"); continue; }
          if (M.outlen != strlen (w) || memcmp (M.out, w, M.outlen)) differ (q (M.out, M.outlen));
        }
    }
  fault_at = -1;
  begin ("files by name");
  static char const *N[] = { "F", "D", "nofile" };
  for (int j = 0; j < 3; j++)
    {
      k_init (&M, 1); evals++; sprintf (trace, "remove(%s)", N[j]); mes_errno = 0;
      if ((cr = TRY (c = mes_remove (N[j])))) { differ ("signal"); continue; }
      if (j == 2 ? c != -1 || mes_errno != ENOENT : c != 0 || M.f[j ? 2 : 0].exists) differ ("wrong");
    }
  for (int tg = 0; tg < 3; tg++)
    {
      k_init (&M, 1); M.o[5] = (Ofd) { 1, tg, 0, 0, O_RDWR }; M.fd[5] = 5; sprintf (trace, "fflush of kind %d", tg); evals++;
      if ((cr = TRY (c = mes_fflush ((MF *) 5L)))) differ ("signal"); else if (c) differ ("fails");
    }
}
int main (int argc, char **argv)
{
  h_init (); deep = argc > 2; int part = atoi (argv[1]), parts = 16;
  streams (part, parts); descriptors (part, parts); if (!part) others ();
  return h_done ();
}
