/* Compiled with the headers of Mes: how a user of them sees the results. */
#include <stdio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <dirent.h>
#include <sys/types.h>
#include <fcntl.h>
long acc_stat (struct stat *s, int i)
{
  switch (i)
    {
    case 0: return s->st_dev; case 1: return s->st_ino; case 2: return s->st_mode; case 3: return s->st_nlink; case 4: return s->st_uid; case 5: return s->st_gid;
    case 6: return s->st_rdev; case 7: return s->st_size; case 8: return s->st_blksize; case 9: return s->st_blocks; case 10: return s->st_mtime; case 11: return s->st_ctime;
    case 12: return sizeof *s; case 13: return S_ISDIR (s->st_mode); case 14: return S_ISREG (s->st_mode); case 15: return S_ISFIFO (s->st_mode);
    }
  return -1;
}
char *acc_name (struct dirent *d) { return d->d_name; }
long acc_ino (struct dirent *d) { return d->d_ino; }
long acc_tv (struct timeval *t, int i) { return i ? t->tv_usec : t->tv_sec; }
long acc_ts (struct timespec *t, int i) { return i ? t->tv_nsec : t->tv_sec; }
long acc_ru (struct rusage *r, int i)
{
  switch (i)
    {
    case 0: return r->ru_utime.tv_sec; case 1: return r->ru_utime.tv_usec; case 2: return r->ru_stime.tv_sec; case 3: return r->ru_stime.tv_usec; case 4: return r->ru_maxrss;
    case 5: return r->ru_minflt; case 6: return r->ru_majflt; case 7: return r->ru_nvcsw; case 8: return r->ru_nivcsw; case 9: return sizeof *r; case 10: return r->ru_inblock; case 11: return r->ru_oublock;
    }
  return -1;
}
