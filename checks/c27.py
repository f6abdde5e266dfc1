#!/usr/bin/env python3
"""C27: system call wrappers of the Mes C Library, against a recording kernel giving every answer, and on the real kernel."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C27', 'fault_enumeration')
t = build.Tree()
o, undef = libc.archive(c, t, exclude=['syscall', '_write'])
exe = libc.harness(c, 'c27.c', [o])
f, n, s = libc.run(c, exe, jobs=[[str(i)] for i in range(8)], timeout=850 if c.thorough else 300)

# the same wrappers over the real system calls, next to the system's library
acc = os.path.join(c.scratch, 'acc.o')
build.run(['gcc', '-c'] + t.CPP + t.CFL + ['-o', acc, os.path.join(libc.H, 'c27acc.c')], cwd=t.dir)
o2, undef = libc.archive(c, t, name='mesr')
exe2 = libc.harness(c, 'c27r.c', [o2, acc])
f2, n2, s2 = libc.run(c, exe2, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(8)], timeout=850 if c.thorough else 300)
f += f2; s += s2
for k, v in n2.items():
    n[k] = n.get(k, 0) + v
n['real_kernel_cases'] = n2.get('evaluations', 0)

# constants of the headers, against the system's headers; numbers of system calls, against the kernel's
NAMES = [('errno', 'E2BIG EACCES EAGAIN EBADF ECHILD EEXIST EINTR EINVAL EIO EISDIR ELOOP EMFILE ENAMETOOLONG ENOENT ENOEXEC ENOMEM ENOSPC ENOSYS ENOTDIR ENXIO EPIPE ERANGE ESPIPE EXDEV EPERM EBUSY EROFS ENOTEMPTY ENODEV EFAULT EDOM ENOTTY'),
         ('fcntl', 'FD_CLOEXEC F_DUPFD F_GETFD F_GETFL F_SETFD F_SETFL O_APPEND O_CREAT O_DIRECTORY O_EXCL O_RDONLY O_RDWR O_TRUNC O_WRONLY O_NOFOLLOW O_NONBLOCK'), ('limits', 'NAME_MAX'),
         ('signal', 'FPE_FLTDIV FPE_FLTINV FPE_FLTOVF FPE_FLTRES FPE_FLTSUB FPE_FLTUND FPE_INTDIV FPE_INTOVF SA_NOCLDSTOP SA_NOCLDWAIT SA_NODEFER SA_NOMASK SA_ONESHOT SA_ONSTACK SA_RESETHAND SA_RESTART SA_SIGINFO SIGABRT SIGALRM SIGBUS SIGCHLD SIGCONT SIGFPE SIGHUP SIGILL SIGINT SIGIO SIGIOT SIGKILL SIGPIPE SIGPOLL SIGPROF SIGQUIT SIGSEGV SIGSTKFLT SIGSTOP SIGTERM SIGTRAP SIGTSTP SIGTTIN SIGTTOU SIGURG SIGUSR1 SIGUSR2 SIGVTALRM SIGWINCH SIGXCPU SIGXFSZ SIG_BLOCK SIG_DFL SIG_ERR SIG_IGN SIG_SETMASK SIG_UNBLOCK'),
         ('stdint', 'INT16_MAX INT16_MIN INT32_MAX INT32_MIN INT64_MAX INT64_MIN INT8_MAX INT8_MIN SIZE_MAX UINT16_MAX UINT32_MAX UINT64_MAX UINT8_MAX'),
         ('stdio', 'SEEK_CUR SEEK_END SEEK_SET _IOFBF _IOLBF _IONBF EOF'), ('stdlib', 'EXIT_FAILURE EXIT_SUCCESS'), ('sys/ioctl', 'TCGETA TCGETS'), ('sys/mman', 'PROT_EXEC PROT_NONE PROT_READ PROT_WRITE'),
         ('sys/resource', 'RUSAGE_CHILDREN RUSAGE_SELF'), ('sys/stat', 'S_IFBLK S_IFCHR S_IFDIR S_IFIFO S_IFLNK S_IFMT S_IFREG S_IRGRP S_IROTH S_IRUSR S_IRWXG S_IRWXO S_IRWXU S_ISGID S_ISUID S_IWGRP S_IWOTH S_IWUSR S_IXGRP S_IXOTH S_IXUSR'),
         ('sys/time', 'ITIMER_PROF ITIMER_REAL ITIMER_VIRTUAL'), ('sys/wait', 'WNOHANG'), ('termio', 'CS8 ECHO ECHOK ECHONL ICANON ICRNL INLCR ISIG ISTRIP PARENB TCGETA TCSETAW TIOCGWINSZ VMIN VTIME'),
         ('time', 'CLOCK_PROCESS_CPUTIME_ID'), ('unistd', 'F_OK R_OK STDERR_FILENO STDIN_FILENO STDOUT_FILENO W_OK X_OK')]
def constants(flags):
    d = {}
    for h, names in NAMES:
        src = '#define _GNU_SOURCE\n#include <sys/types.h>\n#include <%s.h>\nint printf (char const *, ...);\nint show (void) {\n' % h
        src += ''.join('#ifdef %s\nprintf ("%s %%ld\\n", (long) (%s));\n#endif\n' % (x, x, x) for x in names.split()) + 'return 0; }\n'
        b = os.path.join(c.scratch, 'const')
        open(b + '.c', 'w').write(src)
        open(b + 'm.c', 'w').write('int show (void); int main () { return show (); }')
        build.run(['gcc', '-w', '-fno-builtin', '-c'] + flags + ['-o', b + '.o', b + '.c'], cwd=t.dir)
        build.run(['gcc', '-w', '-o', b, b + 'm.c', b + '.o'])
        for l in build.run([b]).decode().split('\n'):
            if l:
                d[h + ' ' + l.split()[0]] = l.split()[1]
    return d
mine, theirs = constants(['-nostdinc'] + t.CPP), constants([])
for k in mine:
    if k in theirs:
        n['evaluations'] += 1
        if mine[k] != theirs[k]:
            f.append(('constant ' + k, '%s, expected %s' % (mine[k], theirs[k])))
n['constants'] = len([k for k in mine if k in theirs])
def numbers(src, prefix, incs):
    b = os.path.join(c.scratch, 'nr.c')
    open(b, 'w').write(src)
    out = build.run(['gcc', '-E', '-dM'] + incs + [b]).decode()
    return {w[1][len(prefix):]: int(w[2], 0) for w in (l.split() for l in out.split('\n')) if len(w) == 3 and w[1].startswith(prefix) and w[2][0].isdigit()}
for arch, unistd in (('x86', '32'), ('x86_64', '64'), ('arm', '32')):
    m = numbers('#include <syscall.h>\n', 'SYS_', ['-nostdinc', '-I', t.path('include', 'linux', arch)])
    k = numbers('#include <asm/unistd_%s.h>\n' % unistd, '__NR_', [])
    for x in m:
        if x in k and (arch != "arm" or k[x] < 256):  # the same numbers as x86 up to there
            n['evaluations'] += 1
            n['syscall_numbers'] = n.get('syscall_numbers', 0) + 1
            if m[x] != k[x]:
                f.append(('system call number %s on %s' % (x, arch), '%d, expected %d' % (m[x], k[x])))
libc.report(c, f, n, s, exe, 'every wrapper with boundary arguments, and every answer of the kernel: all error numbers 1 to 4095 and boundary results; composite functions with every failure of their calls; '
            'directory listings split and failing in every way; on the real kernel: every file operation on every kind of name, and sequences of two, next to the system library; all exit codes, signals; constants and numbers')
c.finish()
