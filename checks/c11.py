"""C11: the command line, the exit status and the process primitives. Whole programs: every combination of options,
ways to name the program and script arguments up to a bound, every exit status, every composition of short programs,
and sequences of environment, file and process operations against a model of the process."""
import sys, itertools, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, procs

c = core.Check('C11', 'exploration')
D = 1 if c.thorough else 0
t = build.Tree()
P = itertools.product
jobs, want, names = [], [], []
ANY = object()      # anything but nothing

def scm(x):
    return '"%s"' % x.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
def add(name, argv, out, rc=0, err=b'', inp=b'', env=None, files=None, left=None):
    """RC: a number, or 'bad' for any failure that is reported on standard error."""
    jobs.append((argv, inp if isinstance(inp, bytes) else inp.encode('latin-1'), env or {}, files or {}))
    want.append((rc, out if out is None or isinstance(out, bytes) else out.encode('latin-1'), err, left or {}))
    names.append(name)

# 1. options x how the program is named x its arguments
OPTS = [['--no-auto-compile'], ['--auto-compile'], ['--fresh-auto-compile'], ['-C', 'cd'], ['--compiled-path=cd'], ['-L', 'd1'], ['--load-path=d2'], ['-e', 'main'], ['--main=(main2)']]
ARGS = ['x', '-s', '-c', '--', '-', '-L', '-e', '--foo', '--foo=1', '-abc', '', 'a b', '-h', '--version', 't.scm', '--main=main']
BODY = '''(display "S") (write (command-line)) (display (list->string (let loop ((l (string->list (getenv "GUILE_LOAD_PATH")))) (if (or (null? l) (char=? (car l) #\\/)) '() (cons (car l) (loop (cdr l)))))))'''
SCRIPT = '(define (main args) (display "M") (write args) (write 1)) (define (main2) (display "N") (write (command-line)) (write 2)) ' + BODY
STOPS = ['s', 'file', 'c', 'dash', 'dashes', 'none', 'source', 'command', 'command=']
def run1(opts, stop, args):
    m = next((o for o in reversed(opts) if o[0] in ('-e',) or o[0].startswith('--main')), None)
    dirs = ''.join(d + ':' for o in opts for d in (['d1'] if 'd1' in o else ['d2'] if o[0].endswith('d2') else []))
    inp, files, pre, name = b'', {'t.scm': SCRIPT}, [], 't.scm'
    if stop == 's': pre = ['-s', 't.scm']
    elif stop == 'source': pre = ['--source', 't.scm']
    elif stop == 'file': pre = ['t.scm']
    elif stop == 'c': pre, name = ['-c', SCRIPT], 'mes'
    elif stop == 'command': pre, name = ['--command', SCRIPT], 'mes'
    elif stop == 'command=': pre, name = ['--command=' + SCRIPT], 'mes'
    elif stop == 'dash': pre, name, inp = ['-'], '-', SCRIPT
    elif stop == 'dashes': pre, name, inp = ['--'], 'mes', SCRIPT
    elif stop == 'none': name, inp = 'mes', SCRIPT
    line = sum(opts, []) + pre + args
    if stop == 'none' and opts:     # nothing ends argument processing: what (command-line) is is not said
        inp, name = SCRIPT.replace('(write (command-line))', '').replace('(write args)', ''), None
    if stop in ('file', 'dash') and args[:1] == ['--']:     # as scripts/mescc has it
        args = args[1:]
    cl = '' if not name else '(%s)' % ' '.join(scm(x) for x in [name] + args)
    out = 'S' + cl + dirs
    if m:
        out += 'N' + cl + '2' if 'main2' in m[0] else 'M' + cl + '1'
    add('options %s' % ' '.join(map(repr, line)), line, out, inp=inp, files=files)
def combos():
    o0 = [[]]; o1 = [[o] for o in OPTS]; o2 = [list(o) for o in P(OPTS, repeat=2)]
    a0 = [[]]; a1 = [[a] for a in ARGS]; a2 = [list(a) for a in P(ARGS, repeat=2)]
    for s in STOPS:
        yield from ((o, s, a) for o in o0 + o1 for a in a0 + (a1 if s != 'none' else []))
    for s in STOPS:
        many = s in ('s', 'file', 'c') or D
        if s != 'none':
            yield from ((o, s, a) for o in o0 + (o1 if D else []) for a in (a2 if many else [['x', a] for a in ARGS]))
        if many or s in ('dash', 'none'):
            yield from ((o, s, a) for o in o2 for a in ([['-s'], ['x', '-e']] if s != 'none' else a0))
        if D:
            o3 = [list(o) for o in P([OPTS[0], OPTS[3], OPTS[5], OPTS[6], OPTS[7], OPTS[8]], repeat=3)]
            yield from ((o, s, a) for o in o3 for a in ([['-s', 'x']] if s != 'none' else a0))
            if s in ('s', 'file', 'c'):
                yield from (([], s, list(a)) for a in P(['x', '-s', '--', '-c', '', '-h'], repeat=3))
for o, s, a in combos():
    # a value of --command=X is followed by options until the first argument that is not one
    if s == 'command=' and (a[:1] and a[0].startswith('-') or '--' in a):
        continue
    run1(o, s, a)
n1 = len(jobs)

# 2. help, version, wrong usage
VER = None
for pre in [[]] + [o for o in OPTS if o[0] != '-C' or True]:
    for h in ('-h', '--help', '-v', '-V', '--version'):
        for post in ([], ['t.scm'], ['-s', 't.scm'], ['-L', 'x']):
            add('help %r' % (pre + [h] + post), pre + [h] + post, None, files={'t.scm': '(display "ran")'})
    for bad in (['--nosuch'], ['--nosuch=1'], ['-Z'], ['--command'], ['-c'], ['-s'], ['--source'], ['-L'], ['-e'], ['-C'], ['--load-path'], ['--main'], ['nosuch.scm'], ['-s', 'nosuch.scm'], ['nosuch/t.scm'], ['-s', '']):
        add('usage %r' % (pre + bad), pre + bad, b'', rc='bad', inp=b'(display "ran")')

# 3. exit status
HOW = ['(exit {n})', '(begin (exit {n}) 1)', '(let loop ((i 0)) (if (= i 5) (exit {n}) (loop (+ i 1))))', '(define (f) (exit {n})) (f)', "(catch #t (lambda () (exit {n})) (lambda (k . a) (display 'caught)))",
       "(catch #t (lambda () (throw 'a)) (lambda (k . a) (exit {n})))", '(call/cc (lambda (k) (k (exit {n}))))', '(map (lambda (x) (exit {n})) (list 1 2))', '(with-output-to-string (lambda () (display "lost") (exit {n})))',
       '(define x (exit {n}))', '(if (exit {n}) 1 2)', '(apply exit (list {n}))', '(with-input-from-string "xyz" (lambda () (read-char) (exit {n})))', '(dynamic-wind (lambda () #t) (lambda () (exit {n})) (lambda () (display "after")))']
def exits(n, how, k):
    text = ('(mes-use-module (mes guile)) ' if 'with-' in HOW[how] else '') + '(display "a")' + HOW[how].format(n=n) + '(display "b")'
    v = ['-c', text] if k == 'c' else ['-s', 't.scm'] if k == 's' else ['t.scm', '-c', 'x'] if k == 'file' else [] if k == 'in' else ['-']
    add('exit %s %s' % (text, k), v, b'a', rc=n & 255, inp=text if k in ('in', 'dash') else b'', files={'t.scm': text})
for n in range(0, 256):
    exits(n, n % len(HOW), 'csfile'[0] if n % 2 else 's')
for n in (256, 257, 511, -1, -256):
    exits(n, 0, 'c'); exits(n, 0, 'in')
for how in range(len(HOW)):
    for k in ('c', 's', 'file', 'in', 'dash'):
        for n in (0, 1, 7, 255) if D or how < 6 else (0, 7):
            exits(n, how, k)

# 4. programs composed of the shortest pieces, in every way to run them
PIECES = {'': '', ' ': '', '\n': '', '; c\n': '', '#| b |#': '', '(begin)': '', '(display 1)': '1', '"x"': '', '#;(display 2)': '', '#!c\n!#': '', '(define (q) (display 3))(q)': '3', '(begin (display 4))': '4', '(let () (display 5))': '5', '(values)': '', '#f': ''}
pl = list(PIECES)
for k in (1, 2, 3):
    for s in (P(pl, repeat=k) if k < 3 or D else P([pl[0], pl[3], pl[5], pl[6], pl[8], pl[10]], repeat=3)):
        text = ''.join(s)
        o = ''.join(PIECES[x] for x in s)
        for way in ('s', 'in', 'load', 'c', 'file', 'dash', 'include'):
            if (way in ('file', 'dash', 'include') and k > 1 and not D) or (way == 'c' and k > 2 and not D):
                continue
            nl = text + '\n' if way in ('in',) and k == 2 and len(text) % 2 else text
            if way == 's': add('program %r -s' % nl, ['-s', 't.scm'], o, files={'t.scm': nl})
            elif way == 'file': add('program %r file' % nl, ['t.scm'], o, files={'t.scm': nl})
            elif way == 'in': add('program %r stdin' % nl, [], o, inp=nl)
            elif way == 'dash': add('program %r -' % nl, ['-'], o, inp=nl)
            elif way == 'c': add('program %r -c' % nl, ['-c', nl], o)
            else: add('program %r %s' % (nl, way), ['-s', 't.scm'], '[' + o + ']', files={'t.scm': '(display "[")(%s "u.scm")(display "]")' % ('load' if way == 'load' else 'primitive-load'), 'u.scm': nl})

# 5. the environment: all sequences of operations, against a dictionary
NAMES, VALS = ['MA', 'MAB', 'MB', 'L' * 1500], ['', 'v', 'a=b', 'w' * 3000]
EOPS = [('s', n, v) for n in NAMES[:3] for v in VALS[:3]] + [('s', NAMES[3], 'v'), ('s', 'MA', VALS[3])]
seqs = [s for k in (1, 2, 3) for s in P(EOPS, repeat=k)]
if not D:
    seqs = [s for s in seqs if len(s) < 3 or len({o[1][:2] for o in s}) <= 2 and s[0][2] != VALS[3]]
SH = 40
CH = '(define (d s) (display (if (string? s) (if (> (string-length s) 50) (string-length s) (string-append "<" s ">")) s)) (display " "))'
def shown(v):
    return ('#f' if v is None else str(len(v)) if len(v) > 50 else '<%s>' % v) + ' '
for i in range(0, len(seqs), SH):
    text, o = [CH], []
    for j, s in enumerate(seqs[i:i + SH]):
        e = {}
        for _, n, v in s:
            e['K%d%s' % (j, n)] = v
            text.append('(setenv %s %s)' % (scm('K%d%s' % (j, n)), scm(v)))
            for m in NAMES:
                text.append('(d (getenv %s))' % scm('K%d%s' % (j, m)))
                o.append(shown(e.get('K%d%s' % (j, m))))
        text.append('(d (getenv "K%d"))' % j); o.append(shown(None))
        text.append('(d (getenv "OUTER%d"))' % (j % 3)); o.append(shown([None, 'x=y', ''][j % 3]))
        if j % 8 == 0:
            text.append('(system* "sh" "-c" "printf \'%%s \' \\"$K%dMA\\" \\"$K%dMAB\\" \\"$OUTER1\\"")' % (j, j))
            o.append('%s %s x=y ' % (e.get('K%dMA' % j, ''), e.get('K%dMAB' % j, '')))
    add('environment %r' % (seqs[i],), ['-s', 't.scm'], ''.join(o), env={'OUTER1': 'x=y', 'OUTER2': ''}, files={'t.scm': '\n'.join(text)})

# 6. processes
def script(name, text, out, **kw):
    add(name, ['-s', 't.scm'], out, files=dict({'t.scm': text}, **kw.pop('files', {})), **kw)
for i in range(0, 256, 32):
    script('system* exit %d..' % i, ''.join('(display (status:exit-val (system* "sh" "-c" "exit %d")))(display " ")' % n for n in range(i, i + 32)), ''.join('%d ' % n for n in range(i, i + 32)))
    script('fork exit %d..' % i, ''.join('(let ((p (primitive-fork))) (if (zero? p) (exit %d) (let ((s (waitpid p))) (display (list (= p (car s)) (status:exit-val (cdr s))))))) ' % n for n in range(i, i + 32)), ''.join('(#t %d)' % n for n in range(i, i + 32)))
script('system* signal', ''.join('(display (let ((s (system* "sh" "-c" "kill -%d $$"))) (list (status:exit-val s) (logand s 127))))' % n for n in (1, 2, 9, 15)), ''.join('(#f %d)' % n for n in (1, 2, 9, 15)))
SA = [a for a in ARGS if a != 'x'] + ['$HOME', '*', 'a\nb', '"', "'", '\\', '\xe9', '#', 'x' * 2000]
av = [list(a) for k in (0, 1, 2) for a in P(SA, repeat=k)]
for i in range(0, len(av), 30):
    text = ''.join('(display %s)(system* "sh" "-c" "printf \'<%%s>\' $# \\"$@\\"" "zero" %s)' % (scm('%d:' % j), ' '.join(map(scm, a))) for j, a in enumerate(av[i:i + 30]))
    script('system* arguments %r' % av[i], text, ''.join('%d:<%d>' % (j, len(a)) + ''.join('<%s>' % x for x in a) for j, a in enumerate(av[i:i + 30])))
# the output of parent and children, redirected or not: every nesting to a depth, against a model
SYS = {'d': '(display "D")', 's': '(system* "sh" "-c" "printf C; printf E >&2")', 'n': '(newline)', 'x': '(execlp "sh" (list "-c" "printf X"))'}
def sim(prog, out, err, st):
    for x in prog:
        if isinstance(x, str):
            if x == 'd': st[out] += 'D'
            elif x == 'n': st[out] += '\n'
            elif x == 's': st[out] += 'C'; st[err] += 'E'
            elif x == 'x': st[1] += 'X'; return True    # the ports of this process do not count
        else:
            k, sub = x
            if k in 'FGH': st[k] = ''
            if k == 'R':      # child process
                sim(sub, out, err, st)
            elif sim(sub, k if k in 'FG' else 2 if k == 'E' else out, 'H' if k == 'H' else 1 if k == 'S' else err, st):
                return True
    return False
WR = {'F': '(with-output-to-file "f" (lambda () %s))', 'G': '(with-output-to-file "g" (lambda () %s))', 'E': '(with-output-to-port 2 (lambda () %s))', 'H': '(with-error-to-file "h" (lambda () %s))', 'S': '(let ((e (set-current-error-port 1))) %s (set-current-error-port e))',
      'R': '(let ((p (primitive-fork))) (if (zero? p) (begin %s (exit 0)) (waitpid p)))'}
def ptext(p):
    return ' '.join(SYS[x] if isinstance(x, str) else WR[x[0]] % ptext(x[1]) for x in p)
flat = [list(x) for k in (1, 2, 3) for x in P('dsn', repeat=k)] + [['d', 's', 'x'], ['s', 'x', 'd'], ['x']]
progs = flat + [['d', (k, f), 's', 'd'] for k in WR for f in flat if k in 'FR' or 'x' not in f or f[-1] == 'x']
small = [['d', 's'], ['s', 'n', 's'], ['s', 'd', 'x']]
progs += [['s', (k, ['d', (k2, f), 's']), 's', 'd'] for k in WR for k2 in WR for f in small if not (k == k2 and k in 'FGH')]
if D:
    progs += [['s', (k, ['d', (k2, ['d', (k3, f), 's']), 's']), 's', 'd'] for k in WR for k2 in WR for k3 in WR for f in small if len(set(k + k2 + k3) & set('FGH')) == sum(x in 'FGH' for x in k + k2 + k3)]
WPRE = '(mes-use-module (mes guile)) '
for p in progs:
    st = {1: '', 2: ''}
    sim(p, 1, 2, st)
    add('redirected children %s' % ptext(p), ['-s', 't.scm'], st[1], err=st[2].encode(), files={'t.scm': WPRE + ptext(p)}, left={k.lower(): v.encode() for k, v in st.items() if k in ('F', 'G', 'H')})
# waiting for a chosen child: every order of three children that end in every order
for ends in itertools.permutations((0, 1, 2)):
    for waits in itertools.permutations((0, 1, 2)):
        text = '(define (child n) (let ((p (primitive-fork))) (if (zero? p) (begin (system* "sleep" (list-ref (list "0" "0.02" "0.04") n)) (exit (+ 10 n))) p)))' + \
               ''.join('(define p%d (child %d))' % (i, e) for i, e in enumerate(ends)) + \
               ''.join('(let ((s (waitpid p%d))) (display (list (= (car s) p%d) (status:exit-val (cdr s)))))' % (i, i) for i in waits) + '(display (car (waitpid -1)))'
        script('waitpid %r %r' % (ends, waits), text, ''.join('(#t %d)' % (10 + ends[i]) for i in waits) + '-1')
for rest in ('(display "p")', ''):
    script('fork output' + rest, '(display "a")(if (zero? (primitive-fork)) (begin (display "c") (exit 3)) (begin (display (status:exit-val (cdr (waitpid -1))))%s))' % rest, 'ac3' + ('p' if rest else ''))
for prog, ok in (('nosuchprogram', 0), ('/nosuch/program', 0), ('./t.scm', 0), ('./sub', 0), ('true', 1), ('./ok.sh', 1), ('sub/ok.sh', 1)):
    script('system* %s' % prog, '(display "a")(system* "chmod" "755" "ok.sh" "sub/ok.sh")(display (if (= 0 (system* "%s")) "yes" "no"))(display "b")' % prog, 'ayesb' if ok else 'anob', err=b'' if ok else None, files={'ok.sh': '#!/bin/sh\nexit 0\n', 'sub/ok.sh': '#!/bin/sh\nexit 0\n'})
for prog in ('sh', './ok.sh'):
    for n in (0, 3, 255):
        script('execlp %s %d' % (prog, n), '(display "a")(system* "chmod" "755" "ok.sh")(execlp "%s" (list %s))(display "not reached")' % (prog, '"-c" "echo b; exit %d"' % n if prog == 'sh' else '"%d"' % n), 'ab\n', rc=n, files={'ok.sh': '#!/bin/sh\necho b\nexit $1\n'})
# standard input is shared with children (what mes has not read from)
for n in range(1):
    add('child reads stdin %d' % n, ['-s', 't.scm'], 'abcdefgh'[:n] + '|' + 'abcdefgh'[n:], inp=b'abcdefgh', files={'t.scm': '(let loop ((i 0)) (when (< i %d) (display (read-char)) (loop (+ i 1)))) (display "|") (system* "cat")' % n})

# 7. files
FOPS = {'c': ('(with-output-to-file "%s" (lambda () (display "z")))', None), 'd': ('(delete-file "%s")', None), 'm': ('(chmod "%s" 292)', None), 'x': ('(chmod "%s" 493)', None)}
ask = '(for-each (lambda (f) (display (list (access? f 0) (access? f 4) (access? f 1)))) (list "a" "b")) (system* "sh" "-c" "stat -c %n:%a:%s a b 2>/dev/null") '
fseq = [s for k in ((1, 2, 3) if not D else (1, 2, 3, 4)) for s in P([(o, f) for o in 'cdmx' for f in 'ab'], repeat=k) if s[0] != ('c', 'b')]
for i in range(0, len(fseq), 12):
    text, o = ['(mes-use-module (mes guile)) (define (fresh) (for-each (lambda (f) (if (access? f 0) (delete-file f))) (list "a" "b")))'], []
    for s in fseq[i:i + 12]:
        text.append('(fresh)')
        w = {}
        for op, f in s:
            text.append(FOPS[op][0] % f)
            if op == 'c': w[f] = w.get(f, '600')
            elif op == 'd': w.pop(f, None)
            elif f in w: w[f] = '444' if op == 'm' else '755'
        text.append(ask)
        o.append(''.join('(%s %s %s)' % (('#t', '#t', '#t' if w[f] == '755' else '#f') if f in w else ('#f', '#f', '#f')) for f in 'ab') + ''.join('%s:%s:1\n' % (f, w[f]) for f in sorted(w)))
    script('files %r' % (fseq[i],), '\n'.join(text), ''.join(o))
# search-path: which of three directories hold the file
for has in P((0, 1), repeat=3):
    for path in [p for k in (0, 1, 2, 3) for p in itertools.permutations(('p0', 'p1', 'p2'), k)]:
        r = next((p + '/f' for p in path if has[int(p[1])]), None)
        script('search-path %r %r' % (has, path), '(write (search-path (list %s) "f"))' % ' '.join(map(scm, path)), scm(r) if r else '#f', files={'p%d/%s' % (i, 'f' if h else 'other'): 'x' for i, h in enumerate(has)})
        if path and r:
            script('PATH %r %r' % (has, path), '(setenv "PATH" %s) (display (status:exit-val (system* "f")))' % scm(':'.join(path)), r[1], files={'p%d/%s' % (i, 'f' if h else 'other'): '#!/bin/sh\nexit %d\n' % i for i, h in enumerate(has)})
            jobs[-1][3]['x'] = ''
            names[-1] += ' '
            jobs[-1][3]['t.scm'] = '(system* "sh" "-c" "chmod 755 p?/*") ' + jobs[-1][3]['t.scm']
# descriptors: dup and dup2 between files and standard output
DOPS = ['(display "1")', '(dup2 fa 1)', '(dup2 fb 1)', '(dup2 save 1)', '(set! save (dup 1))', '(display "f" fa)', '(display "g" fb)']
for k in (1, 2, 3, 4) + ((5,) if D else ()):
    for s in P(range(len(DOPS)), repeat=k):
        if k >= 4 and (s[0] == 0 or 0 not in s or 5 in s and 6 in s):
            continue
        if k >= 4 and not D and (sum(s) % 2 or 3 not in s):
            continue
        files = {'o': '', 'fa': '', 'fb': ''}
        cur, save = 'o', 'o'
        for x in s:
            if x == 0: files[cur] += '1'
            elif x == 1: cur = 'fa'
            elif x == 2: cur = 'fb'
            elif x == 3: cur = save
            elif x == 4: save = cur
            elif x == 5: files['fa'] += 'f'
            else: files['fb'] += 'g'
        script('dup %s' % ' '.join(DOPS[x] for x in s), '(define fa (open-output-file "fa")) (define fb (open-output-file "fb")) (define save (dup 1)) ' + ' '.join(DOPS[x] for x in s), files['o'], left={'fa': files['fa'].encode(), 'fb': files['fb'].encode()})
# basename, getcwd, isatty?
BN = ['a', '/a', 'a/b', '/a/b.c', 'a.c', 'b.c.c', '.c', 'x/.c', 'a/b/c.d']
for e in (None, '.c', 'c', '.d', 'b.c', ''):
    script('basename %r' % e, ''.join('(write (basename %s%s))' % (scm(f), '' if e is None else ' ' + scm(e)) for f in BN),
           ''.join(scm((lambda b: b[:len(b) - len(e)] if e and b.endswith(e) else b)(f.split('/')[-1])) for f in BN if True))
script('isatty?', '(display (map isatty? (list 0 1 2 (open-input-file "t.scm"))))', '(#f #f #f #f)')
script('getcwd', '(display (let ((d (getcwd))) (and (access? (string-append d "/t.scm") 0) (= 0 (system* "test" d "-ef" ".")))))', '#t')
script('current-time', '(display (let* ((a (current-time)) (b (string->number (begin (system* "sh" "-c" "date +%s >d") (with-input-from-file "d" read-line)))) (c (current-time)) (g (gettimeofday))) (list (<= a b) (<= b c) (<= c (car g)) (<= 0 (cdr g) 999999))))', '(#t #t #t #t)')
jobs[-1][3]['t.scm'] = WPRE + jobs[-1][3]['t.scm']

c.log('%d programs, %d of them command lines' % (len(jobs), n1))
flt = os.environ.get('MESMC_GROUP')
if flt:
    keep = [i for i, n in enumerate(names) if re.search(flt, n)]
    jobs, want, names = [[x[i] for i in keep] for x in (jobs, want, names)]
mes = t.mes().encode()
bad, kinds = 0, {}
version = None
for name, (argv, inp, env, files), (rc, o, e, left), (grc, go, ge, gl) in zip(names, jobs, want, procs.run_all(c, t, jobs)):
    go = go.replace(mes, b'mes')
    c.add('evaluations', 1)
    c.add('runs: ' + name.split()[0], 1)
    if name.startswith('help'):
        v = any(x in argv for x in ('-v', '-V', '--version'))
        if v:
            version = version or go
            ok = (grc, go, ge) == (0, version, b'') and re.fullmatch(rb'mes \(GNU Mes\) [0-9][^\n]*\n', go)
        else:
            ok = grc == 0 and ge == b'' and go.startswith(b'Usage: mes ') and all(x in go for x in (b'-c ', b'-s', b'--main', b'--load-path', b'--help', b'--version', b'--'))
    elif rc == 'bad':
        ok = grc not in (0, 'timeout') and ge and go == o
    else:
        ok = (grc, go) == (rc, o) and (e is None or ge == e)
    ok = ok and all(gl.get(k) == v for k, v in left.items())
    if not ok:
        bad += 1
        kinds[name.split()[0]] = kinds.get(name.split()[0], 0) + 1
        if kinds[name.split()[0]] <= 5:
            c.fail('process: ' + name[:300], 'mes %r\n exit %r, expected %r\n stdout %r, expected %r\n stderr %r, expected %r\n files %r, expected %r' % ([a[:200] for a in argv], grc, rc, go[-300:], o and o[-300:], ge[-200:], e, {k: gl.get(k) for k in left}, left),
                   {'t.scm': files.get('t.scm') or ' '.join(argv), 'stdin': inp, 'expected.txt': o or b''})
c.log('whole programs           %6d cases, %d different' % (len(jobs), bad))
c.cov['distinct_nontrivial'] = len({n for n, w in zip(names, want) if w[1] or w[0] or w[1] is None})
c.cov['rule'] = 'one mes process per case, its command line, input, environment and files enumerated; non-trivial: it prints or exits with a status that is not 0; compared: exit status, standard output, standard error, files left behind, against a model of the process'
c.cov['samples'] = [dict(case=n[:200], argv=[a[:80] for a in j[0]], stdout=(w[1] or b'').decode('latin-1')[:120], status=w[0]) for n, j, w in list(zip(names, jobs, want))[::max(1, len(jobs) // 8)]]
c.cov['exhaustive'] = not flt
c.finish()
