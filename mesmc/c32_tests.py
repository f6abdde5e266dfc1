"""The data of C32: structures, unions, arrays, pointers, initializers, storage."""
import itertools

PRE = '''
unsigned long _h;
void H (long v)
{
  _h = (_h * 31 + v) & 268435455;
}
void B (char *p, int n)
{
  int i;
  for (i = 0; i < n; i++)
    H (p[i]);
}
void Z (char *p, int n, int v, int d)
{
  int i;
  for (i = 0; i < n; i++)
    {
      p[i] = v;
      v = v + d;
    }
}
int F (int x)
{
  return x + 1;
}
struct in { char x; int y; };
union un { char x; short s; long y; };
typedef unsigned char byte;
typedef char *text;
typedef struct in in_t;
typedef long word;
enum color { RED, GREEN = 5, BLUE };
'''
# kind: declaration, leaves (suffix, cast to read, cast to write), an initializer
KINDS = {
 'c': ('char %s', [('', '')], '%d'),
 'uc': ('unsigned char %s', [('', '')], '%d'),
 's': ('short %s', [('', '')], '%d'),
 'us': ('unsigned short %s', [('', '')], '%d'),
 'i': ('int %s', [('', '')], '%d'),
 'u': ('unsigned %s', [('', '')], '%d'),
 'l': ('long %s', [('', '')], '%d'),
 'ul': ('unsigned long %s', [('', '')], '%d'),
 'p': ('char *%s', [('', '(char *)')], '0'),
 'ip': ('int *%s', [('', '(int *)')], '0'),
 'pp': ('char **%s', [('', '(char **)')], '0'),
 'sp': ('struct sNAME *%s', [('', '(struct sNAME *)')], '0'),
 'fp': ('int (*%s) (int)', [('', '')], 'F'),
 'c3': ('char %s[3]', [('[0]', ''), ('[2]', '')], None),
 'i2': ('int %s[2]', [('[0]', ''), ('[1]', '')], None),
 'l2': ('long %s[2]', [('[0]', ''), ('[1]', '')], None),
 'cp2': ('char *%s[2]', [('[0]', '(char *)'), ('[1]', '(char *)')], None),
 'in': ('struct in %s', [('.x', ''), ('.y', '')], None),
 'in2': ('struct in %s[2]', [('[0].y', ''), ('[1].x', ''), ('[1].y', '')], None),
 'un': ('union un %s', [('.x', ''), ('.s', ''), ('.y', '')], None),
 'by': ('byte %s', [('', '')], '%d'),
 'tx': ('text %s', [('', '(char *)')], '0'),
 'it': ('in_t %s', [('.x', ''), ('.y', '')], None),
 'en': ('enum color %s', [('', '')], 'BLUE'),
 'wo': ('word %s', [('', '')], '%d'),
}
SCALAR = [k for k in KINDS if KINDS[k][2] is not None]

PLACES = {
 # place: declarations outside, in the function, set-up, the object, its address
 'global': ('struct sNAME gNAME;\n', '', '', 'gNAME'),
 'local': ('', 'char b1[5]; struct sNAME o; char b2[3];', '', 'o'),
 'static': ('', 'static struct sNAME o;', '', 'o'),
 'pointer': ('', 'struct sNAME o1; struct sNAME *p;', 'p = &o1;', '(*p)'),
 'arrow': ('struct sNAME gNAME;\n', 'struct sNAME *p;', 'p = &gNAME;', 'p->'),
 'element': ('', 'struct sNAME a[3]; int i;', 'i = 1; Z (a, sizeof (a), 3, 5);', 'a[i]'),
 'global element': ('struct sNAME gNAME[3];\n', 'int i;', 'i = 2;', 'gNAME[i]'),
 'first element': ('struct sNAME gNAME[3];\n', '', '', 'gNAME[0]'),
 'pointer element': ('struct sNAME gNAME[3];\n', 'struct sNAME *p; int i;', 'p = gNAME; i = 2;', 'p[i]'),
 'pointer arithmetic': ('struct sNAME gNAME[3];\n', 'struct sNAME *p;', 'p = gNAME; p = p + 1;', '(*(p + 1))'),
 'incremented pointer': ('struct sNAME gNAME[3];\n', 'struct sNAME *p;', 'p = gNAME; p++; ++p; p--;', 'p->'),
 'member': ('struct oNAME { char b; struct sNAME m; char e; };\n', 'struct oNAME o;', '', 'o.m'),
 'member of pointed to': ('struct oNAME { char b; struct sNAME m; char e; };\nstruct oNAME gNAME;\n', 'struct oNAME *q;', 'q = &gNAME;', 'q->m'),
 'pointer in member': ('struct oNAME { char b; struct sNAME *m; char e; };\nstruct sNAME gNAME;\n', 'struct oNAME o; struct oNAME *q;', 'o.m = &gNAME; q = &o;', 'q->m->'),
 'array of pointers': ('struct sNAME gNAME;\n', 'struct sNAME *t[3]; int i;', 'i = 2; t[2] = &gNAME;', 't[i]->'),
 'pointer to pointer': ('struct sNAME gNAME;\n', 'struct sNAME *p; struct sNAME **t;', 'p = &gNAME; t = &p;', '(*t)->'),
 'element of member': ('struct oNAME { char b; struct sNAME m[2]; char e; };\n', 'struct oNAME o;', '', 'o.m[1]'),
}
def struct(kinds, tag='struct', name='s'):
    return '%s %sNAME { %s };\n' % (tag, name, ' '.join(KINDS[k][0] % ('f%d' % i) + ';' for i, k in enumerate(kinds)))

def dot(o):
    return o if o.endswith('->') else o + '.'
def whole(o):
    return '(*%s)' % o[:-2] if o.endswith('->') else o
def address(o):
    if o.endswith('->'): return o[:-2]
    if o.startswith('(*') and o.endswith(')'): return o[2:-1]
    return '&' + o

def access(kinds, place, tag='struct'):
    """Reads all of it from bytes; writes each leaf and shows the bytes."""
    out, decl, setup, o = PLACES[place]
    b = 'char *z; int n; _h = 1; n = sizeof (%s sNAME); %s z = (char *) %s; H (n);\n' % (tag, setup, address(o))
    b += ' Z (z, n, x_c, 7);\n'
    for i, k in enumerate(kinds):
        for suffix, cast in KINDS[k][1]:
            b += ' H ((long) %sf%d%s);' % (dot(o), i, suffix)
        b += ' H (sizeof (%sf%d)); H ((char *) &%sf%d - z);\n' % (dot(o), i, dot(o), i)
    for i, k in enumerate(kinds):
        for suffix, cast in KINDS[k][1]:
            if k == 'fp': b += ' %sf%d = &F; H (%sf%d (4)); H ((*%sf%d) (5)); %sf%d = 0;' % ((dot(o), i) * 4)
            else: b += ' %sf%d%s = %s(x_c + %d); B (z, n);' % (dot(o), i, suffix, cast, i * 3)
        b += '\n'
    if place == 'local': b += ' Z (b1, 5, 1, 1); Z (b2, 3, 1, 1); Z (z, n, x_c, 0); B (b1, 5); B (b2, 3);\n'
    if place == 'element': b += ' B ((char *) a, sizeof (a));\n'
    return (struct(kinds, tag) + out.replace('struct sNAME', tag + ' sNAME') + 'long NAME (void)\n{\n %s\n' % decl.replace('struct sNAME', tag + ' sNAME') + b + ' return _h;\n}').replace('struct sNAME', tag + ' sNAME')

COPIES = [
 ('', 'struct sNAME a; struct sNAME b;', 'a', 'b', ''),
 ('struct sNAME gNAME; struct sNAME hNAME;\n', '', 'gNAME', 'hNAME', ''),
 ('', 'struct sNAME a; struct sNAME b; struct sNAME *p; struct sNAME *q;', '*p', '*q', 'p = &a; q = &b;'),
 ('', 'struct sNAME a; struct sNAME b; struct sNAME *p;', 'a', '*p', 'p = &b;'),
 ('', 'struct sNAME a; struct sNAME b; struct sNAME *p;', '*p', 'b', 'p = &a;'),
 ('', 'struct sNAME v[3]; int i;', 'v[i]', 'v[2]', 'i = 1;'),
 ('struct sNAME gNAME[3];\n', 'struct sNAME v[3]; int i;', 'gNAME[i]', 'v[i]', 'i = 1;'),
 ('struct oNAME { char b; struct sNAME m; char e; };\n', 'struct oNAME o; struct sNAME a;', 'o.m', 'a', ''),
 ('struct oNAME { char b; struct sNAME m; char e; };\n', 'struct oNAME o; struct sNAME a;', 'a', 'o.m', ''),
 ('struct oNAME { char b; struct sNAME m; char e; };\n', 'struct oNAME o; struct sNAME a; struct oNAME *p;', 'p->m', 'a', 'p = &o;'),
]
def copy(kinds, c):
    out, decl, a, b, setup = c
    return struct(kinds) + out + 'long NAME (void)\n{\n int n; %s %s\n _h = 1; n = sizeof (struct sNAME);\n Z ((char *) &%s, n, x_c, 3); Z ((char *) &%s, n, x_c, 5);\n %s = %s;\n B ((char *) &%s, n); B ((char *) &%s, n);\n return _h;\n}' % (
        decl, setup, a, b, a, b, a, b)

def value(k, n):
    return KINDS[k][2].replace('%d', str(n * 37 - 40))

def inits(kinds):
    """Initializers of a structure of scalars."""
    one = lambda n, m: '{ %s }' % ', '.join(value(k, n + i) for i, k in enumerate(kinds[:m]))
    show = lambda o: ''.join(' H ((long) %sf%d);' % (dot(o), i) if k != 'fp' else ' if (%sf%d) H (%sf%d (7));' % (dot(o), i, dot(o), i) for i, k in enumerate(kinds))
    s = struct(kinds)
    f = 'long NAME (void)\n{\n %s _h = 1; %s return _h;\n}'
    for m in range(1, len(kinds) + 1):
        yield s + 'struct sNAME gNAME = %s;\n' % one(0, m) + f % ('', show('gNAME') + ' B ((char *) &gNAME, sizeof (gNAME));' * ('fp' not in kinds))
        yield s + f % ('struct sNAME o = %s;' % one(0, m), show('o'))
        yield s + f % ('static struct sNAME o = %s;' % one(0, m), show('o'))
        yield s + 'struct sNAME gNAME[] = { %s, %s };\n' % (one(0, m), one(9, m)) + f % ('', show('gNAME[0]') + show('gNAME[1]') + ' H (sizeof (gNAME));')
        yield s + 'struct sNAME gNAME[3] = { %s, %s };\n' % (one(0, m), one(9, m)) + f % ('', show('gNAME[0]') + show('gNAME[1]') + show('gNAME[2]') + ' H (sizeof (gNAME));')
        yield s + f % ('struct sNAME o[2] = { %s, %s };' % (one(0, m), one(9, m)), show('o[0]') + show('o[1]'))

SIMPLE = '''
int gNAME[3] = { 1, 2, 3 };@ for (int i = 0; i < 3; i++) H (gNAME[i]); H (sizeof (gNAME));
int gNAME[] = { 1, -2, 3 };@ for (int i = 0; i < 3; i++) H (gNAME[i]); H (sizeof (gNAME));
int gNAME[5] = { 1, 2, 3 };@ for (int i = 0; i < 5; i++) H (gNAME[i]); H (sizeof (gNAME));
char gNAME[5] = { 1, 'a', 3 };@ for (int i = 0; i < 5; i++) H (gNAME[i]); H (sizeof (gNAME));
char gNAME[] = { 1, 'a', -3 };@ for (int i = 0; i < 3; i++) H (gNAME[i]); H (sizeof (gNAME));
short gNAME[4] = { 1, -2, 300 };@ for (int i = 0; i < 4; i++) H (gNAME[i]); H (sizeof (gNAME));
unsigned char gNAME[4] = { 1, 200, 255 };@ for (int i = 0; i < 4; i++) H (gNAME[i]); H (sizeof (gNAME));
long gNAME[4] = { 1, -2, 70000 };@ for (int i = 0; i < 4; i++) H (gNAME[i]); H (sizeof (gNAME));
char gNAME[] = "abc";@ for (int i = 0; i < 4; i++) H (gNAME[i]); H (sizeof (gNAME));
char gNAME[6] = "abc";@ for (int i = 0; i < 6; i++) H (gNAME[i]); H (sizeof (gNAME));
char gNAME[3] = "abc"; char hNAME = 7;@ for (int i = 0; i < 3; i++) H (gNAME[i]); H (sizeof (gNAME)); H (hNAME);
char *gNAME = "abc";@ for (int i = 0; i < 4; i++) H (gNAME[i]); H (sizeof (gNAME));
char *gNAME[] = { "abc", "d", "" };@ H (gNAME[0][1]); H (*gNAME[1]); H (gNAME[2][0]); H (sizeof (gNAME));
char *gNAME[4] = { "abc", "d", 0 };@ H (gNAME[0][1]); H (*gNAME[1]); H (gNAME[2] == 0); H (gNAME[3] == 0); H (sizeof (gNAME));
int xNAME = 3; int *gNAME = &xNAME;@ H (*gNAME); *gNAME = 9; H (xNAME);
int xNAME[3] = { 4, 5, 6 }; int *gNAME = xNAME;@ H (gNAME[1]); gNAME++; H (*gNAME); gNAME--;
int xNAME[3] = { 4, 5, 6 }; int *gNAME = &xNAME;@ H (gNAME[1]); gNAME++; H (*gNAME); gNAME--;
int xNAME = 3; int yNAME = 4; int *gNAME[2] = { &xNAME, &yNAME };@ H (*gNAME[0]); H (*gNAME[1]); *gNAME[1] = 8; H (yNAME);
int xNAME = 3; int *gNAME = &xNAME; int **hNAME = &gNAME;@ H (**hNAME); **hNAME = 8; H (xNAME);
struct in gNAME = { 1, 2 }; struct in *hNAME = &gNAME;@ H (hNAME->y); hNAME->x = 7; H (gNAME.x);
struct oNAME { int a; struct in m; char c; }; struct oNAME gNAME = { 1, { 2, 3 }, 4 };@ H (gNAME.a); H (gNAME.m.x); H (gNAME.m.y); H (gNAME.c); H (sizeof (gNAME));
struct oNAME { int a; char s[4]; char c; }; struct oNAME gNAME = { 1, "abc", 4 };@ H (gNAME.a); B (gNAME.s, 4); H (gNAME.c);
struct oNAME { int a; char *s; char c; }; struct oNAME gNAME = { 1, "abc", 4 };@ H (gNAME.a); B (gNAME.s, 4); H (gNAME.c);
struct oNAME { int a; char *s; }; struct oNAME gNAME[] = { { 1, "abc" }, { 2, "de" }, { 0, 0 } };@ struct oNAME *p; for (p = gNAME; p->s; p++) { H (p->a); H (p->s[1]); } H (sizeof (gNAME));
struct oNAME { int a; int v[3]; char c; }; struct oNAME gNAME = { 1, { 5, 6, 7 }, 4 };@ H (gNAME.a); for (int i = 0; i < 3; i++) H (gNAME.v[i]); H (gNAME.c); H (sizeof (gNAME));
struct oNAME { int (*f) (int); int a; }; struct oNAME gNAME = { F, 4 };@ H (gNAME.f (gNAME.a)); H (sizeof (gNAME));
struct oNAME { int (*f) (int); int a; }; struct oNAME gNAME = { &F, 4 };@ H (gNAME.f (gNAME.a));
int (*gNAME) (int) = F; int hNAME = 3;@ H (gNAME (hNAME)); H (hNAME);
int (*gNAME) (int) = &F;@ H (gNAME (5)); H (sizeof (gNAME));
int gNAME[2][3];@ int i; int j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) gNAME[i][j] = i * 10 + j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) H (gNAME[i][j]); B ((char *) gNAME, sizeof (gNAME)); H (sizeof (gNAME[0]));
char gNAME[2][3];@ int i; int j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) gNAME[i][j] = i * 10 + j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) H (gNAME[i][j]); B ((char *) gNAME, sizeof (gNAME)); H (sizeof (gNAME[0]));
@ int a[3][2]; int i; int j; for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) a[i][j] = i * 10 + j; for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) H (a[i][j]); B ((char *) a, sizeof (a)); H (sizeof (a[0]));
@ int a[3] = { 1, 2, 3 }; for (int i = 0; i < 3; i++) H (a[i]); H (sizeof (a));
@ int a[] = { 1, 2, 3, 4 }; for (int i = 0; i < 4; i++) H (a[i]); H (sizeof (a));
@ int a[5] = { 1, 2 }; for (int i = 0; i < 5; i++) H (a[i]); H (sizeof (a));
@ int a[5] = { 0 }; for (int i = 0; i < 5; i++) H (a[i]); H (sizeof (a));
@ char a[5] = { 1, 'b' }; for (int i = 0; i < 5; i++) H (a[i]); H (sizeof (a));
@ char a[] = "abc"; for (int i = 0; i < 4; i++) H (a[i]); H (sizeof (a));
@ char a[6] = "abc"; for (int i = 0; i < 6; i++) H (a[i]); H (sizeof (a)); a[1] = 'z'; H (a[1]);
@ char *a = "abc"; for (int i = 0; i < 4; i++) H (a[i]); H (sizeof (a));
@ char *a[] = { "abc", "d" }; H (a[0][1]); H (*a[1]); H (sizeof (a));
@ char *a[3] = { "abc", "d", 0 }; H (a[0][1]); H (*a[1]); H (a[2] == 0); H (sizeof (a));
@ short a[3] = { 1, -2, 300 }; for (int i = 0; i < 3; i++) H (a[i]); H (sizeof (a));
@ long a[3] = { 1, -2, 70000 }; for (int i = 0; i < 3; i++) H (a[i]); H (sizeof (a));
@ int v = x_c; int a[3] = { v, v + 1, v * 2 }; for (int i = 0; i < 3; i++) H (a[i]);
@ int v = x_c; struct in o = { v, v + 1 }; H (o.x); H (o.y);
@ static int a[3] = { 1, 2, 3 }; a[0]++; H (a[1]); H (sizeof (a));
@ static char a[] = "abc"; H (a[1]); H (sizeof (a));
@ static char *a[] = { "abc", "d" }; H (a[0][1]); H (a[1][0]); H (sizeof (a));
@ static char a[4] = "ab"; B (a, 4);
@ static int n = 3; static int m; m++; H (n); m = m - 1; H (m);
@ int a = 1, b = 2, *p = &a, c[2]; c[0] = 3; c[1] = 4; H (a); H (b); H (*p); H (c[1]);
@ char a = 'x', *p = &a; *p = 'y'; H (a);
@ char *p; p = "abcdef"; H (*p++); H (*p); H (*++p); H (*p--); H (*p); H (*--p); H (p[2]);
@ char b[4]; char *p; p = b; *p++ = 1; *p++ = 2; *p = 3; *++p = 4; B (b, 4); H (p - b);
@ int b[4]; int *p; p = b; *p++ = 1; *p++ = 2; *p = 3; *++p = 4; H (b[0]); H (b[1]); H (b[2]); H (b[3]); H (p - b);
@ long b[4]; long *p; p = b; *p++ = 1; *p++ = 2; *p = 3; *++p = 4; H (b[0]); H (b[1]); H (b[2]); H (b[3]); H (p - b);
@ short b[4]; short *p; p = b; *p++ = 1; *p++ = 2; *p = 3; *++p = 4; H (b[0]); H (b[1]); H (b[2]); H (b[3]); H (p - b);
@ struct in b[3]; struct in *p; p = b; p->y = 1; p++; p->y = 2; p += 1; p->y = 3; H (b[0].y); H (b[1].y); H (b[2].y); H (p - b); p -= 2; H (p->y); H (p == b);
@ int b[4]; int *p; int *q; Z ((char *) b, sizeof (b), x_c, 3); p = b; q = &b[3]; H (q - p); H (p < q); H (p + 3 == q); H (q[-1]); H (*(q - 2)); H (&b[2] - &b[0]); H (&q[-1] == b + 2);
@ char b[4]; char *p; Z (b, 4, x_c, 3); p = b + 1; H ((*p)++); H (*p); H (++(*p)); H (p[-1]); p[-1] += 2; B (b, 4); H (1[p]);
@ int b[4]; int *p; Z ((char *) b, sizeof (b), x_c, 3); p = b + 1; H ((*p)++); H (*p); H (++(*p)); H (p[-1]); p[-1] += 2; B ((char *) b, sizeof (b));
@ int x; int *p; int **q; x = x_c; p = &x; q = &p; **q = **q + 1; H (x); (*q)++; H (*q - &x); H (*&x);
@ struct in o; struct in *p; int *q; char *c; p = &o; q = &p->y; *q = x_c; c = &o.x; *c = 3; H (o.x); H (p->y); q = &o.y; H (*q); H (&p->y == q);
@ struct in o; void *v; v = &o; ((struct in *) v)->y = x_c; H (o.y); H (((struct in *) v)->y); H (*(int *) ((char *) v + 1));
@ int x; x = 0x11223344; char *p; p = (char *) &x; H (p[0]); H (*(short *) (p + 1)); *(short *) p = 0x5566; H (x);
@ char *p; p = "abc" "def"; B (p, 7); H (sizeof ("abc"));
@ char *p; p = "a\\n\\t\\\\\\"\\'\\0z\\x41\\101\\r"; B (p, 12);
@ H ('\\n'); H ('\\0'); H ('\\''); H ('"'); H ('\\\\'); H ('\\x41'); H ('\\101'); H ('\\377'); H ('\\xff');
@ H ("abc"[1]); H (*"abc"); H (*("abc" + 2));
@ H (sizeof (char)); H (sizeof (short)); H (sizeof (int)); H (sizeof (long)); H (sizeof (char *)); H (sizeof (struct in)); H (sizeof (union un)); H (sizeof (in_t)); H (sizeof (byte)); H (sizeof (text)); H (sizeof (unsigned)); H (sizeof (unsigned long)); H (sizeof (enum color));
@ char c; short s; long l; char *p; int a[7]; struct in o[2]; H (sizeof (c)); H (sizeof (s)); H (sizeof (l)); H (sizeof (p)); H (sizeof (*p)); H (sizeof (a)); H (sizeof (a[0])); H (sizeof (a) / sizeof (a[0])); H (sizeof (o)); H (sizeof (o[0])); H (sizeof (o[0].y)); H (sizeof (c + 1));
@ H (RED); H (GREEN); H (BLUE); enum color k; k = BLUE; H (k == 6); H (k + 1);
@ byte b; b = 250; b = b + 10; H (b); text t; t = "xy"; H (t[1]); in_t o; o.y = 4; H (o.y); word w; w = -3; H (w); in_t *p; p = &o; H (p->y);
typedef int arrNAME[3];@ arrNAME a; a[0] = 1; a[2] = 5; H (a[2]); H (sizeof (a));
typedef struct oNAME { int a; struct oNAME *n; } oNAME; @ oNAME x; oNAME y; oNAME *p; x.a = 1; y.a = 2; x.n = &y; y.n = 0; for (p = &x; p; p = p->n) H (p->a); H (x.n->a); H (x.n->n == 0);
typedef struct { int a; char b; } oNAME; @ oNAME x; x.a = 3; x.b = 4; H (x.a + x.b); H (sizeof (oNAME));
struct oNAME { int a; struct { char b; int c; } m; }; @ struct oNAME x; x.a = 3; x.m.b = 4; x.m.c = 5; H (x.a + x.m.b * 10 + x.m.c * 100);  H (sizeof (x));
struct oNAME { int a; union { char b; int c; } m; char e; }; @ struct oNAME x; x.e = 9; x.a = 3; x.m.c = 0x12345678; H (x.m.b); H (x.a); H (x.e); H (sizeof (x));
struct oNAME { int a; union { char b; int c; }; char e; }; @ struct oNAME x; x.e = 9; x.a = 3; x.c = 0x12345678; H (x.b); H (x.a); H (x.e); H (sizeof (x));
struct oNAME { int a; struct { char b; int c; }; char e; }; @ struct oNAME x; x.e = 9; x.a = 3; x.c = 0x12345678; x.b = 5; H (x.b); H (x.c); H (x.a); H (x.e); H (sizeof (x));
extern int gNAME; int fNAME (void) { return gNAME; } int gNAME = 5;@ H (fNAME ()); gNAME = 6; H (fNAME ());
extern int gNAME[3]; int fNAME (void) { return gNAME[1]; } int gNAME[3] = { 4, 5, 6 };@ H (fNAME ()); gNAME[1] = 6; H (fNAME ());
static int gNAME = 5; static int fNAME (void) { return gNAME; }@ H (fNAME ()); gNAME = 6; H (fNAME ());
int fNAME (void) { static int n = 3; n++; return n; } int hNAME (void) { static int n = 7; n++; return n; }@ H (fNAME () - fNAME ()); H (hNAME () - hNAME ());
int fNAME (char a[], int n) { return a[n]; }@ char b[3]; b[0] = 1; b[1] = 2; b[2] = 3; H (fNAME (b, 2)); H (fNAME (b + 1, 0));
int fNAME (int a[3], int n) { a[n] = a[n] + 1; return a[n]; }@ int b[3]; b[0] = 1; b[1] = 2; b[2] = 3; H (fNAME (b, 2)); H (fNAME (b + 1, 0)); H (b[2]);
int fNAME (char *a[], int n) { return a[n][0]; }@ char *b[2]; b[0] = "ab"; b[1] = "cd"; H (fNAME (b, 1));
int fNAME (char **a, int n) { return a[n][0] + **a + *a[1]; }@ char *b[2]; b[0] = "ab"; b[1] = "cd"; H (fNAME (b, 1));
int fNAME (struct in *p) { p->y = p->y + p->x; return p->y; }@ struct in o; o.x = 1; o.y = x_c; H (fNAME (&o)); H (o.y);
int fNAME (struct in *p, int n) { return p[n].y; }@ struct in o[3]; o[2].y = x_c; H (fNAME (o, 2)); H (fNAME (&o[1], 1));
struct in *fNAME (struct in *p) { return p + 1; }@ struct in o[2]; o[1].y = x_c; H (fNAME (o)->y); fNAME (o)->x = 4; H (o[1].x);
int *fNAME (int *p, int n) { return &p[n]; }@ int o[2]; o[1] = x_c; H (*fNAME (o, 1)); *fNAME (o, 0) = 4; H (o[0]); H (fNAME (o, 0)[1]);
char const *fNAME (void) { return "const"; }@ H (fNAME ()[2]); char const *p = fNAME (); const char *q = p; H (*q); char *const r = (char *) q; H (r[1]);
int gNAME;@ gNAME = x_c; { int gNAME; gNAME = 77; H (gNAME); } H (gNAME);
@ int i; int a[10]; for (i = 0; i < 10; i++) a[i] = i * i; for (i = 9; i >= 0; i -= 3) H (a[i]); H (a[a[2]]); H (a[a[1] + 1]);
@ int a[3]; int i; i = 0; a[i++] = 5; a[i++] = 6; a[i] = 7; H (a[0]); H (a[1]); H (a[2]); H (i); H (a[--i]); H (a[i--]); H (i);
@ int a[3]; a[0] = a[1] = a[2] = x_c; H (a[0] + a[1] + a[2]); a[1] += a[2] *= 2; H (a[1]); H (a[2]);
@ struct in a; struct in b; a.y = b.y = x_c; a.x = b.x = 3; H (a.y + b.x); a.y += b.y; H (a.y); a.y++; ++b.y; H (a.y--); H (b.y); a.x |= 4; H (a.x);
@ struct in a[2]; struct in *p; p = a; p[0].y = 1; (p + 1)->y = 2; p->y <<= 3; p[1].y *= 5; H (a[0].y); H (a[1].y); (p++)->x = 1; p->x = 2; H (a[0].x * 10 + a[1].x);
@ char *p; char b[3]; b[0] = 'x'; b[1] = 'y'; b[2] = 0; int n; n = 0; for (p = b; *p; p++) n++; H (n); p = b; while (*p++) n++; H (n); H (p - b);
@ char s[10]; char *d; char *f; f = "hello"; d = s; while (*d++ = *f++) ; H (s[4]); H (s[5]); H (d - s);
@ char *p; p = 0; H (p == 0); H (!p); p = "x"; H (p == 0); H (!p); H (p && *p); H (p ? 1 : 2); if (p) H (3); if (!p) H (4);
@ unsigned char *p; char c; c = -1; p = (unsigned char *) &c; H (*p); H (c); H (*(char *) p); H ((unsigned char) c); H ((char) 200);
@ long l; int *p; l = 0x12345678; p = (int *) &l; H (*p); *p = 5; H (l);
@ int x; x = x_c; int *p = &x; long a; a = (long) p; H (*(int *) a); H ((int *) a == p);
'''.strip().split('\n')

# bit-fields: a list of widths of members of one unsigned
def bits(ws, signed=False):
    ty = 'int' if signed else 'unsigned'
    s = 'struct sNAME { %s; };\n' % '; '.join('%s f%d:%d' % (ty, i, w) for i, w in enumerate(ws))
    return s

BITS = [(1,), (3,), (1, 1), (1, 2, 3), (4, 4), (2, 7, 5), (8, 8, 8, 8), (1,) * 8, (5, 3, 9, 15), (31, 1), (16, 16), (30, 2), (12, 20)]

def groups(mach, thorough):
    P = [('x_c', 'c')]
    def chunk(name, tests, n=100):
        tests = list(tests)
        for k in range(0, len(tests), n):
            yield (name, k // n), [(P, x) for x in tests[k:k + n]], PRE
    for place in PLACES:
        one = [access([k], place) for k in KINDS]
        two = [access([a, b], place) for a in KINDS for b in KINDS if thorough or place in ('global', 'local', 'arrow') or a in ('c', 'i', 'in') or b in ('c', 'l')]
        yield from chunk(('members', place), one + two)
    for place in ('global', 'local', 'arrow'):
        ks = ['c', 's', 'l', 'c3', 'in', 'un']
        yield from chunk(('three members', place), [access(t, place) for t in itertools.product(ks, repeat=3)])
    for place in ('global', 'local', 'arrow', 'member', 'element'):
        yield from chunk(('union', place), [access([a, b], place, 'union') for a in KINDS for b in KINDS if a != 'sp' and b != 'sp'])
    for n, c in enumerate(COPIES):
        ts = [[k] for k in KINDS] + [[a, b] for a in KINDS for b in ('c', 'l', 'c3')] + [['c'] * m for m in range(1, 18)] 
        yield from chunk(('copy', n), [copy(t, c) for t in ts if len(t) > 0])
    ts = [[a, b] for a in SCALAR for b in SCALAR if thorough or a in ('c', 'i', 'l') or b in ('c', 'p')] + [[a] for a in SCALAR if a != 'sp'] + [list(t) for t in itertools.product(['c', 'i', 'fp', 'l'], repeat=3)]
    yield from chunk(('initializers',), [x for t in ts for x in inits(t)])
    for n, l in enumerate(SIMPLE):
        out, _, body = l.partition('@')
        yield (('data', n), [(P, '%s\nlong NAME (void)\n{\n _h = 1;\n%s\n return _h;\n}' % (out, body))], PRE)
