"""C14: the table generators, for every argument.

main() is executed on its IR with the arguments symbolic.  psi is 11^t with t symbolic (11 generates the multiplicative
group), so a value known modulo 12289 is a monomial c*psi^e and every comparison of such values is a linear congruence in t
that z3 decides under the path condition.  Files and C library calls are stand-ins that record what is written."""
from common import *
from term import STATS
from zpath import ZCtx, ZProgram, Z, UB, Leave, ex, bounds
from llir import Func
from build import sh
import z3, subprocess, re, shutil

ORD = Q - 1
LOG, _v = {}, 1
for _i in range(ORD):
    LOG[_v] = _i
    _v = _v * 11 % Q
EXP = {i: v for v, i in LOG.items()}
GEN = {'make_tables': 'ntt', 'make_red_tables': 'ntt_red'}


class Summary(Exception):
    """division by a symbolic residue: the enclosing modular inverse is checked on its own"""


class RZ(Z):
    """integer congruent to 11^l * psi^e modulo Q"""
    __slots__ = ('res', 'ctx')

    def __init__(self, ctx, e, lo, hi, res):
        Z.__init__(self, e, lo, hi)
        self.ctx, self.res = ctx, res

    @property
    def e(self):
        if self._e is None:
            self._e = self.ctx.fresh(self.lo, self.hi).e
        return self._e


class RCtx(ZCtx):
    wide = False
    def reset(self):
        ZCtx.reset(self)
        self.can = {}
        self.rng = {}
        self.shapes = {}
        self.raw = None
        self.narrowed = False
        self.lax = {}
        self.eqs = {}
        self.t = z3.Int('t')
        self.names['t'] = self.t
        self.s.add(self.t >= 0, self.t < ORD)

    def fresh(self, lo, hi):
        v = ZCtx.fresh(self, lo, hi)
        self.rng[v.e.get_id()] = (v.e, lo, hi)
        return v

    def between(self, e, lo, hi):
        """lo <= e <= hi, first from the ranges of the variables of e alone"""
        todo, seen, vs = [e], set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen or len(seen) > 60:
                continue
            seen.add(x.get_id())
            b = self.rng.get(x.get_id())
            if b:
                vs.append(b)
            todo += x.children()
        # the same expression of another residue is the same query
        e2 = z3.substitute(e, *[(b[0], z3.Int('g%d' % i)) for i, b in enumerate(vs)])
        k = (e2.get_id(), lo, hi, tuple(b[1:] for b in vs))
        r = self.shapes.get(k)
        if r is None:
            s = z3.Solver()
            for i, b in enumerate(vs):
                s.add(z3.Int('g%d' % i) >= b[1], z3.Int('g%d' % i) <= b[2])
            s.add(z3.Or(e2 < lo, e2 > hi))
            STATS.queries += 1
            self.queries += 1
            r = self.shapes[k] = (s.check() == z3.unsat, e2)
            STATS.unsat += r[0]
        if r[0]:
            return None
        return self.refute(z3.And(e >= lo, e <= hi))

    def canon(self, res, lo=1, hi=Q - 1):
        res = (res[0] % ORD, res[1] % ORD)
        if res[1] == 0:
            return EXP[res[0]]
        r = self.can.get(res)
        if r is None:
            r = self.can[res] = RZ(self, None, lo, hi, res)
        return r

    def cong(self, res, c):
        """11^l psi^e = c as a congruence in t"""
        d = (res[0] - LOG[c % Q]) % ORD
        return (res[1] % ORD * self.t + d) % ORD == 0

    def same(self, r1, r2):
        """None if equal on every run of this path, else a model"""
        k = ((r1[0] - r2[0]) % ORD, (r1[1] - r2[1]) % ORD)
        if k == (0, 0):
            return None
        if k not in self.eqs:
            self.eqs[k] = self.refute((k[1] * self.t + k[0]) % ORD == 0)
        return self.eqs[k]

    def rz(self, x, r):
        """r with the residue of x"""
        if isinstance(x, RZ) and type(r) is Z:
            return RZ(self, r._e, r.lo, r.hi, x.res)
        return r

    def resof(self, x):
        if isinstance(x, RZ):
            return x.res
        if type(x) is int and x % Q:
            return (LOG[x % Q], 0)
        return None

    def add_(self, x, y, s=1):
        r = None
        a, b = self.resof(x), self.resof(y)
        if isinstance(x, RZ) and type(y) is int and y % Q == 0:
            r = a
        elif isinstance(y, RZ) and type(x) is int and x % Q == 0:
            r = b if s == 1 else ((b[0] + ORD // 2) % ORD, b[1])
        elif isinstance(x, RZ) and isinstance(y, RZ) and a[1] == b[1]:
            c = (EXP[a[0]] + s * EXP[b[0]]) % Q
            r = (LOG[c], a[1]) if c else None
        v = ZCtx.add_(self, x, y, s)
        return RZ(self, v.e, v.lo, v.hi, r) if r is not None and type(v) is Z and v.b is None else v

    def mul_(self, x, y):
        if isinstance(x, RZ) or isinstance(y, RZ):
            a, b = self.resof(x), self.resof(y)
            if a is not None and b is not None and x != 1 and y != 1:
                xl, xh = bounds(x)
                yl, yh = bounds(y)
                c = (xl * yl, xl * yh, xh * yl, xh * yh)
                e = None
                if type(x) is int or type(y) is int:
                    e = ex(x) * ex(y)
                return RZ(self, e, min(c), max(c), ((a[0] + b[0]) % ORD, (a[1] + b[1]) % ORD))
        return ZCtx.mul_(self, x, y)

    def ite_(self, c, x, y):
        r = ZCtx.ite_(self, c, x, y)
        a, b = self.resof(x), self.resof(y)
        if type(r) is Z and a is not None and a == b and r.b is None:
            return RZ(self, r.e, r.lo, r.hi, a)
        return r

    def sval(self, x, w):
        return self.rz(x, ZCtx.sval(self, x, w)) if not isinstance(x, RZ) or self.inside(x, -(1 << w - 1), (1 << w - 1) - 1) else ZCtx.sval(self, x, w)

    def uval(self, x, w):
        return self.rz(x, ZCtx.uval(self, x, w)) if not isinstance(x, RZ) or self.inside(x, 0, (1 << w) - 1) else ZCtx.uval(self, x, w)

    def inside(self, x, lo, hi):
        return lo <= x.lo and x.hi <= hi or self.fits(x, lo, hi)

    def rem(self, x, y, base, w):
        if isinstance(x, RZ) and type(y) is int and y == Q:
            if x.lo >= 0:
                return x if x.hi < Q else self.canon(x.res)
            v = self.fresh(-(Q - 1), Q - 1)
            return RZ(self, v.e, v.lo, v.hi, x.res)
        return base(self, x, y, w)

    def urem(self, x, y, w):
        return self.rem(self.uval(x, w), self.uval(y, w), ZCtx.urem, w)

    def srem(self, x, y, w):
        return self.rem(self.sval(x, w), self.sval(y, w), ZCtx.srem, w)

    def symdiv(self, x, y, w):
        if isinstance(y, RZ):
            raise Summary()
        return ZCtx.symdiv(self, x, y, w)

    def cmp(self, pred, x, y, w):
        if isinstance(x, RZ) or isinstance(y, RZ):
            f = self.sval if pred[0] == 's' else self.uval
            x, y = f(x, w), f(y, w)
            if not isinstance(x, RZ):
                x, y = y, x
                pred = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}.get(pred[1:], pred[1:])
                pred = pred if pred in ('eq', 'ne') or len(pred) > 2 else 's' + pred
                if pred in ('q', 'e'):
                    pred = {'q': 'eq', 'e': 'ne'}[pred]
            p = pred if pred in ('eq', 'ne') else pred[1:]
            if isinstance(x, RZ) and x.hi - x.lo < Q and type(y) is int:
                # comparisons at the edge of the range are equalities
                if p in ('lt', 'ge'):
                    y, p = y - 1, {'lt': 'le', 'ge': 'gt'}[p]
                if p == 'le' and y == x.lo:
                    p = 'eq'
                elif p == 'gt' and y == x.lo:
                    p = 'ne'
                elif p == 'le' and y == x.hi - 1:
                    p, y = 'ne', x.hi
                elif p == 'gt' and y == x.hi - 1:
                    p, y = 'eq', x.hi
                if p in ('eq', 'ne'):
                    if y < x.lo or y > x.hi or y % Q == 0:
                        return 1 if p == 'ne' else 0
                    b = self.cong(x.res, y)
                    return Z(None, 0, 1, b if p == 'eq' else z3.Not(b))
            r = ZCtx.cmp(self, p if p in ('eq', 'ne') else 's' + p, x, y, 64)
            if isinstance(r, Z) and r.b is not None:
                b = r.b
                while z3.is_not(b):
                    b = b.arg(0)
                self.lax[b.get_id()] = b
            return r
        return ZCtx.cmp(self, pred, x, y, w)

    def trunc(self, x, w):
        if w == 32 and self.raw is not None and x is self.raw and self.wide:
            # a wide argument whose low half looks like a root
            lowpart = x.e % (1 << 32)
            if self.decide(Z(None, 0, 1, z3.And(lowpart >= 2, lowpart < Q))):
                self.narrowed = True
                p = self.canon((0, 1))
                p.lo = 2
                return p
        return ZCtx.trunc(self, x, w)

    def is_lax(self, v):
        """an order comparison of residues: which way it goes is not tied to t"""
        b = v.b
        while b is not None and z3.is_not(b):
            b = b.arg(0)
        return b is not None and b.get_id() in self.lax


class GProgram(ZProgram):
    def __init__(self, ctx):
        ZProgram.__init__(self, ctx)
        for n in ('fprintf', 'printf', 'fputs', 'fputc', 'putc', 'putchar', 'puts', 'fwrite', 'snprintf', 'sprintf', 'fopen', 'fclose', 'atol', 'atoi', 'atoll', 'strtol', 'strtoll', 'exit', 'perror', 'remove'):
            self.ext[n] = getattr(self, 'x_' + n)
        self.need = {}
        self.fault = None

    def begin(self):
        ZProgram.begin(self)
        self.files = {}
        self.order = []
        self.fid = {}
        self.cnt = {}
        self.sym = []
        self.err = []

    # ---- branches
    def decide(self, v):
        if self.ctx.is_lax(v):
            return None
        return self.ctx.decide(v)

    # ---- library
    def pure_only(self):
        if self.pcs:
            raise Unsupported('effect under an order comparison of residues')

    def text(self, p):
        s = b''
        while True:
            c = self.load(Ptr(p.o, p.off + len(s)), 1)
            if type(c) is not int:
                raise Unsupported('symbolic text')
            if c == 0:
                return s.decode('latin1')
            s += bytes([c & 255])

    def hit(self, k):
        self.pure_only()
        self.cnt[k] = self.cnt.get(k, 0) + 1
        return self.fault == (k, self.cnt[k])

    def x_malloc(self, P, a):
        if self.hit('malloc'):
            return 0
        return ZProgram.x_malloc(self, P, a)

    def x_fopen(self, P, a):
        nm, mode = self.text(a[0]), self.text(a[1])
        if self.hit('fopen'):
            return 0
        if nm in self.files and 'w' not in mode:
            raise Unsupported('file opened again')
        o = Obj('FILE ' + nm, 8)
        o.cells[0] = (8, 0)
        self.files[nm] = ''
        self.order.append(nm)
        self.fid[id(o)] = (nm, o)
        return Ptr(o, 0)

    def x_fclose(self, P, a):
        self.pure_only()
        if type(a[0]) is not Ptr or id(a[0].o) not in self.fid:
            raise MemError('fclose of something that is not an open file')
        del self.fid[id(a[0].o)]
        return 0

    def x_remove(self, P, a):
        self.pure_only()
        self.files.pop(self.text(a[0]), None)
        return 0

    def emit(self, f, s):
        self.pure_only()
        if type(f) is not Ptr:
            raise MemError('output to an invalid stream')
        if id(f.o) in self.fid:
            self.files[self.fid[id(f.o)][0]] += s
        elif f.o.name != 'FILE':
            raise MemError('output to a closed file')
        return len(s)

    def fmt(self, f, args):
        out, args = '', list(args)
        pos = 0
        for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|)([diuxXcs%])', f):
            out += f[pos:m.start()]
            pos = m.end()
            c = m.group(5)
            if c == '%':
                out += '%'
                continue
            v = args.pop(0)
            if c == 's':
                out += self.text(v)
                continue
            w = 64 if m.group(4) in ('l', 'll', 'z', 'j') else 32
            if type(v) is Ptr:
                raise Unsupported('pointer printed as a number')
            v = self.ctx.sval(v, w) if c in 'di' else self.ctx.uval(v, w)
            if c == 'c':
                if type(v) is not int:
                    raise Unsupported('symbolic character')
                out += chr(v & 255)
            elif type(v) is int:
                out += ('%' + m.group(1) + m.group(2) + {'i': 'd', 'u': 'd'}.get(c, c)) % v
            else:
                if c in 'xX':
                    raise Unsupported('symbolic value in hexadecimal')
                self.sym.append(v)
                out += '<%d>' % (len(self.sym) - 1)
        if '%' in f[pos:]:
            raise Unsupported('format ' + f)
        return out + f[pos:]

    def std(self, name):
        return self.load(Ptr(self.ext_global(name), 0), 8)

    def x_fprintf(self, P, a):
        return self.emit(a[0], self.fmt(self.text(a[1]), a[2:]))

    def x_printf(self, P, a):
        self.fmt(self.text(a[0]), a[1:])
        return 0

    def x_fputs(self, P, a):
        return self.emit(a[1], self.text(a[0]))

    def x_fputc(self, P, a):
        self.emit(a[1], chr(a[0] & 255))
        return a[0]

    x_putc = x_fputc

    def x_putchar(self, P, a):
        return a[0]

    def x_puts(self, P, a):
        return 0

    def x_perror(self, P, a):
        return None

    def x_fwrite(self, P, a):
        n = a[1] * a[2]
        s = ''.join(chr(self.load(Ptr(a[0].o, a[0].off + i), 1) & 255) for i in range(n))
        self.emit(a[3], s)
        return a[2]

    def put(self, p, s):
        for i, ch in enumerate(s + '\0'):
            self.store(Ptr(p.o, p.off + i), 1, ord(ch))

    def x_snprintf(self, P, a):
        s = self.fmt(self.text(a[2]), a[3:])
        if '<' in s:
            raise Unsupported('symbolic file name')
        if a[1] > 0:
            self.put(a[0], s[:a[1] - 1])
        return len(s)

    def x_sprintf(self, P, a):
        s = self.fmt(self.text(a[1]), a[2:])
        self.put(a[0], s)
        return len(s)

    def arg(self, p, w):
        v = self.argv[p.o.name]
        return self.ctx.out(v, w) if type(v) is int else v

    def x_atol(self, P, a):
        return self.arg(a[0], 64)

    x_atoll = x_atol

    def x_strtol(self, P, a):
        if type(a[1]) is Ptr:
            self.store(a[1], 8, Ptr(a[0].o, 1))        # the stand-in for a number is one character long
        return self.arg(a[0], 64)

    x_strtoll = x_strtol

    def x_atoi(self, P, a):
        v = self.arg(a[0], 64)
        return self.ctx.trunc(v, 32)

    def x_exit(self, P, a):
        self.pure_only()
        self.code = a[0]
        raise Leave('exit')

    # ---- modular inverse
    def run(self, f, args):
        rs = [i for i, x in enumerate(args) if isinstance(x, RZ)]
        if len(rs) != 1 or Q not in [x for x in args if type(x) is int]:
            return ZProgram.run(self, f, args)
        key = f.name
        if key not in self.need:
            try:
                return ZProgram.run(self, f, args)
            except Summary:
                pass
        x = args[rs[0]]
        if x.lo < 1 or x.hi >= Q:
            raise Unsupported('inverse of a value that is not reduced')
        shape = tuple('x' if i == rs[0] else ('p' if type(a) is Ptr else a) for i, a in enumerate(args))
        self.need[key] = shape
        v = self.ctx.canon((-x.res[0], -x.res[1]))
        for a in args:
            if type(a) is Ptr:
                self.store(a, 4, v)
                return 1
        return v

    def start(self, argc, vals):
        """argc, argv of main"""
        self.argv = {}
        arr = Obj('argv', 8 * (argc + 1))
        for i in range(argc):
            o = Obj('argv%d' % i, 2)
            o.cells[0] = (1, 120)
            o.cells[1] = (1, 0)
            arr.cells[8 * i] = (8, Ptr(o, 0))
            if i:
                self.argv[o.name] = vals[i - 1]
        arr.cells[8 * argc] = (8, 0)
        return [argc, Ptr(arr, 0)]


# ------------------------------------------------------------------ specification
def brev(i, k):
    r = 0
    for _ in range(k):
        r = r << 1 | i & 1
        i >>= 1
    return r


def spec(gen, n):
    """{table: [(c, e) or None]} : entry = c * psi^e modulo Q, in [0,Q) or centred; and the constants of the header"""
    red = gen == 'make_red_tables'
    ik = pow(3, -1, Q) if red else 1
    inv_n = pow(n, -1, Q)

    def powers(c, s):
        return [(c, s * i) for i in range(n)]

    def tab(x, y, rv):
        a = [None] * n
        t, k = 1, 0
        while t < n:
            for j in range(t):
                jj = brev(j, k) if rv else j
                a[t + j] = (ik, x * (n // (2 * t)) + y * (n // (2 * t)) * jj)
            t, k = 2 * t, k + 1
        return a
    T = {'psi_powers': powers(ik, 1), 'inv_psi_powers': powers(ik, -1),
         'omega_powers': tab(0, 2, 0), 'omega_powers_rev': tab(0, 2, 1), 'inv_omega_powers': tab(0, -2, 0), 'inv_omega_powers_rev': tab(0, -2, 1),
         'mixed_powers': tab(1, 2, 0), 'mixed_powers_rev': tab(1, 2, 1), 'inv_mixed_powers': tab(-1, -2, 0), 'inv_mixed_powers_rev': tab(-1, -2, 1)}
    K = {'psi': (1, 1), 'omega': (1, 2), 'inv_psi': (1, -1), 'inv_omega': (1, -2), 'inv_n': (inv_n, 0)}
    if red:
        s8, s6 = pow(ik, 8, Q) * inv_n % Q, pow(ik, 6, Q) * inv_n % Q
        T['psi_powers_rev'] = tab(0, 1, 1)
        T['scaled_inv_psi_powers'] = powers(s8, -1)
        T['scaled_inv_psi_powers_var'] = powers(s6, -1)
        K.update(inv_k=(ik, 0), rescale8=(s8, 0), rescale6=(s6, 0))
    else:
        T['inv_psi_powers_rev'] = tab(0, -1, 1)
        T['scaled_inv_psi_powers'] = powers(inv_n, -1)
    return T, K


def parse(gen, n, files):
    """(tables, constants, declarations, problem) from the text of the two files"""
    pre = GEN[gen]
    want = ['%s%d_tables.%s' % (pre, n, x) for x in 'hc']
    if sorted(files) != sorted(want):
        return None, None, 'files written: %s' % sorted(files)

    def strip(s):
        return re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', ' ', s, flags=re.S))
    h, c = strip(files[want[0]]), strip(files[want[1]])
    typ = 'int16_t' if gen == 'make_red_tables' else 'uint16_t'
    T, K = {}, {}
    for m in re.finditer(r'const\s+(\w+)\s+%s%d_(\w+)\s*\[\s*(\d+)\s*\]\s*=\s*\{([^}]*)\}\s*;' % (pre, n), c):
        v = [x.strip() for x in m.group(4).split(',')]
        if v and v[-1] == '':
            v.pop()
        if m.group(1) != typ or int(m.group(3)) != n or m.group(2) in T:
            return None, None, 'declaration of table %s' % m.group(2)
        if len(v) != n:
            return None, None, 'table %s has %d entries' % (m.group(2), len(v))
        T[m.group(2)] = v
    for m in re.finditer(r'static\s+const\s+int32_t\s+%s%d_(\w+)\s*=\s*([^;]*);' % (pre, n), h):
        K[m.group(1)] = m.group(2).strip()
    for m in re.finditer(r'extern\s+const\s+(\w+)\s+%s%d_(\w+)\s*\[\s*(\d+)\s*\]\s*;' % (pre, n), h):
        if m.group(1) != typ or int(m.group(3)) != n or m.group(2) not in T:
            return None, None, 'the header declares %s' % m.group(0)
    if not re.search(r'#include\s+"%s%d_tables.h"' % (pre, n), c):
        return None, None, 'the table file does not include its header'
    return T, K, None


def valid(n, psi):
    return 2 <= n < 100000 and n & (n - 1) == 0 and 2 <= psi < Q and pow(psi, n, Q) == Q - 1


# ------------------------------------------------------------------ native side
def exe(chk, gen):
    p = os.path.join(chk.S.dir, gen + '.bin')
    if not os.path.exists(p):
        sh(['gcc', '-w', '-O2', '-std=c99', '-DNDEBUG', '-D_DEFAULT_SOURCE', '-o', p + '.t%d' % os.getpid(), os.path.join(chk.S.src, gen + '.c')])
        os.rename(p + '.t%d' % os.getpid(), p)
    return p


def nat_run(chk, gen, args):
    d = os.path.join(chk.S.dir, 'gen.%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        r = subprocess.run([exe(chk, gen)] + [str(x) for x in args], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        files = {x: open(os.path.join(d, x), errors='replace').read() for x in os.listdir(d)}
        return r.returncode, files
    except subprocess.TimeoutExpired:
        return 'timeout', {}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def nat_bad(chk, gen, n, psi):
    rc, files = nat_run(chk, gen, (n, psi))
    if not valid(n, psi):
        if rc == 0 or rc == 'timeout' or rc < 0:
            return '%s %d %d is accepted (status %s)' % (gen, n, psi, rc)
        if files:
            return '%s %d %d writes %s' % (gen, n, psi, sorted(files))
        return None
    if rc != 0:
        return '%s %d %d fails with status %s' % (gen, n, psi, rc)
    T, K, w = parse(gen, n, files)
    if w:
        return '%s %d %d: %s' % (gen, n, psi, w)
    ST, SK = spec(gen, n)
    red = gen == 'make_red_tables'
    for nm, es in ST.items():
        if nm not in T:
            return '%s %d %d: no table %s' % (gen, n, psi, nm)
        for i, e in enumerate(es):
            if e is not None:
                v = e[0] * pow(psi, e[1], Q) % Q
                if red and v > Q // 2:
                    v -= Q
                if T[nm][i] != str(v):
                    return '%s %d %d: %s[%d] is %s, expected %d' % (gen, n, psi, nm, i, T[nm][i], v)
    for nm, e in SK.items():
        v = e[0] * pow(psi, e[1], Q) % Q
        if K.get(nm) != str(v):
            return '%s %d %d: constant %s is %s, expected %d' % (gen, n, psi, nm, K.get(nm), v)
    return None


def hit_goal(chk, gen, cands, why, secs=120):
    t0 = time.time()
    for n, psi in cands:
        w = nat_bad(chk, gen, n, psi)
        if w:
            return violated(w, dict(kind='gen', module='generators', gen=gen, n=n, psi=psi))
        if time.time() - t0 > secs:
            break
    return undecided(why)


def sweep(n):
    rng = random.Random(SEED + n)
    r = [p for p in range(2, Q) if pow(p, n, Q) == Q - 1] if n <= 2048 else []
    rng.shuffle(r)
    o = [rng.randint(2, Q - 1) for _ in range(60)] + [p for p in range(2, Q) if pow(p, 2 * n, Q) == 1 or pow(p, n // 2, Q) == Q - 1][:200]
    return [(n, p) for p in r[:400] + o]


# ------------------------------------------------------------------ goals
def prog(chk, gen, C):
    P = GProgram(C)
    P.add_module(chk.S.ir(gen + '.c'), gen + '.c')
    return P


def psi_of(t):
    return EXP[t % ORD]


def tables_goal(chk, gen, n):
    """size n, psi any of 2..Q-1"""
    C = RCtx(30000)
    P = prog(chk, gen, C)
    ST, SK = spec(gen, n)
    red = gen == 'make_red_tables'
    lo, hi = (-(Q // 2), Q // 2) if red else (0, Q - 1)
    st = dict(npaths=0, accepted=0, entries=0)

    def model():
        m = C.model()
        return m and psi_of(m['t'])

    def check_value(v, e, lo, hi):
        """None or a psi for which the printed text v is not c*psi^e in [lo,hi]"""
        m = re.fullmatch(r'<(\d+)>', v)
        if m is None:
            if not re.fullmatch(r'-?\d+', v):
                return 'text %s' % v
            v = int(v)
            if v % Q == 0 or not lo <= v <= hi:
                return model() or 'value %d' % v
            r = (LOG[v % Q], 0)
        else:
            v = P.sym[int(m.group(1))]
            if not isinstance(v, RZ):
                return 'no residue'
            r = v.res
            if not (lo <= v.lo and v.hi <= hi):
                k = (v.e.get_id(), lo, hi)
                if k not in done:
                    done[k] = (C.between(v.e, lo, hi), v)
                if done[k][0] is not None:
                    return 'range'
        st['entries'] += 1
        b = C.same(r, (LOG[e[0] % Q], e[1]))
        if b is None:
            return None
        return psi_of(b['t']) if type(b) is dict else 'residue not decided'
    done = {}

    def run():
        P.begin()
        done.clear()
        P.new_call()
        psi = C.canon((0, 1))
        C.assume(C.t >= 1)
        psi.lo = 2
        isvalid = (n * C.t) % ORD == ORD // 2
        P.code = None
        try:
            rc = P.call('main', P.start(3, [n, psi]))
        except Leave as e:
            rc = P.code if e.kind == 'exit' else 134
        except MemError as e:
            return ('memory: %s' % e, [model()])
        except UB as e:
            return (str(e), [psi_of(e.model['t'])] if e.model and 't' in e.model else [model()])
        if type(rc) is not int:
            raise Unsupported('symbolic exit status')
        st['npaths'] += 1
        if rc & 255:
            m = C.refute(z3.Not(isvalid))
            if m is not None:
                return ('rejects a valid root' if type(m) is dict else 'not decided', [psi_of(m['t'])] if type(m) is dict else [])
            if P.files:
                return ('writes %s although it fails' % sorted(P.files), [model()])
            return None
        m = C.refute(isvalid)
        if m is not None:
            return ('accepts a value that is not a root' if type(m) is dict else 'not decided', [psi_of(m['t'])] if type(m) is dict else [])
        st['accepted'] += 1
        if P.fid:
            return ('a file is not closed', [model()])
        T, K, w = parse(gen, n, P.files)
        if w:
            return (w, [model()])
        for nm, es in ST.items():
            if nm not in T:
                return ('no table %s' % nm, [model()])
            for i, e in enumerate(es):
                if e is not None:
                    b = check_value(T[nm][i], e, lo, hi)
                    if b is not None:
                        return ('%s[%d]: %s' % (nm, i, b), [b if type(b) is int else model(), model()])
                elif not re.fullmatch(r'-?\d+', T[nm][i]):
                    return ('unused entry %s[%d]: %s' % (nm, i, T[nm][i]), [model()])
        for nm, e in SK.items():
            b = check_value(K.get(nm, ''), e, 0, Q - 1)
            if b is not None:
                return ('constant %s: %s' % (nm, b), [b if type(b) is int else model(), model()])
        return None
    why = None
    try:
        for x in C.paths(run, 400):
            if x:
                g = hit_goal(chk, gen, [(n, p) for p in x[1] if p] + sweep(n), '%s n=%d: %s' % (gen, n, x[0]))
                if g['status'] == 'violated':
                    return g
                why = why or g['why']
    except (Unsupported, Summary) as e:
        g = hit_goal(chk, gen, sweep(n), '%s n=%d: %s' % (gen, n, str(e) or 'division by a residue'))
        if g['status'] == 'violated':
            return g
        why = why or g['why']
    if why:
        return undecided(why)
    if n <= 2048 and not st['accepted']:
        return undecided('no accepting path')
    return proved(funcs=dict(P.funcs_run), detail='%d paths, %d accepting, %d entries' % (st['npaths'], st['accepted'], st['entries']), need=dict(P.need))


def out_goal(chk, gen, what, n=None):
    """arguments outside the valid ranges: any 64-bit psi outside 2..Q-1, or any 64-bit size that is not valid"""
    C = RCtx(4000)
    C.portfolio = lambda cs, secs=60: z3.unknown
    P = prog(chk, gen, C)
    st = dict(paths=0)
    I64 = (-(1 << 63), (1 << 63) - 1)

    def run():
        P.begin()
        P.new_call()
        x = C.input('x', *I64)
        if what == 'psi':
            C.assume(z3.Or(x.e < 2, x.e >= Q))
            C.assume(C.t >= 1)
            C.raw, C.wide = x, True
            vals = [n, x]
        else:
            C.assume(z3.And([x.e != 1 << k for k in range(1, 17)]))
            psi = C.canon((0, 1))
            C.assume(C.t >= 1)
            vals = [x, psi]
        P.code = None

        def cand():
            m = C.model() or {}
            if what == 'psi':
                x = m.get('x', 0)
                r = [p for p in range(2, Q) if valid(n, p)][:3]
                c = [(n, x)] + [(n, (x >> 32 << 32) + p) for p in [psi_of(m.get('t', 1))] + r]
                return c + [(n, p + d) for p in r for d in (Q, 2 * Q, 1 << 32, -(1 << 32), 1 << 16, -Q, -2 * p)]
            return [(m.get('x'), psi_of(m.get('t', 1)))]
        try:
            rc = P.call('main', P.start(3, vals))
        except Leave as e:
            rc = P.code if e.kind == 'exit' else 134
        except (MemError, UB) as e:
            return str(e), cand()
        except (Unsupported, Summary) as e:
            return 'not decided: %s' % e, cand()
        st['paths'] += 1
        if type(rc) is not int or not rc & 255 or P.files:
            return 'accepts an invalid argument', cand()
        return None
    why = None
    t0 = time.time()
    try:
        for x in C.paths(run, 400):
            if x:
                g = hit_goal(chk, gen, x[1], '%s: %s %s' % (gen, x[0], x[1][:1]))
                if g['status'] == 'violated':
                    return g
                why = why or g['why']
                if time.time() - t0 > 90:
                    break
    except Unsupported as e:
        why = why or str(e)
    if why:
        return undecided(why)
    return proved(funcs=dict(P.funcs_run), detail='%d paths' % st['paths'])


def argc_goal(chk, gen):
    for argc in (1, 2, 4):
        C = RCtx()
        P = prog(chk, gen, C)
        P.begin()
        P.new_call()
        try:
            rc = P.call('main', P.start(argc, [16, 1212, 3][:argc - 1]))
        except Leave as e:
            rc = P.code if e.kind == 'exit' else 134
        except (MemError, Unsupported, UB) as e:
            rc = None
        if not rc or P.files:
            r = nat_run(chk, gen, [16, 1212, 3][:argc - 1])
            if r[0] == 0 or r[0] == 'timeout' or r[0] < 0 or r[1]:
                return violated('%s with %d arguments: status %s, files %s' % (gen, argc - 1, r[0], sorted(r[1])), dict(kind='gen', module='generators', gen=gen, argc=argc))
            return undecided('%d arguments: %s' % (argc, rc))
    return proved(funcs=dict(P.funcs_run))


def fault_goal(chk, gen, fault, n, psi):
    """one failing library call"""
    C = RCtx()
    P = prog(chk, gen, C)

    def run():
        P.begin()
        P.fault = fault
        P.new_call()
        p = C.canon((0, 1))
        C.assume(C.t >= 1)
        p.lo = 2
        C.assume((n * C.t) % ORD == ORD // 2)
        try:
            rc = P.call('main', P.start(3, [n, p]))
        except Leave as e:
            rc = P.code if e.kind == 'exit' else 134
        except MemError as e:
            return 'memory: %s' % e
        if P.cnt.get(fault[0], 0) < fault[1]:
            return None
        return None if type(rc) is int and rc & 255 else 'reports success'
    try:
        for x in C.paths(run, 50):
            if x:
                w = nat_fault(chk, gen, fault, n, psi)
                if w:
                    return violated('%s: %s' % (gen, w), dict(kind='gen', module='generators', gen=gen, fault=list(fault), n=n, psi=psi))
                return undecided('%s when %s call %d fails: %s' % (gen, fault[0], fault[1], x))
    except (Unsupported, Summary) as e:
        return undecided(str(e))
    return proved(funcs=dict(P.funcs_run))


def nat_fault(chk, gen, fault, n, psi):
    """the same fault on the compiled program (failing call by a wrapper)"""
    src = os.path.join(chk.S.dir, 'wrap_%s_%d.c' % fault)
    with open(src, 'w') as f:
        f.write('#include <stdio.h>\n#include <stdlib.h>\nstatic int k;\n')
        if fault[0] == 'fopen':
            f.write('FILE *__real_fopen(const char *a, const char *b);\nFILE *__wrap_fopen(const char *a, const char *b) { return ++k == %d ? NULL : __real_fopen(a, b); }\n' % fault[1])
        else:
            f.write('void *__real_malloc(size_t n);\nvoid *__wrap_malloc(size_t n) { return ++k == %d ? NULL : __real_malloc(n); }\n' % fault[1])
            f.write('void *__real_calloc(size_t m, size_t n);\nvoid *__wrap_calloc(size_t m, size_t n) { return ++k == %d ? NULL : __real_calloc(m, n); }\n' % fault[1])
    b = os.path.join(chk.S.dir, 'fault.%d' % os.getpid())
    sh(['gcc', '-w', '-O2', '-std=c99', '-DNDEBUG', '-D_DEFAULT_SOURCE', '-Wl,--wrap=' + fault[0]] + (['-Wl,--wrap=calloc'] if fault[0] == 'malloc' else []) + ['-o', b, os.path.join(chk.S.src, gen + '.c'), src])
    d = b + '.d'
    os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([b, str(n)] + ([] if psi is None else [str(psi)]), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        if r.returncode <= 0:
            return 'status %d when call %d of %s fails' % (r.returncode, fault[1], fault[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


# ---- modular inverse
class ECtx(ZCtx):
    """quotients are concrete on each path, so that all values are linear in x"""

    def symdiv(self, x, y, w):
        if self.check(y.e == 0) != z3.unsat:
            raise Unsupported('division by zero not excluded')
        k = len(self.trace)
        while True:
            n = len(self.trace)
            if n < len(self.prefix):
                v = self.qs[n]
            else:
                if self.check() != z3.sat:
                    raise Unsupported('path not decided')
                m = self.s.model()
                a, b = m.eval(ex(x), model_completion=True).as_long(), m.eval(y.e, model_completion=True).as_long()
                if a < 0 or b <= 0:
                    raise Unsupported('quotient of negative numbers')
                v = a // b
                self.qs[n] = v
            if self.decide(Z(None, 0, 1, z3.And(ex(x) >= v * y.e, ex(x) < (v + 1) * y.e))):
                return v


def inverse_goal(chk, gen, fn, shape, lo, hi):
    C = ECtx(20000)
    P = ZProgram(C)
    P.add_module(chk.S.ir(gen + '.c'), gen + '.c')
    C.qs = {}
    st = dict(n=0)

    def run():
        P.begin()
        P.new_call()
        x = C.input('x', lo, hi)
        o = Obj('the result', 4)
        try:
            r = P.call(fn, [x if s == 'x' else Ptr(o, 0) if s == 'p' else s for s in shape])
            if 'p' in shape:
                v = o.cells.get(0)
                v = v[1] if v and v[0] == 4 else None
                ok = r if r is not None else 0
                if type(ok) is not int:
                    ok = 1 if C.refute(ok.b if ok.b is not None else ok.e != 0) is None else 0
                if not ok & 255 or v is None:
                    return C.model()['x']
            else:
                v = r
            v = C.uval(v, 32)
            st['n'] += 1
            if type(v) is int:
                c = z3.And((x.e * v) % Q == 1, z3.BoolVal(v < Q))
            else:
                c = z3.And((x.e * v.e) % Q == 1, v.e < Q)
            m = C.refute(c)
            if m is not None:
                return m['x'] if type(m) is dict else -1
        except (MemError, UB, Leave) as e:
            m = C.model()
            return m['x'] if m else -1
        return None
    try:
        for x in C.paths(run, 5000):
            if x is not None:
                if x == 0 or x == -1:
                    return undecided('inverse not decided')
                if LOG[x] % 3 and x not in (3, *[1 << k for k in range(1, 14)]):
                    continue                     # no root of -1 of a power-of-two order, and no size: never needed
                n = next((1 << k for k in range(1, 12) if pow(x, 1 << k, Q) == Q - 1), None)
                c = [(n, x)] if n else []
                for k in range(1, 12):           # psi^2 = x, or n = x
                    c += [(1 << k, y) for y in (pow(x, 1, Q), pow(x, -1, Q)) if valid(1 << k, y)]
                    if x == 1 << k:
                        c += sweep(x)[:40]
                c += [(1 << k, y) for y in range(2, Q) if y * y % Q == x for k in range(1, 12) if valid(1 << k, y)]
                return hit_goal(chk, gen, c, '%s(%d) is wrong but no run of the generator that shows it' % (fn, x))
    except Unsupported as e:
        return undecided(str(e))
    return proved(funcs=dict(P.funcs_run), detail='%d quotient sequences' % st['n'])


def replay(d):
    chk = Check(d['property'], 'replay', tables=False)
    if 'fault' in d:
        return nat_fault(chk, d['gen'], tuple(d['fault']), d['n'], d['psi'])
    if 'argc' in d:
        r = nat_run(chk, d['gen'], [16, 1212, 3][:d['argc'] - 1])
        return 'status %s' % r[0] if r[0] == 0 or r[0] == 'timeout' or r[0] < 0 or r[1] else None
    return nat_bad(chk, d['gen'], d['n'], d['psi'])


def main(pid):
    chk = Check(pid, 'symbolic execution of main() of both generators (clang IR): psi = 11^t with t symbolic, residues as monomials, z3 decides congruences, ranges and branches; all 64-bit arguments; failing library calls', tables=False)
    chk.bounds = dict(psi='all 64-bit integers', sizes='all 64-bit integers for acceptance; table contents for every power of two 2..65536 (2048 is the largest that has a root)',
                      faults='each single failing fopen or malloc', inverse='all x in 1..12288')
    chk.assumptions = ['the arguments are decimal numbers that fit a long', 'writes to an open file succeed']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py', 'the discrete logarithm table to base 11']
    for gen in GEN:
        chk.S.ir(gen + '.c')
        exe(chk, gen)
        for k in range(1, 17):
            chk.goal('%s tables n=%d' % (gen, 1 << k), tables_goal, weight=1 << min(k, 11), gen=gen, n=1 << k)
        for n in (2, 16, 1024, 2048):
            chk.goal('%s psi out of range n=%d' % (gen, n), out_goal, weight=3, gen=gen, what='psi', n=n)
        chk.goal('%s invalid sizes' % gen, out_goal, weight=30, gen=gen, what='size')
        chk.goal('%s number of arguments' % gen, argc_goal, weight=1, gen=gen)
        for f in (('fopen', 1), ('fopen', 2), ('malloc', 1)):
            chk.goal('%s failing %s %d' % (gen, *f), fault_goal, weight=2, gen=gen, fault=f, n=16, psi=1212)
        # which function computes modular inverses is found by execution
        try:
            C = RCtx()
            P = prog(chk, gen, C)
            P.begin()
            P.new_call()
            p = C.canon((0, 1))
            C.assume(C.t >= 1)
            p.lo = 2
            C.assume((4 * C.t) % ORD == ORD // 2)
            try:
                P.call('main', P.start(3, [4, p]))
            except Leave:
                pass
            need = dict(P.need)
        except (Unsupported, MemError, UB, Summary) as e:
            need = {}
        for fn, shape in need.items():
            step = 192
            for lo in range(1, Q, step):
                chk.goal('%s %s %d..%d' % (gen, fn, lo, min(Q - 1, lo + step - 1)), inverse_goal, weight=700, gen=gen, fn=fn, shape=shape, lo=lo, hi=min(Q - 1, lo + step - 1))
    return chk.run()
