"""Path-wise symbolic execution of LLVM IR over integer terms of z3.

The same interpreter (llir.Program) is used with concrete control flow decided path by path: at a branch on a symbolic
condition both sides are tested for feasibility under the path condition, and every feasible path is executed (depth first
by re-execution).  Machine words are integers with exact intervals; wrap-around, shifts and divisions by constants are encoded
with linear constraints; signed overflow is a query on the path where it could occur."""
import os, re, shutil, subprocess, tempfile, time
import z3
from term import STATS, Unsupported
from llir import Program, Ptr, Obj, MemError


class UB(Exception):
    def __init__(self, what, model=None):
        Exception.__init__(self, what)
        self.model = model


class Leave(Exception):
    """exit() or abort()"""
    def __init__(self, kind):
        Exception.__init__(self, kind)
        self.kind = kind


class Dead(Exception):
    """infeasible path"""


class Z:
    __slots__ = ('_e', 'lo', 'hi', 'b')

    def __init__(self, e, lo, hi, b=None):
        self._e, self.lo, self.hi, self.b = e, lo, hi, b

    @property
    def e(self):
        if self._e is None:
            self._e = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))
        return self._e


def ex(x):
    return x.e if isinstance(x, Z) else z3.IntVal(x)


def bounds(x):
    return (x.lo, x.hi) if isinstance(x, Z) else (x, x)


class ZCtx:
    def __init__(self, timeout_ms=6000):
        self.timeout = timeout_ms
        self.wrap = False
        self.obligations = []
        self.where = ''
        self.prefix = []
        self.reset()
        self.pool = {}
        self.queries = 0

    # ---------------------------------------------------- paths
    def reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', self.timeout)
        self.pc = []
        self.trace = []
        self.names = {}
        self.divs = {}
        self.nfresh = 0
        self.obligations.clear()

    def assume(self, c):
        self.s.add(c)
        self.pc.append(c)

    def check(self, *cs):
        t = time.time()
        STATS.queries += 1
        self.queries += 1
        r = self.s.check(*cs)
        if r == z3.unknown:
            r = self.portfolio(cs)
        STATS.solver_s += time.time() - t
        if r == z3.sat:
            STATS.sat += 1
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        return r

    def portfolio(self, cs, secs=60):
        """other solvers on the same query; a model is taken from z3 by fixing the values found"""
        s = z3.Solver()
        s.add(self.s.assertions())
        s.add(*cs)
        d = tempfile.mkdtemp(prefix='nttv.q.')
        f = os.path.join(d, 'q.smt2')
        vs = [v for v in self.names.values()]
        with open(f, 'w') as h:
            h.write('(set-option :produce-models true)\n(set-logic ALL)\n' + s.to_smt2().replace('(check-sat)', '(check-sat)\n(get-value (%s))' % ' '.join(v.sexpr() for v in vs)))
        ps = []
        try:
            for c in (['cvc5', '--tlimit=%d' % (secs * 1000), f], ['z3-new', '-T:%d' % secs, f], ['z3', '-T:%d' % secs, 'smt.arith.solver=2', f], ['z3-new', '-T:%d' % secs, 'smt.random_seed=7', 'smt.arith.random_initial_value=true', f]):
                try:
                    ps.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
                except OSError:
                    pass
            t0 = time.time()
            live = list(ps)
            while live and time.time() - t0 < secs + 5:
                for p in list(live):
                    if p.poll() is not None:
                        live.remove(p)
                        o = p.stdout.read().decode(errors='replace')
                        if o.startswith('unsat'):
                            return z3.unsat
                        if o.startswith('sat'):
                            eqs = []
                            for n, val in re.findall(r'\(\s*(\|?[^()\s|]+\|?)\s+(\(- \d+\)|-?\d+)\s*\)', o):
                                n = n.strip('|')
                                if n in self.names:
                                    eqs.append(self.names[n] == int(val.replace('(', '').replace(')', '').replace(' ', '')))
                            if self.s.check(*cs, *eqs) == z3.sat:
                                return z3.sat
                time.sleep(0.02)
            return z3.unknown
        finally:
            for p in ps:
                if p.poll() is None:
                    p.kill()
                p.wait()
            shutil.rmtree(d, ignore_errors=True)

    def input(self, name, lo, hi):
        if name not in self.names:
            v = z3.Int(name)
            self.names[name] = v
            self.s.add(v >= lo, v <= hi)
        return Z(self.names[name], lo, hi)

    def fresh(self, lo, hi):
        self.nfresh += 1
        v = z3.Int('!f%d' % self.nfresh)
        self.s.add(v >= lo, v <= hi)
        return Z(v, lo, hi)

    def decide(self, v):
        b = v.b if v.b is not None else v.e != 0
        n = len(self.trace)
        if n < len(self.prefix):
            d, forced = self.prefix[n]
        else:
            r1 = self.check(b)
            r0 = self.check(z3.Not(b)) if r1 != z3.unsat else None
            if r1 == z3.unknown or r0 == z3.unknown:
                raise Unsupported('branch feasibility not decided')
            if r1 == z3.unsat:
                d, forced = 0, True
            elif r0 == z3.unsat:
                d, forced = 1, True
            else:
                d, forced = 1, False
        self.trace.append((d, forced))
        c = b if d else z3.Not(b)
        if not forced:
            self.pc.append(c)
        self.s.add(c)
        return d

    def paths(self, fn, max_paths=100000):
        """generator of fn's result on every feasible path; fn is re-executed from the start each time"""
        self.prefix = []
        n = 0
        while True:
            self.reset()
            try:
                r = fn()
            except Dead:
                r = None
            n += 1
            yield r
            if n >= max_paths:
                raise Unsupported('path limit')
            t = list(self.trace)
            while t and (t[-1][1] or t[-1][0] == 0):
                t.pop()
            if not t:
                return
            t[-1] = (0, False)
            self.prefix = t

    # ---------------------------------------------------- integer terms
    def mk(self, e, lo, hi):
        if lo == hi:
            return lo
        return Z(e, lo, hi)

    def add_(self, x, y, s=1):
        if type(x) is int and type(y) is int:
            return x + s * y
        if type(y) is int and y == 0:
            return x
        xl, xh = bounds(x)
        yl, yh = bounds(y)
        if s == 1:
            return self.mk(ex(x) + ex(y), xl + yl, xh + yh)
        if type(x) is int and x == 1 and isinstance(y, Z) and y.b is not None:
            return Z(None, 0, 1, z3.Not(y.b))
        return self.mk(ex(x) - ex(y), xl - yh, xh - yl)

    def mulc_(self, x, k):
        return self.mul_(x, k)

    def mul_(self, x, y):
        if type(x) is int and type(y) is int:
            return x * y
        if (type(x) is int and x == 0) or (type(y) is int and y == 0):
            return 0
        if type(x) is int and x == 1:
            return y
        if type(y) is int and y == 1:
            return x
        if isinstance(x, Z) and isinstance(y, Z):
            if x.b is not None and y.b is not None:
                return Z(None, 0, 1, z3.And(x.b, y.b))
            if x.b is not None or y.b is not None:
                p, q = (x, y) if x.b is not None else (y, x)
                return self.mk(z3.If(p.b, q.e, z3.IntVal(0)), min(0, q.lo), max(0, q.hi))
        xl, xh = bounds(x)
        yl, yh = bounds(y)
        c = (xl * yl, xl * yh, xh * yl, xh * yh)
        return self.mk(ex(x) * ex(y), min(c), max(c))

    def div_(self, x, m):
        """floor(x/m) for a positive constant m"""
        if m == 1:
            return x
        if type(x) is int:
            return x // m
        if x.lo // m == x.hi // m:
            return x.lo // m
        k = (x.e.get_id(), m)
        r = self.divs.get(k)
        if r is None:
            q = self.fresh(x.lo // m, x.hi // m)
            self.s.add(x.e - m * q.e >= 0, x.e - m * q.e < m)
            self.divs[k] = (q, x)
            return q
        return r[0]

    def bool(self, b):
        b = z3.simplify(b) if False else b
        return Z(None, 0, 1, b)

    def lt0_(self, x):
        if type(x) is int:
            return 1 if x < 0 else 0
        if x.hi < 0:
            return 1
        if x.lo >= 0:
            return 0
        return self.bool(x.e < 0)

    def eq0_(self, x):
        if type(x) is int:
            return 1 if x == 0 else 0
        if x.lo > 0 or x.hi < 0:
            return 0
        return self.bool(x.e == 0)

    def ite_(self, c, x, y):
        if type(c) is int:
            return x if c else y
        b = c.b if c.b is not None else c.e != 0
        xl, xh = bounds(x)
        yl, yh = bounds(y)
        if xl >= 0 and xh <= 1 and yl >= 0 and yh <= 1:
            bx = x.b if isinstance(x, Z) and x.b is not None else (z3.BoolVal(bool(x)) if type(x) is int else x.e == 1)
            by = y.b if isinstance(y, Z) and y.b is not None else (z3.BoolVal(bool(y)) if type(y) is int else y.e == 1)
            return self.bool(z3.If(b, bx, by))
        return self.mk(z3.If(b, ex(x), ex(y)), min(xl, yl), max(xh, yh))

    # ---------------------------------------------------- words
    def s2(self, x, w):
        if type(x) is int:
            x &= (1 << w) - 1
            return x - (1 << w) if x >> (w - 1) else x
        return x

    def out(self, x, w):
        return x & ((1 << w) - 1) if type(x) is int else x

    def fits(self, x, lo, hi):
        """x is in [lo,hi] on every run of this path"""
        if lo <= x.lo and x.hi <= hi:
            return True
        k = (x.e.get_id(), lo, hi)
        r = self.divs.get(k)
        if r is None:
            r = (self.check(z3.Or(x.e < lo, x.e > hi)) == z3.unsat, x)
            if r[0]:
                self.divs[k] = r
        return r[0]

    def sval(self, x, w):
        if type(x) is int:
            return self.s2(x, w)
        H = 1 << (w - 1)
        if -H <= x.lo and x.hi < H:
            return x
        if self.fits(x, -H, H - 1):
            return Z(x.e, max(x.lo, -H), min(x.hi, H - 1))
        d = self.div_(self.add_(x, H), 1 << w)
        r = self.add_(x, self.mul_(d, 1 << w), -1)
        return r if type(r) is int else Z(r.e, max(r.lo, -H), min(r.hi, H - 1))

    def uval(self, x, w):
        if type(x) is int:
            return x & ((1 << w) - 1)
        M = 1 << w
        if 0 <= x.lo and x.hi < M:
            return x
        if self.fits(x, 0, M - 1):
            return Z(x.e, max(x.lo, 0), min(x.hi, M - 1))
        d = self.div_(x, M)
        r = self.add_(x, self.mul_(d, M), -1)
        return r if type(r) is int else Z(r.e, max(r.lo, 0), min(r.hi, M - 1))

    def nsw(self, r, w, what):
        H = 1 << (w - 1)
        if self.wrap:
            return r
        if type(r) is int:
            if not -H <= r < H:
                raise UB('signed overflow (%s) in %s' % (what, self.where), self.model())
            return r
        if -H <= r.lo and r.hi < H:
            return r
        c = z3.Or(r.e < -H, r.e >= H)
        k = self.check(c)
        if k == z3.sat:
            raise UB('signed overflow (%s) in %s' % (what, self.where), self.values(self.s.model()))
        if k == z3.unknown:
            raise Unsupported('overflow query not decided')
        return Z(r.e, max(r.lo, -H), min(r.hi, H - 1))

    def model(self):
        if self.check() == z3.sat:
            return self.values(self.s.model())
        return None

    def values(self, m):
        out = {}
        for n, v in self.names.items():
            c = m.eval(v, model_completion=True)
            out[n] = c.as_long()
        return out

    def op2(self, x, y, w, nsw, f, what):
        x, y = self.s2(x, w), self.s2(y, w)
        if nsw or what == 'mul':
            x, y = self.sval(x, w), self.sval(y, w)
        r = f(x, y)
        if nsw:
            r = self.nsw(r, w, what)
        return self.out(r, w)

    def add(self, x, y, w, nsw=False):
        return self.op2(x, y, w, nsw, self.add_, 'add')

    def sub(self, x, y, w, nsw=False):
        return self.op2(x, y, w, nsw, lambda a, b: self.add_(a, b, -1), 'sub')

    def mul(self, x, y, w, nsw=False):
        return self.op2(x, y, w, nsw, self.mul_, 'mul')

    def shl(self, x, k, w, nsw=False):
        if type(k) is not int:
            raise Unsupported('symbolic shift count')
        if k >= w:
            return 0
        x = self.sval(x, w) if nsw else self.s2(x, w)
        r = self.mul_(x, 1 << k)
        if nsw:
            r = self.nsw(r, w, 'shl')
        return self.out(r, w)

    def ashr(self, x, k, w):
        if type(k) is not int:
            raise Unsupported('symbolic shift count')
        return self.out(self.div_(self.sval(x, w), 1 << k), w)

    def lshr(self, x, k, w):
        if type(k) is not int:
            raise Unsupported('symbolic shift count')
        return self.out(self.div_(self.uval(x, w), 1 << k), w)

    def trunc(self, x, w):
        return self.out(x, w)

    def sext(self, x, w, w2):
        return self.out(self.sval(x, w), w2)

    def zext(self, x, w, w2):
        if isinstance(x, Z) and x.b is not None:
            return x
        return self.out(self.uval(x, w), w2)

    def cmp(self, pred, x, y, w):
        if pred in ('eq', 'ne'):
            r = self.eq0_(self.add_(self.uval(x, w), self.uval(y, w), -1)) if pred else 0
            return r if pred == 'eq' else self.add_(1, r, -1)
        f = self.sval if pred[0] == 's' else self.uval
        x, y = f(x, w), f(y, w)
        p = pred[1:]
        if p in ('gt', 'le'):
            x, y = y, x
        xl, xh = bounds(x)
        yl, yh = bounds(y)
        if x is y or xl >= yh:                 # x < y is false
            return 0 if p in ('lt', 'gt') else 1
        if xh < yl:
            return 1 if p in ('lt', 'gt') else 0
        r = self.lt0_(self.add_(x, y, -1))
        return r if p in ('lt', 'gt') else self.add_(1, r, -1)

    def bitand(self, x, y, w):
        if type(x) is int and type(y) is int:
            return x & y
        if type(x) is int:
            x, y = y, x
        if type(y) is not int:
            if w == 1:
                return self.and1(x, y)
            return self.and2(x, y, w)
        m = y & ((1 << w) - 1)
        if m == 0:
            return 0
        if m == (1 << w) - 1:
            return x
        if m & (m + 1) == 0:
            if 0 <= x.lo and x.hi <= m:
                return x
            d = self.div_(x, m + 1)
            r = self.add_(x, self.mul_(d, m + 1), -1)
            return r if type(r) is int else Z(r.e, max(r.lo, 0), min(r.hi, m))
        inv = (~m) & ((1 << w) - 1)
        if inv & (inv + 1) == 0:
            return self.sub(x, self.bitand(x, inv, w), w)
        tz = (m & -m).bit_length() - 1
        h = m >> tz
        r = 0
        while m:
            tz = (m & -m).bit_length() - 1
            h = m >> tz
            ln = ((h + 1) & -(h + 1)).bit_length() - 1
            fld = (1 << ln) - 1
            r = self.add_(r, self.mul_(self.bitand(self.div_(self.uval(x, w), 1 << tz), fld, w), 1 << tz))
            m &= ~(fld << tz)
        return self.out(r, w)

    def and2(self, x, y, w):
        x, y = self.uval(x, w), self.uval(y, w)
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Z) and isinstance(b, Z):
                d = z3.simplify(a.e - b.e)
                if z3.is_int_value(d) and d.as_long() == 0:
                    return a
                if (z3.is_int_value(d) and d.as_long() == 1) or self.check(a.e - b.e != 1, a.e != 0) == z3.unsat and self.check(a.e == 0, b.e != (1 << w) - 1) == z3.unsat:
                    r = self.fresh(0, max(a.hi - 1, 0))          # a & (a - 1)
                    pw = z3.Or([a.e == 0] + [a.e == 1 << k for k in range(a.hi.bit_length())])
                    self.s.add((r.e == 0) == pw, z3.Or(a.e == 0, r.e < a.e))
                    return r
        n = min(bounds(x)[1], bounds(y)[1]).bit_length()
        if n > 24:
            raise Unsupported('and of two symbolic words')
        r = 0
        for i in range(n):
            bx, by = [ex(self.bitand(self.div_(v, 1 << i), 1, w)) == 1 for v in (x, y)]
            r = self.add_(r, self.mul_(self.bool(z3.And(bx, by)), 1 << i))
        return r

    def and1(self, x, y):
        x, y = self.uval(x, 1), self.uval(y, 1)
        return self.mul_(x, y)

    def bitor(self, x, y, w):
        if type(x) is int and type(y) is int:
            return x | y
        return self.sub(self.add(x, y, w), self.bitand(x, y, w), w)

    def bitxor(self, x, y, w):
        if type(x) is int and type(y) is int:
            return x ^ y
        if type(x) is int:
            x, y = y, x
        if type(y) is int and y & ((1 << w) - 1) == (1 << w) - 1:
            return self.add_(1, self.uval(x, 1), -1) if w == 1 else self.out(self.add_(-1, x, -1), w)
        if w == 1:
            x, y = self.uval(x, 1), self.uval(y, 1)
            if type(y) is int:
                return x if y == 0 else self.add_(1, x, -1)
            return self.bool(x.e != y.e)
        return self.sub(self.add(x, y, w), self.mul(2, self.bitand(x, y, w), w), w)

    def sdiv_(self, x, y):
        if type(x) is int:
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if y < 0:
            return self.mul_(self.sdiv_(x, -y), -1)
        if x.lo >= 0:
            return self.div_(x, y)
        if x.hi <= 0:
            return self.mul_(self.div_(self.mul_(x, -1), y), -1)
        if self.fits(x, 0, x.hi):
            return self.div_(Z(x.e, 0, x.hi), y)
        return self.div_(self.add_(x, self.mul_(self.lt0_(x), y - 1)), y)

    def sdiv(self, x, y, w):
        x, y = self.sval(x, w), self.sval(y, w)
        if type(y) is not int:
            return self.symdiv(x, y, w)
        if y == 0:
            raise UB('division by zero in ' + self.where, self.model())
        return self.out(self.sdiv_(x, y), w)

    def symdiv(self, x, y, w):
        """truncating division by a symbolic divisor"""
        k = self.check(y.e == 0)
        if k == z3.sat:
            raise UB('division by zero in ' + self.where, self.values(self.s.model()))
        xl, xh = bounds(x)
        m = max(abs(xl), abs(xh))
        q, r = self.fresh(-m, m), self.fresh(-m, m)
        X = ex(x)
        self.s.add(X == y.e * q.e + r.e, z3.Implies(X >= 0, r.e >= 0), z3.Implies(X <= 0, r.e <= 0),
                   z3.If(r.e >= 0, r.e, -r.e) < z3.If(y.e >= 0, y.e, -y.e))
        return q

    def srem(self, x, y, w):
        x, y = self.sval(x, w), self.sval(y, w)
        if type(y) is not int:
            q = self.symdiv(x, y, w)
            return self.add_(x, self.mul_(q, y), -1)
        if y == 0:
            raise UB('division by zero in ' + self.where, self.model())
        r = self.add_(x, self.mul_(self.sdiv_(x, y), y), -1)
        if isinstance(r, Z):
            m = abs(y) - 1
            r = Z(r.e, max(-m, min(x.lo, 0)), min(m, max(x.hi, 0)))
        return self.out(r, w)

    def udiv(self, x, y, w):
        x, y = self.uval(x, w), self.uval(y, w)
        if type(y) is not int:
            return self.symdiv(x, y, w)
        if y == 0:
            raise UB('division by zero in ' + self.where, self.model())
        return self.div_(x, y)

    def urem(self, x, y, w):
        x, y = self.uval(x, w), self.uval(y, w)
        if type(y) is not int:
            return self.add_(x, self.mul_(self.symdiv(x, y, w), y), -1)
        if y == 0:
            raise UB('division by zero in ' + self.where, self.model())
        r = self.add_(x, self.mul_(self.div_(x, y), y), -1)
        return r if type(r) is int else Z(r.e, max(r.lo, 0), min(r.hi, y - 1))

    def select(self, c, x, y, w):
        c = self.uval(c, 1)
        if type(c) is int:
            return x if c else y
        return self.out(self.ite_(c, self.sval(x, w), self.sval(y, w)), w)

    # ---------------------------------------------------- goals
    def refute(self, claim):
        """None if claim holds on every run of this path, else a model (dict) or 'unknown'"""
        if z3.is_and(claim):
            for c in claim.children():
                r = self.refute(c)
                if r is not None:
                    return r
            return None
        k = self.check(z3.Not(claim))
        if k == z3.unsat:
            return None
        if k == z3.unknown:
            return 'unknown'
        return self.values(self.s.model())


class ZProgram(Program):
    """Program whose symbolic branches are decided path by path; C library stand-ins"""

    def __init__(self, ctx):
        Program.__init__(self, ctx)
        self.splits = True
        for n in ('fprintf', 'printf', 'fflush', 'puts', 'fputs', 'fputc', 'putchar', 'fwrite', 'perror'):
            self.ext[n] = lambda P, a: 0
        self.ext['malloc'] = self.x_malloc
        self.ext['calloc'] = self.x_calloc
        self.ext['free'] = self.x_free
        self.ext['exit'] = self.x_exit
        self.ext['abort'] = lambda P, a: self.leave('abort')
        self.ext['__assert_fail'] = lambda P, a: self.leave('assert')
        self.heap = []

    def leave(self, k):
        raise Leave(k)

    def x_exit(self, P, a):
        raise Leave('exit')

    def x_malloc(self, P, a):
        if type(a[0]) is not int:
            raise Unsupported('symbolic allocation size')
        o = Obj('heap%d' % len(self.heap), a[0], align=16)
        self.heap.append(o)
        return Ptr(o, 0)

    def x_calloc(self, P, a):
        p = self.x_malloc(P, [a[0] * a[1]])
        if type(p) is Ptr:
            p.o.zero = True
        return p

    def x_free(self, P, a):
        p = a[0]
        if type(p) is int and p == 0:
            return None
        if type(p) is not Ptr or p.off != 0 or p.o not in self.heap:
            raise MemError('free of a pointer that was not allocated or was freed before')
        self.heap.remove(p.o)
        p.o.size = -1
        return None

    def ext_global(self, name):
        if name in ('stderr', 'stdout'):
            o = Obj(name, 8)
            o.cells[0] = (8, Ptr(Obj('FILE', 8), 0))
            return o
        return Program.ext_global(self, name)

    def decide(self, v):
        return self.ctx.decide(v)

    def add_static(self, o):
        Program.add_static(self, o)
        o.cells0 = dict(o.cells)

    def begin(self):
        """start of a path: static data has its initial contents"""
        for o in self.statics:
            o.cells = dict(o.cells0)
        self.heap = []
        self.dirty = set()
        self.steps = 0
