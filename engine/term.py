"""Symbolic values for the NTT code base.

A machine word of width w is represented either by a Python int (canonical
unsigned value) or by a Form: an exact integer affine combination

        c0 + sum_i c_i * atom_i

whose value is congruent to the machine word modulo 2^w (wrap-around is lazy:
ring operations never need to know whether they wrap; operations that look at
the value -- shifts, comparisons, divisions, extensions -- first take the
canonical representative).  Atoms are hash-consed:

  in    an input variable with an interval and a residue in the chosen ring
  prod  the exact product of two forms
  div   floor(form / m)              (m a positive constant)
  lt0   1 if form < 0 else 0
  eq0   1 if form = 0 else 0
  sel   form if cond-atom else 0
  bw    bitwise and/or/xor of two forms (as w-bit words)
  def   a "defined" atom: a function of one (or a few) base forms about which
        the SMT solver has proved a lemma: an interval, and that it is
        congruent to alpha*base+beta modulo Q.

div, lt0, eq0, sel, bw are "raw": they have no residue modulo Q of their own.
A sum of raw atoms over common base forms is a *component*; components are
abstracted to functions of fresh bounded integer variables (the base forms)
and handed to the SMT solver, which proves range and residue for every value
of the base within its interval.  Lemmas are memoised by shape.
"""
import random, sys, time
import z3

Q = 12289


class Unsupported(Exception):
    pass


class Lawless(Unsupported):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.lemmas = {}          # text -> count

    def asdict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                    unknown=self.unknown, solver_s=round(self.solver_s, 3),
                    lemmas=len(self.lemmas))


STATS = Stats()


class Atom:
    __slots__ = ('id', 'kind', 'lo', 'hi', 'res', 'a', 'name', 'resthunk')

    def __repr__(self):
        return self.name or ('%s#%d' % (self.kind, self.id))


class Form:
    __slots__ = ('t', 'c', 'lo', 'hi', '_res', '_th', '_key', 'raw', '_id', '_r')

    def __init__(self, t, c, lo, hi, raw):
        self.t = t
        self.c = c
        self.lo = lo
        self.hi = hi
        self.raw = raw
        self._res = None
        self._th = None
        self._key = None
        self._id = None
        self._r = None

    def key(self):
        k = self._key
        if k is None:
            k = self._key = (self.c, tuple(sorted(self.t.items())))
        return k

    def __repr__(self):
        return 'Form(%s%+d in [%d,%d])' % (
            ' '.join('%+d*%s' % (c, a) for a, c in sorted(self.t.items())[:6]), self.c, self.lo, self.hi)


RAWKINDS = ('div', 'lt0', 'eq0', 'sel', 'bw')


def _round_out(lo, hi, bits):
    """outward rounding of an interval to `bits` significant bits"""
    m = max(abs(lo), abs(hi))
    s = m.bit_length() - bits
    if s <= 0:
        return lo, hi
    l, h = (lo >> s) << s, -((-hi >> s) << s)
    if hi < 1 << 31 <= h:
        h = (1 << 31) - 1          # do not round past the int32 range
    if l < -1 << 31 <= lo:
        l = -1 << 31
    return l, h


class Ctx:
    def __init__(self, ring=None, round_bits=4, timeout_ms=20000, check_ub=True, seed=1):
        self.atoms = []
        self.index = {}           # atom key -> atom
        self.ring = ring
        self.round_bits = round_bits
        self.timeout_ms = timeout_ms
        self.lemma_memo = {}
        self.def_index = {}       # (bases, alpha..) -> list of def atoms
        self.suspects = []        # (bases, points): places where a value deviates from its linear law
        self.fail_pts = {}        # shape -> points violating the guessed law
        self.max_opaque = None
        self.doms = {}            # input atom id -> finite domain
        self.eager = False        # enumerate the outliers of every almost canonical value
        self.on_suspect = None    # callback(bases, points)
        self.size_memo = {}
        self.max_shape = 140      # larger lawless expressions become opaque
        self.obligations = []     # unproved no-overflow obligations (form, w, where)
        self.ub_checked = 0
        self.check_ub = check_ub
        self.where = None
        self.rng = random.Random(seed)
        self.formids = {}
        self.fl = []
        self.failed_lemmas = []   # components for which nothing useful could be proved
        self.pc = []              # path conditions (form>=0 / form<0) while inside a forked region
        self.collapse_raw = True
        self.perfect_miss = set()

    # ------------------------------------------------------------ atoms
    def _new(self, kind, a, lo, hi, name=None):
        key = (kind, a)
        x = self.index.get(key)
        if x is not None:
            return x
        x = Atom()
        x.id = len(self.atoms)
        x.kind = kind
        x.a = a
        x.lo = lo
        x.hi = hi
        x.res = None
        x.resthunk = None
        x.name = name
        self.atoms.append(x)
        self.index[key] = x
        return x

    def formid(self, f):
        i = f._id
        if i is None:
            k = f.key()
            g = self.formids.get(k)
            if g is None:
                i = len(self.formids)
                self.formids[k] = (i, f)
                self.fl.append(f)
            else:
                i = g[0]
            f._id = i
        return i

    def input(self, name, lo, hi, res=None):
        a = self._new('in', name, lo, hi, name)
        a.res = res
        return self.atom_form(a)

    def atom_form(self, a, k=1):
        if a.lo == a.hi:
            return a.lo * k
        lo, hi = (a.lo * k, a.hi * k) if k > 0 else (a.hi * k, a.lo * k)
        return Form({a.id: k}, 0, lo, hi, (a.id,) if a.kind in RAWKINDS else ())

    # ------------------------------------------------------------ construction
    def mk(self, t, c, hint=None):
        """Form from a coefficient dict (no zero coefs) and constant."""
        if not t:
            return c
        atoms = self.atoms
        lo = hi = c
        raw = []
        for i, k in t.items():
            a = atoms[i]
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
            if a.kind in RAWKINDS:
                raw.append(i)
        if hint is not None:
            if hint[0] > lo:
                lo = hint[0]
            if hint[1] < hi:
                hi = hint[1]
        f = Form(t, c, lo, hi, tuple(raw))
        return f

    def post(self, f):
        """collapse components with a visible residue"""
        if type(f) is int:
            return f
        if f.lo == f.hi and not self.pc:
            return f.lo
        if f.raw:
            for i in f.raw:
                if f.t[i] % Q:
                    return f
            return self.collapse(f)
        return f

    def tighten(self, f):
        """use 0 <= g - m*floor(g/m) < m to narrow the interval of a form that contains a floor"""
        for i in f.raw:
            a = self.atoms[i]
            k = f.t[i]
            if a.kind != 'div' or k % a.a[1]:
                continue
            m = a.a[1]
            g = self.form_by_id(a.a[0])
            s = -(k // m)
            if not g.t or len(g.t) > 64 or any(j not in f.t for j in g.t):
                continue
            t = dict(f.t)
            del t[i]
            for j, v in g.t.items():
                v = t.get(j, 0) - s * v
                if v:
                    t[j] = v
                else:
                    t.pop(j, None)
            r = self.mk(t, f.c - s * g.c)
            lo, hi = (r, r) if type(r) is int else (r.lo, r.hi)
            e = s * (m - 1)
            f.lo = max(f.lo, lo + min(e, 0))
            f.hi = min(f.hi, hi + max(e, 0))
        return f

    # ring operations on integers/forms (no width)
    def add_(self, x, y, sy=1):
        """x + sy*y as exact integers; x,y int or Form"""
        if type(x) is int:
            if type(y) is int:
                return x + sy * y
            if x == 0 and sy == 1:
                return y
            t = y.t if sy == 1 else {i: sy * k for i, k in y.t.items()}
            if sy > 0:
                f = Form(t, x + sy * y.c, x + sy * y.lo, x + sy * y.hi, y.raw)
            else:
                f = Form(t, x + sy * y.c, x + sy * y.hi, x + sy * y.lo, y.raw)
            f._th = ((1, x), (sy, y))
            return f
        if type(y) is int:
            if y == 0:
                return x
            y *= sy
            f = Form(x.t, x.c + y, x.lo + y, x.hi + y, x.raw)
            f._th = ((1, x), (1, y))
            return f
        xt = x.t
        t = dict(xt)
        ov = False
        for i, k in y.t.items():
            o = t.get(i)
            if o is None:
                t[i] = sy * k
            else:
                ov = True
                k = o + sy * k
                if k:
                    t[i] = k
                else:
                    del t[i]
        if sy > 0:
            lo, hi = x.lo + sy * y.lo, x.hi + sy * y.hi
        else:
            lo, hi = x.lo + sy * y.hi, x.hi + sy * y.lo
        if ov:
            f = self.mk(t, x.c + sy * y.c, (lo, hi))
            if type(f) is int:
                return f
        else:
            if x.raw:
                raw = x.raw + y.raw if y.raw else x.raw
            else:
                raw = y.raw
            f = Form(t, x.c + sy * y.c, lo, hi, raw)
        if not (x.raw or y.raw):
            f._th = ((1, x), (sy, y))
        if f.raw:
            if f.hi - f.lo >= 1 << 30 and len(f.t) <= 64 and not self.pc:
                self.tighten(f)
            return self.post(f)
        return f

    def mulc_(self, x, k):
        if type(x) is int:
            return x * k
        if k == 0:
            return 0
        if k == 1:
            return x
        lo, hi = (x.lo * k, x.hi * k) if k > 0 else (x.hi * k, x.lo * k)
        f = Form({i: v * k for i, v in x.t.items()}, x.c * k, lo, hi, x.raw)
        f._th = ((k, x),)
        if f.raw:
            return self.post(f)
        return f

    def mul_(self, x, y):
        if type(x) is int:
            return self.mulc_(y, x)
        if type(y) is int:
            return self.mulc_(x, y)
        # boolean factor: b*y = sel
        x = self.resolve(x)
        y = self.resolve(y)
        if type(x) is int or type(y) is int:
            return self.mul_(x, y)
        for p, q in ((x, y), (y, x)):
            if len(p.t) == 1:
                (i, k), = p.t.items()
                a = self.atoms[i]
                if a.kind in ('lt0', 'eq0'):
                    r = self.sel_(a, q)
                    return self.add_(self.mulc_(r, k), self.mulc_(q, p.c))
        # contents
        kx, x1 = self.content(x)
        ky, y1 = self.content(y)
        i, j = self.formid(x1), self.formid(y1)
        if i > j:
            x1, y1, i, j = y1, x1, j, i
        vs = (x1.lo * y1.lo, x1.lo * y1.hi, x1.hi * y1.lo, x1.hi * y1.hi)
        lo, hi = min(vs), max(vs)
        if i == j:
            lo = max(lo, 0)
        a = self._new('prod', (i, j), lo, hi)
        if a.resthunk is None:
            a.resthunk = (x1, y1)
        return self.atom_form(a, kx * ky)

    def content(self, f):
        from math import gcd
        if len(f.t) == 1:
            (i, k), = f.t.items()
            if f.c % k == 0:
                g = abs(k)
            else:
                g = gcd(abs(k), f.c)
        else:
            g = f.c
            for k in f.t.values():
                g = gcd(g, k)
                if g == 1:
                    break
        i = min(f.t)
        if f.t[i] < 0:
            g = -g
        if g == 1:
            return 1, f
        lo, hi = (f.lo // g, f.hi // g)
        if g < 0:
            lo, hi = -((-f.hi) // g) if False else f.hi // g, f.lo // g
            # exact division: f values are multiples of g
        h = Form({i: k // g for i, k in f.t.items()}, f.c // g, min(lo, hi), max(lo, hi), f.raw)
        h._th = None
        return g, h

    # ------------------------------------------------------------ non-linear atoms (exact integers)
    def rng_of(self, f):
        r = f._r
        if r is None:
            lo, hi = f.lo, f.hi
            r = f._r = _round_out(lo, hi, self.round_bits)
        return r

    def div_(self, f, m):
        """floor(f/m), m>0"""
        if m == 1:
            return f
        if type(f) is int:
            return f // m
        f = self.resolve(f)
        if type(f) is int:
            return f // m
        if f.lo // m == f.hi // m:
            return f.lo // m
        # pull out multiples of m
        t1, t2 = {}, {}
        for i, k in f.t.items():
            if k % m == 0:
                t1[i] = k // m
            else:
                t2[i] = k
        if t1:
            out = self.mk(t1, 0)
            inner = self.mk(t2, f.c)
            return self.add_(out, self.div_(inner, m))
        l, h = f.lo // m, f.hi // m
        if h == l + 1:         # one step: l + [f >= h*m]
            return self.add_(h, self.lt0_(self.add_(f, -h * m)), -1)
        rlo, rhi = self.rng_of(f)
        a = self._new('div', (self.formid(f), m), rlo // m, rhi // m)
        return self.atom_form(a)

    def lt0_(self, f):
        """1 if f<0 else 0"""
        if type(f) is int:
            return 1 if f < 0 else 0
        f = self.resolve(f)
        if type(f) is int:
            return 1 if f < 0 else 0
        if f.hi < 0:
            return 1
        if f.lo >= 0:
            return 0
        # normalise by the gcd of the coefficients
        from math import gcd
        g = 0
        for k in f.t.values():
            g = gcd(g, k)
            if g == 1:
                break
        if g > 1:
            f = self.mk({i: k // g for i, k in f.t.items()}, f.c // g, (f.lo // g, f.hi // g))
            if f.hi < 0:
                return 1
            if f.lo >= 0:
                return 0
        # canonical sign: leading coefficient positive.  f<0  <=>  not (-f-1 < 0)
        i = min(f.t)
        if f.t[i] < 0:
            h = self.add_(-1, f, -1)
            return self.add_(1, self.lt0_(h), -1)
        # 0/1 atom tests
        if len(f.t) == 1:
            a = self.atoms[i]
            if a.kind in ('lt0', 'eq0') :
                # k=1 after gcd; f = b + c with lo<0<=hi -> c=-1 : f<0 iff b=0
                return self.add_(1, self.atom_form(a), -1)
        a = self._new('lt0', (self.formid(f),), 0, 1)
        return self.atom_form(a)

    def eq0_(self, f):
        if type(f) is int:
            return 1 if f == 0 else 0
        f = self.resolve(f)
        if type(f) is int:
            return 1 if f == 0 else 0
        if f.lo > 0 or f.hi < 0:
            return 0
        from math import gcd
        g = 0
        for k in f.t.values():
            g = gcd(g, k)
        if f.c % g:
            return 0
        i = min(f.t)
        if f.t[i] < 0:
            g = -g
        if g != 1:
            lo, hi = sorted((f.lo // g, f.hi // g))
            f = self.mk({i: k // g for i, k in f.t.items()}, f.c // g, (lo, hi))
        if f.lo == 0:      # f=0 <=> f<1
            return self.lt0_(self.add_(f, -1))
        if f.hi == 0:
            return self.lt0_(self.add_(-1, f, -1))
        a = self._new('eq0', (self.formid(f),), 0, 1)
        return self.atom_form(a)

    def sel_(self, cond_atom, f):
        """f if cond_atom else 0"""
        if type(f) is int:
            return self.atom_form(cond_atom, f) if f else 0
        f = self.resolve(f)
        if type(f) is int:
            return self.sel_(cond_atom, f)
        # constant part
        c = f.c
        k, g = 1, f
        if c:
            g = self.add_(f, -c)
        if type(g) is int:
            return self.sel_(cond_atom, g + c)
        k, g1 = self.content(g)
        a = self._new('sel', (cond_atom.id, self.formid(g1)), min(0, g1.lo), max(0, g1.hi))
        r = self.atom_form(a, k)
        if c:
            r = self.add_(r, self.atom_form(cond_atom, c))
        return r

    def ite_(self, c, x, y):
        """c a 0/1 value (int or Form)"""
        if type(c) is int:
            return x if c else y
        if type(x) is int and type(y) is int and x == y:
            return x
        if type(x) is Form and type(y) is Form and x.key() == y.key():
            return x
        if len(c.t) == 1:
            (i, k), = c.t.items()
            a = self.atoms[i]
            if a.kind in ('lt0', 'eq0'):
                if (k, c.c) == (-1, 1):
                    x, y = y, x
                elif (k, c.c) != (1, 0):
                    raise Unsupported('ite condition')
                d = self.add_(x, y, -1)
                r = self.add_(y, self.sel_(a, d))
                if type(r) is Form:
                    xl, xh = (x, x) if type(x) is int else (x.lo, x.hi)
                    yl, yh = (y, y) if type(y) is int else (y.lo, y.hi)
                    lo, hi = min(xl, yl), max(xh, yh)
                    if lo > r.lo or hi < r.hi:
                        r2 = Form(r.t, r.c, max(lo, r.lo), min(hi, r.hi), r.raw)
                        r2._th = r._th
                        r = r2
                return r
        # general boolean form: make it an eq0/lt0 atom
        b = self.lt0_(self.add_(c, -1))      # 1 iff c == 0
        if type(b) is int:
            return y if b else x
        return self.ite_(self.add_(1, b, -1), x, y)

    # ------------------------------------------------------------ machine words
    def sval(self, x, w):
        """canonical signed value (exact int/Form) of a w-bit word"""
        if type(x) is int:
            x &= (1 << w) - 1
            return x - (1 << w) if x >> (w - 1) else x
        H = 1 << (w - 1)
        if -H <= x.lo and x.hi < H:
            return x
        x = self.redc(x, w)
        if type(x) is int:
            return self.sval(x, w)
        if -H <= x.lo and x.hi < H:
            return x
        x = self.resolve(x)
        if type(x) is int:
            return self.sval(x, w)
        if -H <= x.lo and x.hi < H:
            return x
        d = self.div_(self.add_(x, H), 1 << w)
        r = self.add_(x, self.mulc_(d, -(1 << w)))
        if type(r) is int:
            return r
        return self.clip(r, -H, H - 1)

    def uval(self, x, w):
        if type(x) is int:
            return x & ((1 << w) - 1)
        M = 1 << w
        if 0 <= x.lo and x.hi < M:
            return x
        x = self.redc(x, w)
        if type(x) is int:
            return x & (M - 1)
        if 0 <= x.lo and x.hi < M:
            return x
        x = self.resolve(x)
        if type(x) is int:
            return x & (M - 1)
        if 0 <= x.lo and x.hi < M:
            return x
        d = self.div_(x, M)
        r = self.add_(x, self.mulc_(d, -M))
        if type(r) is int:
            return r
        return self.clip(r, 0, M - 1)

    def clip(self, r, lo, hi):
        if r.lo < lo or r.hi > hi:
            n = Form(r.t, r.c, max(lo, r.lo), min(hi, r.hi), r.raw)
            n._th = ((1, r),)
            return n
        return r

    def redc(self, x, w):
        """reduce coefficients modulo 2^w (symmetric)"""
        M = 1 << w
        H = M >> 1
        for k in x.t.values():
            if k >= H or k < -H:
                break
        else:
            if -H <= x.c < M:
                return x
            c = (x.c + H) % M - H
            d = c - x.c
            f = Form(x.t, c, x.lo + d, x.hi + d, x.raw)
            return f
        t = {}
        for i, k in x.t.items():
            k = (k + H) % M - H
            if k:
                t[i] = k
        c = (x.c + H) % M - H
        return self.post(self.mk(t, c))

    def s2(self, x, w):
        """int -> signed int for mixing with forms"""
        if type(x) is int:
            x &= (1 << w) - 1
            return x - (1 << w) if x >> (w - 1) else x
        return x

    def out(self, x, w):
        return x & ((1 << w) - 1) if type(x) is int else x

    def nsw(self, r, w, what):
        if not self.check_ub:
            return
        self.ub_checked += 1
        H = 1 << (w - 1)
        if type(r) is int:
            if not -H <= r < H:
                self.obligations.append((what, self.where, r, w))
        elif r.lo < -H or r.hi >= H:
            r2 = self.resolve(r)
            if type(r2) is int or r2.lo < -H or r2.hi >= H:
                self.obligations.append((what, self.where, r2, w))

    def add(self, x, y, w, nsw=False):
        x, y = self.s2(x, w), self.s2(y, w)
        if nsw:
            x, y = self.sval(x, w), self.sval(y, w)
        r = self.add_(x, y)
        if nsw:
            self.nsw(r, w, 'add')
        return self.out(r, w)

    def sub(self, x, y, w, nsw=False):
        x, y = self.s2(x, w), self.s2(y, w)
        if nsw:
            x, y = self.sval(x, w), self.sval(y, w)
        r = self.add_(x, y, -1)
        if nsw:
            self.nsw(r, w, 'sub')
        return self.out(r, w)

    def mul(self, x, y, w, nsw=False):
        x, y = self.s2(x, w), self.s2(y, w)
        if nsw or (type(x) is Form and type(y) is Form):
            x, y = self.sval(x, w), self.sval(y, w)
        r = self.mul_(x, y)
        if nsw:
            self.nsw(r, w, 'mul')
        elif type(r) is Form:
            r = self.redc(r, w)
        return self.out(r, w)

    def shl(self, x, k, w, nsw=False):
        if type(k) is Form:
            raise Unsupported('symbolic shift count')
        return self.mul(x, 1 << k, w, nsw) if k < w else 0

    def ashr(self, x, k, w):
        if type(k) is Form:
            raise Unsupported('symbolic shift count')
        return self.out(self.div_(self.sval(x, w), 1 << k), w)

    def lshr(self, x, k, w):
        if type(k) is Form:
            raise Unsupported('symbolic shift count')
        if k == 0:
            return x
        if type(x) is int:
            return (x & ((1 << w) - 1)) >> k
        H = 1 << (w - 1)
        if x.lo >= 0:
            return self.div_(self.uval(x, w), 1 << k)
        s = self.sval(x, w)
        if type(s) is int:
            return (s & ((1 << w) - 1)) >> k
        # floor((s + 2^w*[s<0])/2^k) = floor(s/2^k) + 2^(w-k)*[s<0]
        d = self.div_(s, 1 << k)
        b = self.lt0_(s)
        r = self.add_(d, self.mulc_(b, 1 << (w - k)))
        if type(r) is Form:
            r = self.clip(r, 0, (1 << (w - k)) - 1)
        return self.out(r, w)

    def trunc(self, x, w):
        if type(x) is int:
            return x & ((1 << w) - 1)
        return self.out(self.redc(x, w), w)

    def sext(self, x, w, w2):
        return self.out(self.sval(x, w), w2)

    def zext(self, x, w, w2):
        return self.out(self.uval(x, w), w2)

    def cmp(self, pred, x, y, w):
        if pred in ('eq', 'ne'):
            if type(x) is int and type(y) is int:
                r = 1 if x == y else 0
            else:
                r = self.eq0_(self.add_(self.sval(x, w), self.sval(y, w), -1))
            return r if pred == 'eq' else self.add_(1, r, -1)
        if pred[0] == 's':
            x, y = self.sval(x, w), self.sval(y, w)
        else:
            x, y = self.uval(x, w), self.uval(y, w)
        p = pred[1:]
        if p == 'lt':
            return self.lt0_(self.add_(x, y, -1))
        if p == 'ge':
            return self.add_(1, self.lt0_(self.add_(x, y, -1)), -1)
        if p == 'gt':
            return self.lt0_(self.add_(y, x, -1))
        if p == 'le':
            return self.add_(1, self.lt0_(self.add_(y, x, -1)), -1)
        raise Unsupported('icmp ' + pred)

    def bitand(self, x, y, w):
        if type(x) is int and type(y) is int:
            return x & y
        if type(x) is int:
            x, y = y, x
        # x is a Form
        for p, q in ((x, y), (y, x)):
            if type(p) is Form:
                s = self.sval(p, w)
                if type(s) is int:
                    return self.bitand(s & ((1 << w) - 1), q, w)
                if s.lo >= -1 and s.hi <= 0:
                    return self.out(self.mulc_(self.mul_(s, self.sval(q, w)), -1), w)
        if type(y) is int:
            m = y & ((1 << w) - 1)
            if m == 0:
                return 0
            if m == (1 << w) - 1:
                return x
            if m & (m + 1) == 0:                   # low mask
                k = m.bit_length()
                xs = self.resolve(self.redc(x, w))
                if type(xs) is int:
                    return xs & m
                if xs.lo >= 0 and xs.hi <= m:
                    return xs
                d = self.div_(xs, 1 << k)
                r = self.add_(xs, self.mulc_(d, -(1 << k)))
                if type(r) is Form:
                    r = self.clip(r, 0, m)
                return self.out(r, w)
            inv = (~m) & ((1 << w) - 1)
            if inv & (inv + 1) == 0:               # high mask: x - (x & inv)
                return self.sub(x, self.bitand(x, inv, w), w)
            s = self.sval(x, w)
            if type(s) is Form and s.hi - s.lo <= 8:      # small range: step function
                fv = lambda u: self.s2((u & m), w)
                r = fv(s.lo)
                for u in range(s.lo + 1, s.hi + 1):
                    d = fv(u) - fv(u - 1)
                    if d:
                        ge = self.add_(1, self.lt0_(self.add_(s, -u)), -1)
                        r = self.add_(r, self.mulc_(ge, d))
                return self.out(r, w)
            tz = (m & -m).bit_length() - 1
            hi = m >> tz
            if hi & (hi + 1) == 0:                 # a contiguous field
                return self.shl(self.bitand(self.div_(s, 1 << tz), hi, w), tz, w)
            # split the mask into contiguous fields
            r = 0
            mm = m
            while mm:
                tz = (mm & -mm).bit_length() - 1
                h = mm >> tz
                ln = ((h + 1) & -(h + 1)).bit_length() - 1
                fld = ((1 << ln) - 1) << tz
                r = self.add(r, self.bitand(x, fld, w), w)
                mm &= ~fld
            return r
        return self.bw('and', x, y, w)

    def bitor(self, x, y, w):
        if type(x) is int and type(y) is int:
            return x | y
        if type(x) is int:
            x, y = y, x
        # x|y = x + y - (x&y)
        if w == 1 or True:
            xs = self.sval(x, w)
            ys = self.sval(y, w) if type(y) is Form else self.s2(y, w)
            for p, q in ((xs, ys), (ys, xs)):
                if type(p) is Form and p.lo >= -1 and p.hi <= 0:
                    # p mask: -p*( -1 - q) ... p? -1 : q
                    return self.out(self.add_(q, self.mul_(p, self.add_(q, 1))), w)
            u, v = self.uval(x, w), self.uval(y, w)
            for p, q in ((u, v), (v, u)):
                # disjoint: p multiple of 2^k and 0<=q<2^k
                ql, qh = (q, q) if type(q) is int else (q.lo, q.hi)
                k = qh.bit_length()
                if type(p) is int:
                    ok = p % (1 << k) == 0
                else:
                    ok = p.c % (1 << k) == 0 and all(c % (1 << k) == 0 for c in p.t.values())
                if ok and ql >= 0:
                    return self.out(self.add_(p, q), w)
        return self.sub(self.add(x, y, w), self.bitand(x, y, w), w)

    def bitxor(self, x, y, w):
        if type(x) is int and type(y) is int:
            return x ^ y
        if type(x) is int:
            x, y = y, x
        if type(y) is int and y == (1 << w) - 1:
            return self.sub(-1, x, w)
        if w == 1:
            return self.bitxor01(x, y)
        xs = self.sval(x, w)
        ys = self.sval(y, w) if type(y) is Form else self.s2(y, w)
        for p, q in ((xs, ys), (ys, xs)):
            if type(p) is Form and p.lo >= -1 and p.hi <= 0:
                # p ? ~q : q  = q + p*(2q+1)
                return self.out(self.add_(q, self.mul_(p, self.add_(self.mulc_(q, 2), 1))), w)
        return self.sub(self.add(x, y, w), self.mul(2, self.bitand(x, y, w), w), w)

    def bitxor01(self, x, y):
        x, y = self.uval(x, 1), self.uval(y, 1)
        if type(x) is int:
            x, y = y, x
        if type(y) is int:
            return x if y == 0 else self.add_(1, x, -1)
        raise Unsupported('xor of symbolic booleans')

    def and1(self, x, y):
        x, y = self.uval(x, 1), self.uval(y, 1)
        return self.mul_(x, y)

    def bw(self, op, x, y, w):
        xs, ys = self.resolve(self.uval(x, w)), self.resolve(self.uval(y, w))
        i, j = self.formid(xs), self.formid(ys)
        if i == j:
            return x
        if i > j:
            i, j, xs, ys = j, i, ys, xs
        a = self._new('bw', (op, w, i, j), 0, min(xs.hi, ys.hi))
        return self.atom_form(a)

    def sdiv(self, x, y, w):
        x, y = self.sval(x, w), self.sval(y, w)
        if type(y) is not int or y == 0:
            raise Unsupported('sdiv by symbolic or zero')
        return self.out(self.sdiv_(x, y), w)

    def sdiv_(self, x, y):
        if type(x) is int:
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if y < 0:
            return self.mulc_(self.sdiv_(x, -y), -1)
        if x.lo >= 0:
            return self.div_(x, y)
        b = self.lt0_(x)
        return self.div_(self.add_(x, self.mulc_(b, y - 1)), y)

    def srem(self, x, y, w):
        x, y = self.sval(x, w), self.sval(y, w)
        if type(y) is not int or y == 0:
            raise Unsupported('srem by symbolic or zero')
        d = self.sdiv_(x, y)
        r = self.add_(x, self.mulc_(d, -y))
        if type(r) is Form and type(x) is Form:
            m = abs(y) - 1
            r = self.clip(r, max(-m, min(x.lo, 0)), min(m, max(x.hi, 0)))
        return self.out(r, w)

    def udiv(self, x, y, w):
        x, y = self.uval(x, w), self.uval(y, w)
        if type(y) is not int or y == 0:
            raise Unsupported('udiv by symbolic or zero')
        return self.div_(x, y)

    def urem(self, x, y, w):
        x, y = self.uval(x, w), self.uval(y, w)
        if type(y) is not int or y == 0:
            raise Unsupported('urem by symbolic or zero')
        d = self.div_(x, y)
        r = self.add_(x, self.mulc_(d, -y))
        if type(r) is Form:
            r = self.clip(r, 0, y - 1)
        return r

    def select(self, c, x, y, w):
        c = self.uval(c, 1)
        if type(c) is int:
            return x if c else y
        return self.out(self.ite_(c, self.sval(x, w), self.sval(y, w)), w)

    # ------------------------------------------------------------ components
    def resolve(self, f):
        """try to turn raw atoms into defined atoms (lemma with a guessed residue)"""
        if type(f) is int or not f.raw or not self.collapse_raw:
            return f
        return self.collapse(f, True)

    def linpart(self, f):
        """(opaque linear part as dict, raw part list)"""
        lin, raw = {}, []
        for i, k in f.t.items():
            if self.atoms[i].kind in RAWKINDS:
                raw.append((i, k))
            else:
                lin[i] = k
        return lin, raw

    def form_by_id(self, fid):
        return self.fl[fid]

    def raw_args(self, a):
        """argument forms of a raw atom"""
        if a.kind == 'div':
            return [self.form_by_id(a.a[0])]
        if a.kind in ('lt0', 'eq0'):
            return [self.form_by_id(a.a[0])]
        if a.kind == 'sel':
            c = self.atoms[a.a[0]]
            return [self.form_by_id(a.a[1])] + self.raw_args(c)
        if a.kind == 'bw':
            return [self.form_by_id(a.a[2]), self.form_by_id(a.a[3])]
        raise KeyError(a.kind)

    def dirs_of(self, aid, memo):
        """set of directions (canonical primitive linear parts) used by a raw atom,
        with the contents seen"""
        r = memo.get(aid)
        if r is not None:
            return r
        r = {}
        for g in self.raw_args(self.atoms[aid]):
            lin, raw = self.linpart(g)
            if lin:
                d, k = self.primdir(lin)
                r.setdefault(d, set()).add(abs(k))
            for j, _ in raw:
                for d, ks in self.dirs_of(j, memo).items():
                    r.setdefault(d, set()).update(ks)
        memo[aid] = r
        return r

    @staticmethod
    def primdir(lin):
        from math import gcd
        items = sorted(lin.items())
        g = 0
        for _, k in items:
            g = gcd(g, k)
        if items[0][1] < 0:
            g = -g
        if g == 1:
            return tuple(items), 1
        return tuple((i, k // g) for i, k in items), g

    def collapse(self, f, guess=False):
        from math import gcd
        lin, raws = self.linpart(f)
        memo = {}
        # connected components of raw atoms by shared directions
        comps = []      # list of [set(dirs)->contents dict, [(aid,k)]]
        for i, k in raws:
            ds = self.dirs_of(i, memo)
            hit = [c for c in comps if any(d in c[0] for d in ds)]
            n = [dict(), [(i, k)]]
            for d, s in ds.items():
                n[0].setdefault(d, set()).update(s)
            for c in hit:
                for d, s in c[0].items():
                    n[0].setdefault(d, set()).update(s)
                n[1] = c[1] + n[1]
                comps.remove(c)
            comps.append(n)
        rest = dict(lin)
        out_t = {}
        out_forms = []
        changed = False
        cadj = 0
        for dirs, rl in comps:
            if guess is False and any(k % Q for _, k in rl):
                for i, k in rl:
                    out_t[i] = k
                continue
            ks = []
            dl = sorted(dirs)
            for d in dl:
                lead, lk = d[0]
                c = rest.get(lead, 0)
                k = c // lk if c % lk == 0 else 0
                if k:
                    # require that most of the direction is present
                    if all(rest.get(i, 0) * k > 0 or rest.get(i, 0) == k * v for i, v in d[:4]):
                        pass
                    elif len(d) > 1 and sum(1 for i, v in d if rest.get(i, 0) == k * v) * 2 < len(d):
                        k = 0
                ks.append(k)
            if guess is False and not any(ks):
                for i, k in rl:
                    out_t[i] = k
                continue
            r, dc = self.component(dl, dirs, ks, rl, f, len(comps) == 1 and lin)
            if r is None:
                for i, k in rl:
                    out_t[i] = k
                continue
            changed = True
            cadj += dc
            for d, k in zip(dl, ks):
                if k:
                    for i, v in d:
                        nv = rest.get(i, 0) - k * v
                        if nv:
                            rest[i] = nv
                        else:
                            rest.pop(i, None)
            out_forms.append(r)
        if not changed:
            return f
        for i, k in rest.items():
            out_t[i] = out_t.get(i, 0) + k
        out_t = {i: k for i, k in out_t.items() if k}
        g = self.mk(out_t, f.c + cadj)
        for r in out_forms:
            g = self.add_(g, r)
        if type(g) is Form and (f.lo > g.lo or f.hi < g.hi):
            # keep the operation-level interval, it is sound too
            h = Form(g.t, g.c, max(f.lo, g.lo), min(f.hi, g.hi), g.raw)
            h._th = g._th if g._th else ((1, g),)
            if g._th is None:
                h._th = ((1, g),)
            g = h
        return g

    def shape_form(self, g, vmap):
        """shape of a form over variables vmap: direction -> (var index, unit content)"""
        lin, raw = self.linpart(g)
        ls = ()
        if lin:
            d, k = self.primdir(lin)
            v, u, off = vmap[d]
            ls = ((v, k // u),)
            c0 = g.c - k // u * off
        else:
            c0 = g.c
        rs = tuple((k, self.shape_raw(i, vmap)) for i, k in sorted(raw))
        return ('lin', ls, rs, c0)

    def shape_raw(self, aid, vmap):
        a = self.atoms[aid]
        if a.kind == 'div':
            return ('div', a.a[1], self.shape_form(self.form_by_id(a.a[0]), vmap))
        if a.kind in ('lt0', 'eq0'):
            return (a.kind, self.shape_form(self.form_by_id(a.a[0]), vmap))
        if a.kind == 'sel':
            return ('sel', self.shape_raw(a.a[0], vmap), self.shape_form(self.form_by_id(a.a[1]), vmap))
        if a.kind == 'bw':
            return ('bw', a.a[0], a.a[1], self.shape_form(self.form_by_id(a.a[2]), vmap),
                    self.shape_form(self.form_by_id(a.a[3]), vmap))
        raise KeyError(a.kind)

    def lin_args(self, rl):
        """raw-free argument forms below the raw atoms rl"""
        out = []
        todo = [i for i, _ in rl]
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            a = self.atoms[i]
            if a.kind == 'sel':
                todo.append(a.a[0])
            for g in self.raw_args(a):
                if g.raw:
                    todo.extend(g.raw)
                else:
                    out.append(g)
        return out

    def component(self, dl, dirs, ks, rl, f, lin):
        """component = sum_i ks[i]*dir_i + sum k*raw.  Returns (Form of a defined atom, const
        adjustment) or (None, 0)."""
        from math import gcd
        vmap = {}
        bases = []
        lins = []
        args = self.lin_args(rl)
        cadj = 0
        for n, d in enumerate(dl):
            u = 0
            for c in dirs[d]:
                u = gcd(u, c)
            if ks[n]:
                u = gcd(u, ks[n])
            # offset and interval of the base  v = u*d + off
            off = None
            if getattr(self, '_unit', False):
                u = 1
            lo, hi = -(1 << 200), 1 << 200
            for g in args:
                dd, k = self.primdir(g.t)
                if dd != d:
                    continue
                if off is None and k < 0:
                    u = -u
                if (off is None or abs(k) < offk) and (g.c * u) % k == 0:
                    off, offk = g.c * u // k, abs(k)
                l, h = g.lo - g.c, g.hi - g.c
                if k < 0:
                    l, h, k = -h, -l, -k
                l, h = -((-l) // k), h // k       # bounds of d
                if u < 0:
                    l, h = -h, -l
                lo, hi = max(lo, l * abs(u)), min(hi, h * abs(u))
            if off is None:
                off = 0
            vmap[d] = (n, u, off)
            b = self.mk({i: k * u for i, k in d}, off, (lo + off, hi + off))
            bases.append(b)
            if ks[n]:
                lins.append((n, ks[n] // u))
                cadj -= ks[n] // u * off
        shape = ('lin', tuple(lins), tuple((k, self.shape_raw(i, vmap)) for i, k in sorted(rl)), 0)
        exact = tuple((b.lo, b.hi) for b in bases)
        hint = None
        if lin is not False and (not lin or all(lin.get(i, 0) == ks[n] * v for n, d in enumerate(dl) for i, v in d) and
                                 len(lin) == sum(len(d) for n, d in enumerate(dl) if ks[n])):
            hint = (f.lo - f.c - cadj, f.hi - f.c - cadj)
        lem = self.lemma(shape, exact, hint)
        if (lem is None or (Q <= lem[1] - lem[0] and -8 <= lem[0] and lem[1] < Q + 8)) and \
                any(abs(v[1]) != 1 for v in vmap.values()) and not getattr(self, '_unit', False):
            # the base is a proper multiple: retry over the primitive direction
            self._unit = True
            try:
                return self.component(dl, dirs, ks, rl, f, False)
            finally:
                self._unit = False
        if lem is None:
            pts = self.fail_pts.get(shape)
            if pts and len(self.suspects) < 400:
                pts = [p for p in pts if all(b.lo <= x <= b.hi for x, b in zip(p, bases))]
                self.suspects.append((bases, pts))
                if self.on_suspect and pts:
                    self.on_suspect(bases, pts, shape)
            if self.shape_size(shape) > self.max_shape:
                return self.opaque(shape, bases, rl, ks, dl, cadj)
            return None, 0
        lo, hi, alphas, beta = lem
        if Q <= hi - lo and -8 <= lo and hi < Q + 8 and (self.eager or self.prod_base(bases)):
            # almost canonical: the values that leave [0,Q-1] are counterexample candidates
            pts, complete = self.outliers(shape, exact)
            pts = [p for p in pts if self.feasible(bases, p)]
            if complete and not pts:
                # the solver enumerated every value outside [0,Q-1]; none is a product in range
                lo, hi = max(lo, 0), min(hi, Q - 1)
            elif pts:
                self.suspects.append((bases, pts))
                if self.on_suspect:
                    self.on_suspect(bases, pts, shape)
        if not any(alphas) and hi - lo >= Q:
            return None, 0
        bids = tuple(self.formid(b) for b in bases)
        # same function already defined with another shape?
        dk = (bids, alphas, beta)
        akey = ('def', (shape, bids))
        a = self.index.get(akey)
        if a is None:
            for (sh2, ex2, a2) in self.def_index.get(dk, ()):
                if self.equal_shapes(shape, sh2, exact):
                    self.index[akey] = a2
                    a = a2
                    break
        if a is None:
            a = self._new('def', (shape, bids), lo, hi)
            a.resthunk = (alphas, beta, bases)
            self.def_index.setdefault(dk, []).append((shape, exact, a))
        return self.atom_form(a), cadj

    def outliers(self, shape, rg, cnt=300, secs=20):
        """base values for which the shape leaves [0,Q-1] (solver models)"""
        key = ('outl', shape, rg)
        if key in self.lemma_memo:
            return self.lemma_memo[key]
        vs = [z3.Int('v%d' % i) for i in range(len(rg))]
        f = self.z3_shape(shape, vs)
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*[z3.And(v >= l, v <= h) for v, (l, h) in zip(vs, rg)])
        s.add(z3.Or(f < 0, f >= Q))
        pts = []
        t0 = time.time()
        complete = False
        while len(pts) < cnt and time.time() - t0 < secs:
            STATS.queries += 1
            r = s.check()
            if r != z3.sat:
                complete = r == z3.unsat
                break
            STATS.sat += 1
            m = s.model()
            p = tuple(m.eval(v, model_completion=True).as_long() for v in vs)
            pts.append(p)
            s.add(z3.Or([v != x for v, x in zip(vs, p)]))
        STATS.solver_s += time.time() - t0
        self.lemma_memo[key] = (pts, complete)
        return pts, complete

    def prod_base(self, bases):
        if len(bases) != 1 or len(bases[0].t) != 1:
            return False
        (i, k), = bases[0].t.items()
        return self.atoms[i].kind == 'prod'

    def feasible(self, bases, p):
        """can a product base take its value, given the intervals of its factors?"""
        for b, v in zip(bases, p):
            if len(b.t) != 1:
                continue
            (i, k), = b.t.items()
            a = self.atoms[i]
            if a.kind != 'prod':
                continue
            v -= b.c
            if v % k:
                return False
            v //= k
            f, g = self.form_by_id(a.a[0]), self.form_by_id(a.a[1])
            if f.hi - f.lo > (1 << 16):
                continue
            xs = range(f.lo, f.hi + 1)
            for h, o in ((f, g), (g, f)):
                d = self.doms.get(next(iter(h.t))) if len(h.t) == 1 and h.c == 0 else None
                if d is not None and next(iter(h.t.values())) == 1:
                    xs, g = d, o
                    break
            if v == 0:
                ok = f.lo <= 0 <= f.hi or g.lo <= 0 <= g.hi
            else:
                key = ('fac', v, id(xs) if type(xs) is not range else xs, g.lo, g.hi)
                ok = self.lemma_memo.get(key)
                if ok is None:
                    ok = self.lemma_memo[key] = any(
                        x and v % x == 0 and g.lo <= v // x <= g.hi for x in xs)
            if not ok:
                return False
        return True

    def shape_size(self, s):
        r = self.size_memo.get(id(s))
        if r is not None and r[0] is s:
            return r[1]
        n = 1 + sum(self.shape_size(e) for e in s if type(e) is tuple)
        self.size_memo[id(s)] = (s, n)
        return n

    def opaque(self, shape, bases, rl, ks, dl, cadj):
        """name a large expression that follows no linear law (only its interval is kept)"""
        bids = tuple(self.formid(b) for b in bases)
        akey = ('def', (shape, bids))
        a = self.index.get(akey)
        if a is None:
            t = dict(rl)
            for d, k in zip(dl, ks):
                if k:
                    for i, v in d:
                        t[i] = t.get(i, 0) + k * v
            f = self.mk({i: k for i, k in t.items() if k}, -cadj)
            lo, hi = (f, f) if type(f) is int else (f.lo, f.hi)
            a = self._new('def', (shape, bids), lo, hi)
            a.resthunk = None
            self.opaques = getattr(self, 'opaques', 0) + 1
            if self.max_opaque is not None and self.opaques > self.max_opaque:
                raise Lawless('too many lawless expressions')
        return self.atom_form(a), cadj

    # ------------------------------------------------------------ lemmas (SMT)
    NICE = ((0, (Q - 1) ** 2),)

    def lemma(self, shape, exact, hint=None):
        """(lo,hi,alphas,beta) valid for all base values in exact ranges, or None"""
        rounded = tuple(_round_out(l, h, self.round_bits) for l, h in exact)
        best = None
        if len(exact) == 1 and shape not in self.perfect_miss:
            l, h = exact[0]
            for (nl, nh) in self.NICE:
                if nl <= l and h <= nh and (l, h) != (nl, nh):
                    r = self.prove1(shape, ((nl, nh),), None, True)
                    if r is not None and r[1] - r[0] < Q:
                        return r
        r = self.prove1(shape, rounded, hint, False)
        if r is not None:
            if r[1] - r[0] < Q:
                return r
            best = r
        if rounded != exact and (best is None or best[1] - best[0] < 4 * Q) and shape not in self.perfect_miss:
            r = self.prove1(shape, exact, hint, False)
            if r is not None:
                if r[1] - r[0] < Q:
                    return r
                if best is None or (r[1] - r[0]) < (best[1] - best[0]):
                    best = r
        if best is not None:
            self.perfect_miss.add(shape)
        return best

    def prove1(self, shape, rg, hint, want_perfect):
        key = (shape, rg)
        if key in self.lemma_memo:
            return self.lemma_memo[key]
        if want_perfect and (key, 'p') in self.lemma_memo:
            return None
        r = self.prove(shape, rg, hint, want_perfect)
        if r is None and want_perfect:
            self.lemma_memo[(key, 'p')] = True
        else:
            self.lemma_memo[key] = r
        return r

    def samples(self, shape, rg):
        pts = []
        R = self.rng
        mods = sorted(self.shape_consts(shape))
        for n in range(160):
            p = []
            for l, h in rg:
                m = n % 8
                if m == 0:
                    v = l + (n >> 3)
                elif m == 1:
                    v = h - (n >> 3)
                elif m == 2:
                    v = (n >> 3) - 10
                elif m in (3, 4, 5) and mods:
                    c = R.choice(mods)
                    if c:
                        v = (R.randint(l // c, h // c)) * c + R.choice((-1, 0, 1))
                    else:
                        v = R.randint(l, h)
                else:
                    v = R.randint(l, h)
                p.append(min(max(v, l), h))
            pts.append(tuple(p))
        import itertools
        for corner in itertools.product(*[(l, h) for l, h in rg][:4]):
            pts.append(corner + tuple(l for l, h in rg[4:]))
        return pts

    def shape_consts(self, s, acc=None):
        if acc is None:
            acc = set([Q])
        if isinstance(s, tuple):
            if s and s[0] == 'div':
                acc.add(s[1])
                if s[2][1]:
                    k = abs(s[2][1][0][1])
                    if k:
                        acc.add(max(1, s[1] // k))
            if s and s[0] == 'lin' and s[3]:
                acc.add(abs(s[3]))
            for e in s:
                self.shape_consts(e, acc)
        return acc

    @staticmethod
    def ev(s, v):
        op = s[0]
        if op == 'lin':
            r = s[3]
            for n, k in s[1]:
                r += k * v[n]
            for k, e in s[2]:
                r += k * Ctx.ev(e, v)
            return r
        if op == 'div':
            return Ctx.ev(s[2], v) // s[1]
        if op == 'lt0':
            return 1 if Ctx.ev(s[1], v) < 0 else 0
        if op == 'eq0':
            return 1 if Ctx.ev(s[1], v) == 0 else 0
        if op == 'sel':
            return Ctx.ev(s[2], v) if Ctx.ev(s[1], v) else 0
        if op == 'bw':
            x, y = Ctx.ev(s[3], v), Ctx.ev(s[4], v)
            return x & y
        raise KeyError(op)

    def z3_shape(self, s, vs):
        op = s[0]
        if op == 'lin':
            r = z3.IntVal(s[3])
            for n, k in s[1]:
                r = r + k * vs[n]
            for k, e in s[2]:
                r = r + k * self.z3_shape(e, vs)
            return r
        if op == 'div':
            return self.z3_shape(s[2], vs) / s[1]
        if op == 'lt0':
            return z3.If(self.z3_shape(s[1], vs) < 0, z3.IntVal(1), z3.IntVal(0))
        if op == 'eq0':
            return z3.If(self.z3_shape(s[1], vs) == 0, z3.IntVal(1), z3.IntVal(0))
        if op == 'sel':
            return z3.If(self.z3_shape(s[1], vs) != 0, self.z3_shape(s[2], vs), z3.IntVal(0))
        if op == 'bw':
            w = s[2]
            x = z3.Int2BV(self.z3_shape(s[3], vs), w)
            y = z3.Int2BV(self.z3_shape(s[4], vs), w)
            return z3.BV2Int(x & y)
        raise KeyError(op)

    def query(self, cons, desc):
        """returns (status, model-list)"""
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*cons)
        t0 = time.time()
        r = s.check()
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        if r == z3.unsat:
            STATS.unsat += 1
            return 'unsat', None
        if r == z3.sat:
            STATS.sat += 1
            return 'sat', s.model()
        STATS.unknown += 1
        return 'unknown', None

    def prove(self, shape, rg, hint=None, want_perfect=False):
        nv = len(rg)
        pts = self.samples(shape, rg)
        vals = [self.ev(shape, p) for p in pts]
        lo, hi = min(vals), max(vals)
        if want_perfect and hi - lo >= Q:
            return None
        # residue guess: f(v) = sum alpha_i v_i + beta  (mod Q)
        alphas, beta = self.guess_residue(shape, rg, pts, vals)
        if alphas is None:
            self.robust_residue(shape, pts, vals)
            return None
        vs = [z3.Int('v%d' % i) for i in range(nv)]
        f = self.z3_shape(shape, vs)
        cons = [z3.And(v >= l, v <= h) for v, (l, h) in zip(vs, rg)]
        lin = f - beta
        for a, v in zip(alphas, vs):
            lin = lin - a * v
        kind = 'bv' if 'bw' in str(shape) else 'lia'
        rkey = ('res', shape, alphas, beta)
        if rkey not in self.lemma_memo:
            # once per shape, for every integer base value
            st, m = self.query([lin % Q != 0], kind)
            self.lemma_memo[rkey] = st == 'unsat'
        if not self.lemma_memo[rkey]:
            st, m = self.query(cons + [lin % Q != 0], kind)
            if st == 'sat':
                p = tuple(m.eval(v, model_completion=True).as_long() for v in vs)
                self.fail_pts.setdefault(shape, []).append(p)
            if st != 'unsat':
                return None
        # range: start from candidates, refine by counterexamples
        cands = []
        if lo >= 0 and hi < Q:
            cands.append((0, Q - 1))
        if hint is not None and hint[0] <= lo and hi <= hint[1] and (hint[1] - hint[0]) <= (hi - lo) * 5 // 4 + 64:
            cands.append(hint)
        cands.append((lo, hi))
        cur_lo, cur_hi = lo, hi
        slack = 1
        for it in range(14):
            if not cands:
                w = cur_hi - cur_lo
                cands.append((cur_lo - slack, cur_hi + slack) if it < 3 else
                             (cur_lo - slack * max(1, w >> 6), cur_hi + slack * max(1, w >> 6)))
                slack *= 2
            l, h = cands.pop(0)
            l, h = min(l, cur_lo), max(h, cur_hi)
            st, m = self.query(cons + [z3.Or(f < l, f > h)], kind)
            if st == 'unsat':
                txt = 'forall v in %s: %s in [%d,%d], = %s*v%+d mod Q' % (rg, shape, l, h, list(alphas), beta)
                STATS.lemmas[txt] = STATS.lemmas.get(txt, 0) + 1
                return (l, h, alphas, beta)
            if st == 'sat':
                p = tuple(m.eval(v, model_completion=True).as_long() for v in vs)
                val = self.ev(shape, p)
                cur_lo, cur_hi = min(cur_lo, val), max(cur_hi, val)
                if want_perfect and cur_hi - cur_lo >= Q:
                    return None
                if it == 0 and not cands:
                    cands.append((cur_lo, cur_hi))
            else:
                return None
        return None

    def guess_residue(self, shape, rg, pts, vals):
        nv = len(rg)
        lin = dict(shape[1])
        if all(k % Q == 0 for k, _ in shape[2]):
            return tuple(lin.get(i, 0) % Q for i in range(nv)), shape[3] % Q
        # sample-based (handles selections between congruent arms and the like)
        rowsA = [list(p) + [1] for p in pts]
        sol = solve_mod(rowsA, vals, nv + 1)
        if sol is None:
            return None, None
        return tuple(sol[:nv]), sol[nv]

    def robust_residue(self, shape, pts, vals):
        """no linear law fits all samples: find the law of the majority and remember the
        deviating points (counterexample candidates)"""
        nv = len(pts[0])
        best = None
        R = self.rng
        for _ in range(30):
            idx = R.sample(range(len(pts)), min(len(pts), nv + 3))
            sol = solve_mod([list(pts[i]) + [1] for i in idx], [vals[i] for i in idx], nv + 1)
            if sol is None:
                continue
            bad = [p for p, v in zip(pts, vals) if (sum(a * x for a, x in zip(sol, p)) + sol[nv] - v) % Q]
            if best is None or len(bad) < len(best):
                best = bad
        if best and 2 * len(best) < len(pts):
            best = list(dict.fromkeys(best))
            R.shuffle(best)
            self.fail_pts.setdefault(shape, []).extend(best[:24])

    def equal_shapes(self, s1, s2, rg):
        if s1 == s2:
            return True
        key = ('eq', s1, s2, rg)
        r = self.lemma_memo.get(key)
        if r is not None:
            return r
        for p in self.samples(s1, rg):
            if self.ev(s1, p) != self.ev(s2, p):
                self.lemma_memo[key] = False
                return False
        vs = [z3.Int('v%d' % i) for i in range(len(rg))]
        st, m = self.query([z3.And(v >= l, v <= h) for v, (l, h) in zip(vs, rg)] +
                           [self.z3_shape(s1, vs) != self.z3_shape(s2, vs)],
                           'bv' if 'bw' in str((s1, s2)) else 'lia')
        r = self.lemma_memo[key] = (st == 'unsat')
        if r:
            txt = 'forall v in %s: %s = %s' % (rg, s1, s2)
            STATS.lemmas[txt] = STATS.lemmas.get(txt, 0) + 1
        return r

    # ------------------------------------------------------------ direct SMT view of forms
    def z3_atom(self, i, zs, cons, expand):
        v = zs.get(i)
        if v is not None:
            return v
        a = self.atoms[i]
        if a.kind in RAWKINDS or (a.kind == 'def' and expand > 0):
            if a.kind == 'div':
                v = self.z3_form(self.form_by_id(a.a[0]), zs, cons, expand) / a.a[1]
            elif a.kind == 'lt0':
                v = z3.If(self.z3_form(self.form_by_id(a.a[0]), zs, cons, expand) < 0, z3.IntVal(1), z3.IntVal(0))
            elif a.kind == 'eq0':
                v = z3.If(self.z3_form(self.form_by_id(a.a[0]), zs, cons, expand) == 0, z3.IntVal(1), z3.IntVal(0))
            elif a.kind == 'sel':
                v = z3.If(self.z3_atom(a.a[0], zs, cons, expand) != 0,
                          self.z3_form(self.form_by_id(a.a[1]), zs, cons, expand), z3.IntVal(0))
            elif a.kind == 'bw':
                w = a.a[1]
                x = z3.Int2BV(self.z3_form(self.form_by_id(a.a[2]), zs, cons, expand), w)
                y = z3.Int2BV(self.z3_form(self.form_by_id(a.a[3]), zs, cons, expand), w)
                v = z3.BV2Int(x & y)
            else:
                bs = [self.z3_form(self.form_by_id(b), zs, cons, expand - 1) for b in a.a[1]]
                v = self.z3_shape(a.a[0], bs)
        elif a.kind == 'prod' and expand > 0:
            v = self.z3_form(self.form_by_id(a.a[0]), zs, cons, expand - 1) * \
                self.z3_form(self.form_by_id(a.a[1]), zs, cons, expand - 1)
        else:
            v = z3.Int('x%d' % i)
            cons.append(v >= a.lo)
            cons.append(v <= a.hi)
        zs[i] = v
        return v

    def z3_form(self, f, zs, cons, expand=0):
        if type(f) is int:
            return z3.IntVal(f)
        r = z3.IntVal(f.c)
        for i, k in f.t.items():
            r = r + k * self.z3_atom(i, zs, cons, expand)
        return r

    def implied(self, pcs, v):
        """is the 0/1 form v constant under the path conditions? returns 0, 1 or None"""
        zs, cons = {}, []
        pz = [self.z3_form(c, zs, cons) == b for c, b in pcs]
        vz = self.z3_form(v, zs, cons)
        kind = 'bv' if any(self.atoms[i].kind == 'bw' for i in zs) else 'lia'
        st, _ = self.query(cons + pz + [vz != 0], kind)
        if st == 'unsat':
            return 0
        st, _ = self.query(cons + pz + [vz != 1], kind)
        if st == 'unsat':
            return 1
        return None

    def prove_cond(self, mk, forms, expand=0, pcs=()):
        """mk(list of z3 ints) -> z3 Bool to be valid for all atom values.
        returns (status, {atom id: value})"""
        zs, cons = {}, []
        fz = [self.z3_form(f, zs, cons, expand) for f in forms]
        pz = [self.z3_form(c, zs, cons, expand) == b for c, b in pcs]
        for f, lo, hi in getattr(self, 'side', ()):       # preconditions on products of inputs
            if all(i in zs for i in f.t):
                v = self.z3_form(f, zs, cons, expand)
                pz += [v >= lo, v <= hi]
        kind = 'bv' if any(self.atoms[i].kind == 'bw' for i in zs) else 'lia'
        if expand and any(self.atoms[i].kind == 'prod' for i in zs):
            kind = 'bv'
        st, m = self.query(cons + pz + [z3.Not(mk(fz))], kind)
        if st == 'sat':
            return st, {i: m.eval(v, model_completion=True).as_long() for i, v in zs.items()}
        return st, None

    # ------------------------------------------------------------ residues
    def res(self, f):
        """residue of a form in the ring (iterative evaluation of the lazy thunks)"""
        R = self.ring
        if type(f) is int:
            return R.const(f)
        if f._res is not None:
            return f._res
        stack = [('f', f)]
        while stack:
            kind, x = stack[-1]
            if kind == 'f':
                if x._res is not None:
                    stack.pop()
                    continue
                th = x._th
                if th is not None and len(x.t) > 1:
                    need = [('f', g) for k, g in th if type(g) is not int and g._res is None]
                    if need:
                        stack.extend(need)
                        continue
                    acc = None
                    for k, g in th:
                        r = R.const(g) if type(g) is int else g._res
                        r = R.scale(r, k)
                        acc = r if acc is None else R.add(acc, r)
                    x._res = acc
                else:
                    need = [('a', self.atoms[i]) for i in x.t if self.atoms[i].res is None]
                    if need:
                        stack.extend(need)
                        continue
                    acc = R.const(x.c)
                    for i, k in x.t.items():
                        acc = R.add(acc, R.scale(self.atoms[i].res, k))
                    x._res = acc
                stack.pop()
            else:
                if x.res is not None:
                    stack.pop()
                    continue
                if x.kind == 'prod':
                    need = [('f', g) for g in x.resthunk if g._res is None]
                    if need:
                        stack.extend(need)
                        continue
                    x.res = R.mul(x.resthunk[0]._res, x.resthunk[1]._res)
                elif x.kind == 'def':
                    if x.resthunk is None:
                        raise Unsupported('no residue law for an expression')
                    al, be, bs = x.resthunk
                    need = [('f', g) for g in bs if type(g) is not int and g._res is None]
                    if need:
                        stack.extend(need)
                        continue
                    acc = R.const(be)
                    for a, g in zip(al, bs):
                        acc = R.add(acc, R.scale(g._res, a))
                    x.res = acc
                else:
                    raise Unsupported('no residue for %s atom' % x.kind)
                stack.pop()
        return f._res

    # ------------------------------------------------------------ concrete evaluation
    def evaluate(self, forms, env):
        """exact values of forms under env: input name -> int (iterative)"""
        val = {}
        atoms = self.atoms

        def deps(a):
            if a.kind == 'in':
                return []
            if a.kind == 'prod':
                return [self.form_by_id(a.a[0]), self.form_by_id(a.a[1])]
            if a.kind == 'def':
                return [self.form_by_id(i) for i in a.a[1]]
            if a.kind == 'sel':
                return [self.form_by_id(a.a[1])]
            return self.raw_args(a)

        def fval(g):
            if type(g) is int:
                return g
            r = g.c
            for i, k in g.t.items():
                r += k * val[i]
            return r

        def ready(g):
            return [i for i in g.t if i not in val]

        out = []
        for f in forms:
            if type(f) is int:
                out.append(f)
                continue
            stack = list(f.t)
            while stack:
                i = stack[-1]
                if i in val:
                    stack.pop()
                    continue
                a = atoms[i]
                if a.kind == 'in':
                    val[i] = env[a.name]
                    stack.pop()
                    continue
                ds = deps(a)
                need = [j for g in ds for j in ready(g)]
                if a.kind == 'sel' and a.a[0] not in val:
                    need.append(a.a[0])
                if need:
                    stack.extend(need)
                    continue
                if a.kind == 'prod':
                    v = fval(ds[0]) * fval(ds[1])
                elif a.kind == 'def':
                    v = self.ev(a.a[0], [fval(g) for g in ds])
                elif a.kind == 'div':
                    v = fval(ds[0]) // a.a[1]
                elif a.kind == 'lt0':
                    v = 1 if fval(ds[0]) < 0 else 0
                elif a.kind == 'eq0':
                    v = 1 if fval(ds[0]) == 0 else 0
                elif a.kind == 'sel':
                    v = fval(ds[0]) if val[a.a[0]] else 0
                elif a.kind == 'bw':
                    v = fval(ds[0]) & fval(ds[1])
                val[i] = v
                stack.pop()
            out.append(fval(f))
        return out


def solve_mod(A, b, n, p=Q):
    """solve A x = b (mod p) for n unknowns from many rows; None if inconsistent"""
    rows = [[v % p for v in r] + [y % p] for r, y in zip(A, b)]
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        inv = pow(rows[r][c], -1, p)
        rows[r] = [v * inv % p for v in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                m = rows[i][c]
                rows[i] = [(v - m * u) % p for v, u in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    for i in range(r, len(rows)):
        if rows[i][n]:
            return None
    x = [0] * n
    for i, c in enumerate(piv):
        x[c] = rows[i][n]
    return x
