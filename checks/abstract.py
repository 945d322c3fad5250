"""C17: the abstract (interval) routines over-approximate the concrete shift-reduction routines.

Each interval object carries a ghost value: an arbitrary member.  The abstract routine is executed symbolically with unknown
interval ends; every interval operation is replaced by its specification on the ghosts (C16 proves, and this check re-proves,
that the operation's result contains it).  The ghost that ends up in each array element must be the value that the concrete
routine computes for that element, as terms over the same inputs, for all inputs, tables and intervals."""
from common import *
from zpath import ZCtx, ZProgram, Leave, UB, ex
import zpath, z3
import intervals
from intervals import OPS, IV, I64

IO = ('fprintf', 'printf', 'fflush', 'puts', 'fputs', 'fputc', 'putchar', 'fwrite', 'perror')
TRN = ['ntt_red_ct_rev2std', 'mulntt_red_ct_rev2std', 'ntt_red_ct_std2rev', 'mulntt_red_ct_std2rev',
       'ntt_red_gs_rev2std', 'nttmul_red_gs_rev2std', 'ntt_red_gs_std2rev', 'nttmul_red_gs_std2rev']
# abstract routine: (concrete routine, kind)
ROUT = {'abstract_normalize': ('normalize', 'e', I64, (-2 ** 31, 2 ** 31 - 1)),
        'abstract_normalize_inv3': ('normalize_inv3', 'e', I64, (-2 ** 31, 2 ** 31 - 1)),
        'abstract_shift_array': ('shift_array', 'e', I64, (0, 12288)),
        'abstract_reduce_array': ('reduce_array', 'e', I64, (-2 ** 31, 2 ** 31 - 1)),
        'abstract_reduce_array_twice': ('reduce_array_twice', 'e', I64, (-2 ** 31, 2 ** 31 - 1)),
        'abstract_correct': ('correct', 'e', I64, (-Q, 2 * Q - 1)),
        'abstract_mul_reduce_array16': ('mul_reduce_array16', 't', I64, (-2 ** 28 + 1, 2 ** 28 - 1)),
        'abstract_mul_reduce_array': ('mul_reduce_array', 'm', I64, (-2 ** 21, 2 ** 21)),
        'abstract_scalar_mul_reduce_array': ('scalar_mul_reduce_array', 's', I64, (-2 ** 21, 2 ** 21))}
for _t in TRN:
    ROUT['abstract_' + _t] = (_t, 'n', I64, (-21499, 21499))
    ROUT['abstract2_' + _t] = (_t, 'N', I64, (-21499, 21499))
TABR = (-6144, 6144)
PR = {'t': (-32768, 32767), 's': (-2 ** 21, 2 ** 21), 'm': (-2 ** 21, 2 ** 21), 'n': TABR, 'N': TABR}


# ------------------------------------------------------------------ ghosts
class World:
    """interval objects with ghost members"""

    def __init__(self, C, P):
        self.C, self.P, self.ghost, self.n, self.dead = C, P, {}, 0, []
        self.gen = [id]
        E = P.ext
        for fn in ('red', 'red_twice', 'neg', 'normal', 'normal_inv3', 'shift', 'correct'):
            E[fn] = lambda P_, a, fn=fn: self.mk(OPS[fn][3](C, self.g(a[0])))
        for fn in ('add', 'sub'):
            E[fn] = lambda P_, a, fn=fn: self.mk(OPS[fn][3](C, self.g(a[0]), self.g(a[1])))
        E['red_mul'] = lambda P_, a: self.mk(intervals.redz(C, C.mul_(self.g(a[0]), self.g(a[1]))))
        E['red_scale'] = lambda P_, a: self.mk(intervals.redz(C, C.mul_(C.sval(a[0], 64), self.g(a[1]))))
        E['delete_interval'] = self.delete

    def mk(self, g, known=None):
        self.n += 1
        C, P = self.C, self.P
        if self.P_is_z:
            l, h = C.input('!l%d' % self.n, *I64), C.input('!h%d' % self.n, *I64)
            C.s.add(l.e <= ex(g), ex(g) <= h.e)
        else:
            l, h = C.input('!l%d' % self.n, *I64), C.input('!h%d' % self.n, *I64)
        o = P.array('interval%d' % self.n, [l, h], 8, const=True)
        self.ghost[id(o)] = (o, g)
        return Ptr(o, 0)

    @property
    def P_is_z(self):
        return isinstance(self.C, ZCtx)

    def g(self, p):
        if type(p) is not Ptr or id(p.o) not in self.ghost or p.off != 0:
            raise Unsupported('interval operation on an object of unknown origin')
        if p.o.size < 0:
            raise MemError('use of a deleted interval')
        return self.ghost[id(p.o)][1]

    def delete(self, P_, a):
        self.g(a[0])
        a[0].o.size = -1
        return None


class AProgram(Program):
    def __init__(self, ctx):
        Program.__init__(self, ctx)
        for n in IO:
            self.ext[n] = lambda P, a: 0
        self.ext['abort'] = self.ext['exit'] = self.leave

    def leave(self, P, a):
        raise Unsupported('abort on a path that depends on interval contents')

    ext_global = ZProgram.ext_global


def abs_program(chk, C, z):
    P = (ZProgram if z else AProgram)(C)
    P.skip_pure = IO
    for f in ('ntt_red_interval.c', 'intervals.c', 'red_bounds.c'):
        P.add_module(chk.S.ir(f), f)
    return P


class MProgram(ZProgram):
    """both sides of a symbolic branch, merged"""
    def decide(self, v):
        return None


def con_program(chk, C, z):
    P = (z if z else Program)(C)
    P.add_module(chk.S.ir('ntt_red.c'), 'ntt_red.c')
    return P


def ghosts(C, fn, n, W, P):
    """runs the abstract routine on unknown intervals; returns the ghosts of the result, and the inputs"""
    con, kind, _, (lo, hi) = ROUT[fn]
    if n >= 1024 and 'nttmul_red_gs' in fn:      # three times larger in every round: keep 32-bit sums in range
        lo, hi = -12288, 12288
    a = [C.input('a%d' % i, lo, hi) for i in range(n)]
    plo, phi = PR.get(kind, (0, 0))
    p = [C.input('p%d' % i, plo, phi) for i in range(1 if kind == 's' else n)] if kind != 'e' else []
    A = P.array('a', [W.mk(x) for x in a], 8)
    if kind == 'e':
        P.call(fn, [Ptr(A, 0), n])
    elif kind in 'tn':
        T = P.array('p', p, 2, const=True)
        P.call(fn, [Ptr(A, 0), n, Ptr(T, 0)])
    elif kind == 's':
        P.call(fn, [Ptr(A, 0), n, p[0]])
    elif kind == 'N':
        T = P.array('p', [W.mk(x) for x in p], 8, const=True)
        P.call(fn, [Ptr(A, 0), n, Ptr(T, 0)])
    else:
        B = P.array('b', [W.mk(x) for x in p], 8, const=True)
        R = P.array('c', [0] * n, 8)
        A.const = True
        P.call(fn, [Ptr(R, 0), n, Ptr(A, 0), Ptr(B, 0)])
        A = R
    return [W.g(x) for x in P.read_array(A, n, 8)], a, p


def concrete(C, fn, n, a, p, P):
    con, kind, _, _ = ROUT[fn]
    A = P.array('a', a, 4)
    if kind == 'e':
        P.call(con, [Ptr(A, 0), n])
    elif kind in 'tnN':
        P.call(con, [Ptr(A, 0), n, Ptr(P.array('p', p, 2, const=True), 0)])
    elif kind == 's':
        P.call(con, [Ptr(A, 0), n, p[0]])
    else:
        B = P.array('b', p, 4, const=True)
        R = Obj('c', 4 * n)
        P.call(con, [Ptr(R, 0), n, Ptr(A, 0), Ptr(B, 0)])
        A = R
    return [C.sval(force(x), 32) for x in P.read_array(A, n)]


# ------------------------------------------------------------------ native
def so_abs(chk):
    return chk.native(['ntt_red_interval.c', 'intervals.c', 'red_bounds.c'], 'abs', ('-O3', '-Wl,-Bsymbolic'))


def so_con(chk):
    return chk.native(['ntt_red.c'], 'con', ('-O3', '-Wl,-Bsymbolic'))


def run_abs(so, fn, ivs, pv, ptab):
    """result intervals of the compiled abstract routine; pv: table (ints) or second operand intervals"""
    sys.stdout.flush()
    nul = os.open('/dev/null', os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    L = intervals.lib(so)
    kind = ROUT[fn][1]
    n = len(ivs)
    PI = ctypes.POINTER(IV)
    libc = ctypes.CDLL(None)
    L.interval.argtypes = [ctypes.c_int64, ctypes.c_int64]
    A = (PI * n)(*[L.interval(*v) for v in ivs])
    f = getattr(L, fn)
    f.restype = None
    N = ctypes.c_uint32(n)
    R = A
    if kind == 'e':
        f(A, N)
    elif kind in 'tn':
        f(A, N, (ctypes.c_int16 * n)(*pv))
    elif kind == 's':
        f(A, N, ctypes.c_int32(pv[0]))
    else:
        B = (PI * n)(*[L.interval(*v) for v in ptab])
        if kind == 'N':
            f(A, N, B)
        else:
            R = (PI * n)()
            f(R, N, A, B)
    return [(R[i].contents.min, R[i].contents.max) for i in range(n)]


def run_con(so, fn, a, pv):
    con, kind = ROUT[fn][:2]
    L = ctypes.CDLL(so)
    f = getattr(L, con)
    f.restype = None
    n = len(a)
    A = (ctypes.c_int32 * n)(*a)
    N = ctypes.c_uint32(n)
    if kind == 'e':
        f(A, N)
    elif kind in 'tnN':
        f(A, N, (ctypes.c_int16 * n)(*pv))
    elif kind == 's':
        f(A, N, ctypes.c_int32(pv[0]))
    else:
        R = (ctypes.c_int32 * n)()
        f(R, N, A, (ctypes.c_int32 * n)(*pv))
        A = R
    return list(A)


def judge(sos, fn, hist):
    """hist: [(ivs, members, table, table intervals)]; what is wrong with the last call"""
    def go():
        for ivs, a, pv, pt in hist:
            r = run_abs(sos[0], fn, ivs, pv, pt)
        return r
    st, r = in_child(go, timeout=60)
    ivs, a, pv, pt = hist[-1]
    if st != 'ok':
        if st == 'error':
            return None
        return '%s n=%d does not return (%s %s)' % (fn, len(ivs), st, r)
    for x in a if a and type(a[0]) is list else [a]:
        st, c = in_child(run_con, sos[1], fn, x, pv, timeout=30)
        if st != 'ok':
            return None
        for i, (v, (l, h)) in enumerate(zip(c, r)):
            if not l <= v <= h:
                return '%s n=%d: element %d is in [%d,%d], but %s computes %d from members of the input intervals' % (fn, len(ivs), i, l, h, ROUT[fn][0], v)
    return None


def shapes(fn, n, rng, lits):
    """interval arrays (with members) to try on the compiled code"""
    con, kind, _, (lo, hi) = ROUT[fn]
    plo, phi = PR.get(kind, (0, 0))
    m = 1 if kind == 's' else n
    ends = sorted(x for x in set(lits) | {lo, hi, 0, 1, -1} if lo <= x <= hi)

    def arr(k, l, h, mode):
        out = []
        for i in range(k):
            if mode == 'point':
                x = rng.randint(l, h)
                out.append((x, x))
            elif mode == 'full':
                out.append((l, h))
            elif mode == 'lit':
                x, y = sorted((rng.choice(ends), rng.choice(ends)))
                x, y = max(l, x), min(h, y)
                out.append((x, y) if x <= y else (l, h))
            else:
                x, y = sorted((rng.randint(l, h), rng.randint(l, h)))
                out.append((x, y))
        return out
    for rep in range(6):
        for mode in ('point', 'rand', 'full', 'lit', 'mixed'):
            if mode == 'mixed':
                ivs = [rng.choice((arr(1, lo, hi, 'point'), arr(1, lo, hi, 'rand'), arr(1, lo, hi, 'lit')))[0] for _ in range(n)]
                pt = [rng.choice((arr(1, plo, phi, 'point'), arr(1, plo, phi, 'rand')))[0] for _ in range(m)]
            else:
                ivs, pt = arr(n, lo, hi, mode), arr(m, plo, phi, 'point' if kind in 'nN' and rep % 2 == 0 else mode)
            pv = [rng.randint(*v) for v in pt]
            if kind in 'nN':       # short second operands: the loops of red_mul are proportional to their length
                pt = [(max(plo, v - rng.randint(0, 3)), min(phi, v + rng.randint(0, 3))) for v in pv]
            mem = [[rng.choice(v) for v in ivs], [rng.randint(*v) for v in ivs], [v[0] for v in ivs], [v[1] for v in ivs]]
            if kind == 'm' :
                ivs = [(v[0], min(v[1], v[0] + 4)) for v in ivs]
                pt = [(v[0], min(v[1], v[0] + 4)) for v in pt]
                mem = [[rng.randint(*v) for v in ivs]]
                pv = [rng.randint(*v) for v in pt]
            yield ivs, mem, pv, pt


def hunt(chk, fn, n, why, secs=40, extra=()):
    import re
    sos = (so_abs(chk), so_con(chk))
    lits = {int(x) for x in re.findall(r'[ ,(](-?\d{1,10})\b', chk.S.ir('ntt_red_interval.c'))}
    lits |= {x + d for x in list(lits) for d in (-1, 1)}
    rng = random.Random(SEED * 7 + n)
    t0 = time.time()
    prev = None
    for s in list(extra) + list(shapes(fn, n, rng, lits)):
        for h in ([s], [prev, s]) if prev else ([s],):
            w = judge(sos, fn, h)
            if w:
                return violated('%s (%s)' % (w, why), dict(kind='abstract', module='abstract', fn=fn, hist=h))
        prev = s
        if time.time() - t0 > secs:
            break
    return None


def replay(d):
    if d.get('kind') == 'interval':
        return intervals.replay(d)
    chk = Check(d['property'], 'replay', tables=False)
    tup = lambda v: [tuple(x) for x in v] if v else v
    return judge((so_abs(chk), so_con(chk)), d['fn'], [(tup(h[0]), h[1], h[2], tup(h[3])) for h in d['hist']])


# ------------------------------------------------------------------ goals
def form_goal(chk, fn, n):
    """transforms: ghost and concrete outputs are the same term"""
    C = Ctx(VecRing(1), seed=SEED, round_bits=12 if n >= 1024 and 'nttmul' in fn else 4)
    why = None
    try:
        PA, PC = abs_program(chk, C, False), con_program(chk, C, False)
        W = World(C, PA)
        PA.new_call()
        PC.new_call()
        g, a, p = ghosts(C, fn, n, W, PA)
        out = concrete(C, fn, n, a, p, PC)
        for i, (x, y) in enumerate(zip(g, out)):
            if not same(C, x, y):
                why = 'element %d of the abstract result stands for a different value' % i
                break
        if not why and (PA.stale() or PC.stale()):
            why = 'static data read: %s' % (PA.stale() + PC.stale())
        if not why:
            fr = dict(PA.funcs_run)
            fr.update(PC.funcs_run)
            return proved(funcs=fr, detail='%d interval objects, %d atoms' % (W.n, len(C.atoms)))
    except (MemError, Unsupported, RingError) as e:
        why = '%s: %s' % (type(e).__name__, e)
    r = hunt(chk, fn, n, why)
    if r:
        return r
    return ranges(chk, fn, n, why)


def same(C, x, y):
    x, y = C.resolve(x) if type(x) is Form else x, C.resolve(y) if type(y) is Form else y
    if type(x) is int or type(y) is int:
        return type(x) is type(y) and x == y
    d = C.add_(x, y, -1)
    d = C.resolve(d) if type(d) is Form else d
    return type(d) is int and d == 0


def ranges(chk, fn, n, why):
    """fallback: fixed input intervals; the compiled abstract result must contain the proved range of the concrete result"""
    con, kind, _, (lo, hi) = ROUT[fn]
    if kind not in 'nN' or n > 64:
        return undecided(why)
    sos = (so_abs(chk), so_con(chk))
    rng = random.Random(SEED + n)
    for k in range(4):
        v = [(0, 12288), (-6144, 6144), (-21499, 21499), (-3, 9000)][k]
        pv = [rng.randint(*TABR) for _ in range(n)]
        C = Ctx(VecRing(1), seed=SEED, round_bits=12)
        a = [C.input('a%d' % i, *v) for i in range(n)]
        out = concrete(C, fn, n, a, [x & 0xffff for x in pv], con_program(chk, C, False))
        st, r = in_child(run_abs, sos[0], fn, [v] * n, pv, [(x, x) for x in pv], timeout=60)
        if st != 'ok':
            return undecided(why)
        for x, (l, h) in zip(out, r):
            xl, xh = (x, x) if type(x) is int else (x.lo, x.hi)
            if xl < l or xh > h:
                return undecided(why + '; range fallback inconclusive')
    return proved(detail='four fixed interval arrays only (%s)' % why)


def z_goal(chk, fn, n):
    """element-wise routines and small transforms: every path, arbitrary members and interval ends"""
    C = ZCtx()
    PA, PC = abs_program(chk, C, True), con_program(chk, C, MProgram if n > 3 else ZProgram)
    stats = dict(paths=0)
    bad = []

    def run():
        PA.begin()
        PC.begin()
        PA.new_call()
        W = World(C, PA)
        try:
            g, a, p = ghosts(C, fn, n, W, PA)
            out = concrete(C, fn, n, a, p, PC)
        except Leave:
            return None
        except MemError as e:
            return str(e), C.model()
        except UB as e:
            return str(e), e.model
        for i, (x, y) in enumerate(zip(g, out)):
            m = C.refute(ex(x) == ex(y))
            if m:
                return 'element %d stands for a different value' % i, m
        return None
    try:
        for r in C.paths(run, 3000):
            stats['paths'] += 1
            if r:
                bad.append(r)
                break
        if not bad and PA.stale():
            bad = [('static data read', None)]
        if not bad:
            fr = dict(PA.funcs_run)
            fr.update(PC.funcs_run)
            return proved(funcs=fr, detail='%d paths' % stats['paths'])
    except (Unsupported, MemError) as e:
        bad = [(str(e), None)]
    why, m = bad[0]
    extra = []
    if type(m) is dict:
        kind, (lo, hi) = ROUT[fn][1], ROUT[fn][3]
        a = [m.get('a%d' % i, 0) for i in range(n)]
        p = [m.get('p%d' % i, 0) for i in range(n)]
        ivs = []
        for i in range(n):
            l, h = m.get('!l%d' % (i + 1), a[i]), m.get('!h%d' % (i + 1), a[i])
            ivs.append((min(max(l, lo), a[i]), max(min(h, hi), a[i])))
        extra = [(ivs, [a], p, [(x, x) for x in p]), ([(x, x) for x in a], [a], p, [(x, x) for x in p])]
    return hunt(chk, fn, n, why, extra=extra) or undecided(why)


def main(pid):
    q = TIER == 'quick'
    chk = Check(pid, 'symbolic execution of the abstract and the concrete routine with a ghost member per interval: the ghost in every result element equals the concrete result for all inputs, tables and intervals; containment of each interval operation by z3', tables=False)
    sizes = (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)
    chk.bounds = dict(transforms='n in %s' % (sizes,), inputs='concrete values in [-21499,21499] ([-12288,12288] for the combined Gentleman-Sande transforms of size 1024), table entries in [-6144,6144] (transforms); the full documented range (array operations); lengths 1, 2, 3, 5, 16',
                      intervals='any intervals that contain the values', operations='as for C16')
    chk.assumptions = ['the concrete routine does not overflow 32-bit arithmetic', 'the interval operations contain the concrete operation (re-proved here within the bounds of C16)', 'malloc succeeds']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py']
    for f in ('ntt_red_interval.c', 'intervals.c', 'red_bounds.c', 'ntt_red.c'):
        chk.S.ir(f)
    so_abs(chk), so_con(chk), intervals.native(chk)
    for fn, (con, kind, _, _) in ROUT.items():
        if kind in 'nN':
            for n in sizes:
                chk.goal('%s n=%d' % (fn, n), form_goal, weight=n, fn=fn, n=n)
        else:
            for n in (1, 2, 3, 5, 16):
                chk.goal('%s n=%d' % (fn, n), z_goal, weight=n, fn=fn, n=n)
    intervals.op_goals(chk, q)
    return chk.run()
