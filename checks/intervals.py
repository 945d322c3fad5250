"""C15 (extrema of the reduction) and C16 (interval operations): path-exhaustive symbolic execution of red_bounds.c and intervals.c."""
from common import *
from zpath import *
import z3

I64 = (-2 ** 63, 2 ** 63 - 1)
FILES = ('intervals.c', 'red_bounds.c')


# ------------------------------------------------------------------ specification (Python and z3)
def redp(x):
    return 3 * (x & 4095) - (x >> 12)


def redz(C, x):
    d = C.div_(x, 4096)
    return C.add_(C.mul_(C.add_(x, C.mul_(d, 4096), -1), 3), d, -1)


def modz(C, x):
    return C.add_(x, C.mul_(C.div_(x, Q), Q), -1)


def shiftz(C, x):
    return C.ite_(C.cmp('sle', x, 6144, 64), x, C.add_(x, Q, -1))


def corrz(C, x):
    return C.ite_(C.lt0_(x), C.add_(x, Q), C.ite_(C.cmp('sge', x, Q, 64), C.add_(x, Q, -1), x))


def corrp(x):
    return x + Q if x < 0 else x - Q if x >= Q else x


OPS = {      # name: (operands, lowest, highest, z3 spec, python spec)
    'red': (1, *I64, redz, redp),
    'red_twice': (1, *I64, lambda C, x: redz(C, redz(C, x)), lambda x: redp(redp(x))),
    'neg': (1, *I64, lambda C, x: C.mul_(x, -1), lambda x: -x),
    'add': (2, *I64, lambda C, x, y: C.add_(x, y), lambda x, y: x + y),
    'sub': (2, *I64, lambda C, x, y: C.add_(x, y, -1), lambda x, y: x - y),
    'normal': (1, *I64, modz, lambda x: x % Q),
    'normal_inv3': (1, *I64, lambda C, x: modz(C, C.mul_(x, 8193)), lambda x: x * 8193 % Q),
    'shift': (1, 0, 12288, shiftz, lambda x: x if x <= 6144 else x - Q),
    'correct': (1, -Q, 2 * Q - 1, corrz, corrp),
}


# ------------------------------------------------------------------ native side
class IV(ctypes.Structure):
    _fields_ = [('min', ctypes.c_int64), ('max', ctypes.c_int64)]


def lib(so):
    L = ctypes.CDLL(so)
    for f in list(OPS) + ['point', 'interval', 'red_mul', 'red_scale']:
        getattr(L, f).restype = ctypes.POINTER(IV)
    for f in ('max_red', 'min_red', 'max_red_mul', 'min_red_mul', 'max_red_mul_interval', 'min_red_mul_interval', 'ct_bound', 'gs_bound',
              'ct_bound_fixed', 'gs_bound_fixed', 'ntt_ct_bounds', 'ntt_gs_bounds'):
        getattr(L, f).restype = ctypes.c_int64
    return L


def i64(x):
    return ctypes.c_int64(x)


def nat_iv(so, fn, ivs, scal, pre):
    """result interval of the compiled function, and the operands afterwards"""
    L = lib(so)
    for (ps, pi) in pre:
        getattr(L, fn)(*[i64(s) for s in ps], *[ctypes.byref(IV(*v)) for v in pi])
    a = [IV(*v) for v in ivs]
    r = getattr(L, fn)(*[i64(s) for s in scal], *[ctypes.byref(v) for v in a])
    return (r.contents.min, r.contents.max), [(v.min, v.max) for v in a]


def members(lo, hi, w=None):
    """interesting members of an interval"""
    c = {lo, hi}
    for b in (lo, hi, 0, 4095, 4096, -4096, 6144, 6145, Q, Q - 1, -Q):
        for d in (-2, -1, 0, 1, 2):
            c.add(b + d)
    if w:
        for k in (lo * w >> 12, hi * w >> 12):
            for j in (k, k + 1):
                for d in (-1, 0, 1):
                    c.add((j * 4096) // w + d)
        c |= set(range(lo, min(hi, lo + 3000) + 1)) | set(range(max(lo, hi - 3000), hi + 1))
    return [x for x in c if lo <= x <= hi]


def judge_op(so, fn, ivs, xs, pre=()):
    """text if the compiled operation is wrong on these operands"""
    n, lo, hi, _, spec = OPS[fn]
    for v in ivs:
        if not lo <= v[0] <= v[1] <= hi:
            return None
    st, r = in_child(nat_iv, so, fn, ivs, (), pre, timeout=20)
    ext = [spec(*c) for c in zip(*[v if fn != 'sub' or i == 0 else v[::-1] for i, v in enumerate(ivs)])] if fn in ('neg', 'add', 'sub') else [0]
    over = any(not I64[0] <= e <= I64[1] for e in ext)
    if st != 'ok':
        if over and st == 'signal' and r == 0:
            return None
        return '%s%s does not return (%s %s)' % (fn, tuple(ivs), st, r)
    (l, h), after = r
    if over:
        return '%s%s returns [%d,%d] after a 64-bit overflow' % (fn, tuple(ivs), l, h)
    if after != [tuple(v) for v in ivs]:
        return '%s changes its operands' % fn
    cands = [members(*v) for v in ivs]
    for i, x in enumerate(xs or ()):
        cands[i].insert(0, x)
    import itertools
    for c in itertools.islice(itertools.product(*cands), 200000):
        if all(v[0] <= x <= v[1] for x, v in zip(c, ivs)) and not l <= spec(*c) <= h:
            return '%s%s = [%d,%d] does not contain the value %d at %s' % (fn, tuple(ivs), l, h, spec(*c), c)
    return None


# ------------------------------------------------------------------ engine side
def setup(chk, wrap=False):
    C = ZCtx()
    C.wrap = wrap
    P = ZProgram(C)
    for f in FILES:
        P.add_module(chk.S.ir(f), f)
    return C, P


def iv(C, P, name, lo, hi, maxlen=None):
    a, b = C.input(name + '.min', lo, hi), C.input(name + '.max', lo, hi)
    C.assume(a.e <= b.e)
    if maxlen is not None:
        C.assume(b.e - a.e <= maxlen)
    return P.array(name, [a, b], 8), a, b


def rd(C, P, o, off=0):
    return [C.sval(x, 64) for x in P.read_array(o, 2, 8, off)]


def explore(C, P, body, max_paths=20000):
    """[(kind, text, model)] of the failing paths; body returns None or such a triple"""
    n = 0
    bad = []

    def run():
        P.begin()
        P.new_call()
        try:
            return body()
        except Leave as e:
            return ('leave', e.kind, C.model())
        except UB as e:
            return ('ub', str(e), e.model)
        except MemError as e:
            return ('mem', str(e), C.model())
    for r in C.paths(run, max_paths):
        n += 1
        if r is not None:
            bad.append(r)
            if len(bad) >= 8:
                break
    return n, bad


def op_body(C, P, fn, pre=0):
    n, lo, hi, spec, _ = OPS[fn]

    def body():
        for k in range(pre):
            A = [iv(C, P, 'p%d%s' % (k, 'ab'[i]), lo, hi) for i in range(n)]
            P.call(fn, [Ptr(o[0], 0) for o in A])
        A = [iv(C, P, 'ab'[i], lo, hi) for i in range(n)]
        if fn == 'neg':
            ext = [C.mul_(A[0][1], -1)]
        elif fn == 'add':
            ext = [C.add_(A[0][1], A[1][1]), C.add_(A[0][2], A[1][2])]
        elif fn == 'sub':
            ext = [C.add_(A[0][1], A[1][2], -1), C.add_(A[0][2], A[1][1], -1)]
        else:
            ext = []
        ok = z3.And(*[z3.And(e.e >= I64[0], e.e <= I64[1]) for e in ext]) if ext else z3.BoolVal(True)
        try:
            r = P.call(fn, [Ptr(o[0], 0) for o in A])
        except Leave as e:
            m = C.refute(z3.Not(ok))
            return ('leave', 'terminates (%s) without overflow' % e.kind, m) if m else None
        m = C.refute(ok)
        if m:
            return ('ret', 'returns after overflow', m)
        if type(r) is not Ptr or r.o.size - r.off < 16:
            return ('mem', 'does not return an interval', C.model())
        l, h = rd(C, P, r.o, r.off)
        for (o, a, b) in A:
            x, y = rd(C, P, o)
            m = C.refute(z3.And(ex(x) == a.e, ex(y) == b.e))
            if m:
                return ('ret', 'operand modified', m)
        xs = [C.input('xy'[i], lo, hi) for i in range(n)]
        for x, (o, a, b) in zip(xs, A):
            C.s.add(a.e <= x.e, x.e <= b.e)
        v = spec(C, *xs)
        m = C.refute(z3.And(ex(l) <= ex(v), ex(v) <= ex(h)))
        return ('ret', 'value outside the result', m) if m else None
    return body


def solve(chk, mkbody, confirm, name, replay):
    """runs body under the no-overflow reading, then (if signed overflow is reachable) under wrap-around"""
    C, P = setup(chk)
    n, bad = explore(C, P, mkbody(C, P, 0))
    pre = 0
    if P.stale():
        pre = 1
        n2, bad2 = explore(C, P, mkbody(C, P, 1))
        n += n2
        bad += bad2
    if bad and all(b[0] == 'ub' and b[1].startswith('signed overflow') for b in bad):
        C2, P2 = setup(chk, True)
        n2, bad2 = explore(C2, P2, mkbody(C2, P2, 0))
        n += n2
        if not bad2:
            for b in bad:
                w = b[2] and confirm(b[2])
                if w:
                    return violated(w, replay(b[2]))
            return proved(funcs=dict(P2.funcs_run), detail='%d paths; signed overflow reachable in the operands\' full range (%s): proved for wrap-around arithmetic' % (n, bad[0][1]))
        bad += bad2
    if not bad:
        return proved(funcs=dict(P.funcs_run), detail='%d paths, %d queries%s' % (n, C.queries, ', two calls' if pre else ''))
    for b in bad:
        if b[2] in (None, 'unknown'):
            continue
        w = confirm(b[2])
        if w:
            return violated('%s (%s)' % (w, b[1]), replay(b[2]))
    return undecided('%s: %s %s (not reproduced on the compiled code)' % bad[0])


def op_goal(chk, fn):
    so = native(chk)
    n = OPS[fn][0]

    def parts(m):
        ivs = [(m['%s.min' % c], m['%s.max' % c]) for c in 'ab'[:n]]
        pre = [((), [(m['p0%s.min' % c], m['p0%s.max' % c]) for c in 'ab'[:n]])] if 'p0a.min' in m else []
        return ivs, [m[c] for c in 'xy'[:n]] if 'x' in m else None, pre
    return solve(chk, lambda C, P, pre: op_body(C, P, fn, pre), lambda m: judge_op(so, fn, *parts(m)), fn,
                 lambda m: dict(kind='interval', module='intervals', what_='op', args=[fn] + list(parts(m))))


# ---- point, interval, delete
def judge_make(so, fn, args):
    def go():
        L = lib(so)
        r = getattr(L, fn)(*[i64(x) for x in args])
        v = (r.contents.min, r.contents.max)
        L.delete_interval(r)
        return v
    st, r = in_child(go, timeout=20)
    want = (args[0], args[-1])
    if fn == 'interval' and args[0] > args[1]:
        return None if st == 'signal' else 'interval%s returns %s' % (tuple(args), r)
    if st != 'ok':
        return '%s%s: %s %s' % (fn, tuple(args), st, r)
    return None if r == want else '%s%s = %s' % (fn, tuple(args), r)


def make_goal(chk, fn):
    so = native(chk)

    def mk(C, P, pre):
        def body():
            for k in range(pre):
                P.call('point', [C.input('p', *I64)])
            a = C.input('lo', *I64)
            b = C.input('hi', *I64) if fn == 'interval' else a
            try:
                r = P.call(fn, [a, b][:2 if fn == 'interval' else 1])
            except Leave as e:
                m = C.refute(a.e > b.e) if fn == 'interval' else C.model()
                return ('leave', e.kind, m) if m else None
            l, h = rd(C, P, r.o, r.off)
            m = C.refute(z3.And(a.e <= b.e, ex(l) == a.e, ex(h) == b.e))
            if m:
                return ('ret', 'wrong interval', m)
            P.call('delete_interval', [r])
            return None
        return body
    args = lambda m: [m['lo']] + ([m['hi']] if fn == 'interval' else [])
    return solve(chk, mk, lambda m: judge_make(so, fn, args(m)), fn, lambda m: dict(kind='interval', module='intervals', what_='make', args=[fn, args(m)]))


# ---- multiplication by a constant, extrema
def judge_bound(so, fn, a, b, ws, pre=()):
    """max/min functions: exact extremum, attained at the returned point"""
    mul = ws is not None
    intv = fn.endswith('interval')

    def go():
        L = lib(so)
        m, mw = ctypes.c_int64(), ctypes.c_int64()
        for pa, pb, pws in list(pre) + [(a, b, ws)]:
            args = [i64(pa), i64(pb)] + ([i64(w) for w in pws] if mul else []) + [ctypes.byref(m)] + ([ctypes.byref(mw)] if intv else [])
            r = getattr(L, fn)(*args)
        return r, m.value, mw.value
    st, v = in_child(go, timeout=20)
    what = '%s(%d, %d%s)' % (fn, a, b, ''.join(', %d' % w for w in ws or ()))
    if st != 'ok':
        return '%s does not return (%s %s)' % (what, st, v)
    r, m, mw = v
    w = (mw if intv else ws[0]) if mul else 1
    if not a <= m <= b or (intv and not ws[0] <= w <= ws[1]) or redp(w * m) != r:
        return '%s = %d at x=%d%s: not attained there' % (what, r, m, ', w=%d' % w if mul else '')
    sgn = 1 if fn.startswith('max') else -1
    for w in (range(ws[0], ws[1] + 1) if intv else ws if mul else (1,)):
        for x in members(a, b, w):
            if sgn * redp(w * x) > sgn * r:
                return '%s = %d but the reduction is %d at x=%d, w=%d' % (what, r, redp(w * x), x, w)
    return None


def bound_body(C, P, fn, ws, B, L, pre):
    mul, intv = ws is not None, fn.endswith('interval')
    sgn = 1 if fn.startswith('max') else -1
    U = (1 << 64) - 1

    def call(a, b):
        m, mw = Obj('m', 8), Obj('mw', 8)
        r = P.call(fn, [a, b] + ([w & U for w in ws] if mul else []) + [Ptr(m, 0)] + ([Ptr(mw, 0)] if intv else []))
        return C.sval(r, 64), m, mw

    def body():
        for k in range(pre):
            a, b = C.input('pa', *B), C.input('pb', *B)
            C.assume(a.e <= b.e)
            if L is not None:
                C.assume(b.e - a.e <= (L[1] - L[0] if type(L) is tuple else L))
            call(a, b)
        a, b = C.input('a', *B), C.input('b', *B)
        C.assume(a.e <= b.e)
        if type(L) is tuple:            # fixed ends, symbolic member
            C.assume(z3.And(a.e == L[0], b.e == L[1]))
            U64 = lambda v: v & ((1 << 64) - 1)
            r, m, mw = call(U64(L[0]), U64(L[1]))
        else:
            if L is not None:
                C.assume(b.e - a.e <= L)
            r, m, mw = call(a, b)
        mm = C.sval(P.load(Ptr(m, 0), 8), 64)
        w = 1 if not mul else ws[0]
        if intv:
            w = C.sval(P.load(Ptr(mw, 0), 8), 64)
        at = redz(C, C.mul_(mm, w))
        k = C.refute(z3.And(ex(mm) >= a.e, ex(mm) <= b.e, ex(at) == ex(r), ex(w) >= (ws[0] if intv else ex(w)), ex(w) <= (ws[1] if intv else ex(w))))
        if k:
            return ('ret', 'extremum not attained at the returned point', k)
        x = C.input('x', *B)
        C.s.add(a.e <= x.e, x.e <= b.e)
        for wc in (wrange(ws) if intv else ws if mul else (1,)):
            v = redz(C, C.mul_(x, wc))
            k = C.refute(ex(v) <= ex(r) if sgn > 0 else ex(v) >= ex(r))
            if k:
                return ('ret', 'exceeded for w=%d' % wc, k)
        return None
    return body


def wrange(ws):
    if ws[1] - ws[0] <= 64:
        return range(ws[0], ws[1] + 1)
    rng = random.Random(SEED)
    return sorted({ws[0], ws[1], 0, 1, -1} | {rng.randint(*ws) for _ in range(60)})


def bound_goal(chk, fn, cases):
    so = native(chk)
    det, funcs = [], {}
    for ws, B, L in cases:
        pre = lambda m: [(m['pa'], m['pb'], ws)] if 'pa' in m else []
        r = solve(chk, lambda C, P, p: bound_body(C, P, fn, ws, B, L, p),
                  lambda m: judge_bound(so, fn, m['a'], m['b'], ws, pre(m)), fn,
                  lambda m: dict(kind='interval', module='intervals', what_='bound', args=[fn, m['a'], m['b'], ws, pre(m)]))
        if r['status'] != 'proved':
            if r['status'] == 'undecided':
                r['why'] = '%s w=%s: %s' % (fn, ws, r['why'])
            return r
        det.append('w=%s: %s' % (ws, r['detail']))
        for f, c in r['funcs'].items():
            funcs[f] = funcs.get(f, 0) + c
    return proved(funcs=funcs, detail='; '.join(det)[:400])


# ---- red_scale, red_mul
def judge_mul(so, fn, k, ivs):
    st, r = in_child(nat_iv, so, fn, ivs, (k,) if fn == 'red_scale' else (), (), timeout=20)
    what = '%s(%s)' % (fn, ', '.join(map(str, ([k] if fn == 'red_scale' else []) + list(ivs))))
    if st != 'ok':
        return '%s does not return (%s %s)' % (what, st, r)
    (l, h), after = r
    if after != [tuple(v) for v in ivs]:
        return what + ' changes its operands'
    small = ivs[-1] if fn == 'red_mul' else (k, k)
    big = ivs[0]
    if fn == 'red_mul' and small[1] - small[0] > big[1] - big[0]:
        small, big = big, small
    for w in range(small[0], small[1] + 1):
        for x in members(big[0], big[1], w):
            if not l <= redp(w * x) <= h:
                return '%s = [%d,%d] does not contain red(%d * %d) = %d' % (what, l, h, w, x, redp(w * x))
    return None


def mul_goal(chk, fn, cases):
    so = native(chk)
    det, funcs = [], {}
    for ws, B, L, swap in cases:
        def mk(C, P, pre):
            def call(o):
                if fn == 'red_scale':
                    return P.call(fn, [ws[0] & ((1 << 64) - 1), Ptr(o, 0)])
                W = P.array('w', [w & ((1 << 64) - 1) for w in ws], 8)
                return P.call(fn, [Ptr(W, 0), Ptr(o, 0)] if swap else [Ptr(o, 0), Ptr(W, 0)])

            def body():
                for k in range(pre):
                    o, a, b = iv(C, P, 'p', *B, maxlen=L)
                    if fn == 'red_mul':
                        C.assume(b.e - a.e > ws[1] - ws[0])
                    call(o)
                o, a, b = iv(C, P, 'a', *B, maxlen=L)
                if fn == 'red_mul':
                    C.assume(b.e - a.e > ws[1] - ws[0])
                r = call(o)
                l, h = rd(C, P, r.o, r.off)
                x = C.input('x', *B)
                C.s.add(a.e <= x.e, x.e <= b.e)
                for w in range(ws[0], ws[-1] + 1):
                    v = redz(C, C.mul_(x, w))
                    k = C.refute(z3.And(ex(l) <= ex(v), ex(v) <= ex(h)))
                    if k:
                        return ('ret', 'red(%d * x) outside the result' % w, k)
                y, z = rd(C, P, o)
                k = C.refute(z3.And(ex(y) == a.e, ex(z) == b.e))
                return ('ret', 'operand modified', k) if k else None
            return body

        def ivs(m):
            a = (m['a.min'], m['a.max'])
            return [a] if fn == 'red_scale' else [tuple(ws), a] if swap else [a, tuple(ws)]
        r = solve(chk, mk, lambda m: judge_mul(so, fn, ws[0], ivs(m)), fn, lambda m: dict(kind='interval', module='intervals', what_='mul', args=[fn, ws[0], ivs(m)]))
        if r['status'] != 'proved':
            if r['status'] == 'undecided':
                r['why'] = '%s w=%s: %s' % (fn, ws, r['why'])
            return r
        det.append('w=%s%s: %s' % (ws, ' swapped' if swap else '', r['detail']))
        for f, c in r['funcs'].items():
            funcs[f] = funcs.get(f, 0) + c
    return proved(funcs=funcs, detail='; '.join(det)[:400])


# ---- butterfly bounds
def judge_step(so, fn, b, ws):
    def go():
        return getattr(lib(so), fn)(i64(b), *[i64(w) for w in ws])
    st, r = in_child(go, timeout=20)
    what = '%s(%d, %s)' % (fn, b, ', '.join(map(str, ws)))
    if st != 'ok':
        return '%s does not return (%s %s)' % (what, st, r)
    for w in range(ws[0], ws[-1] + 1):
        for y in members(-b, b, w) if fn.startswith('ct') else members(-2 * b, 2 * b, w):
            v = redp(w * y)
            worst = b + abs(v) if fn.startswith('ct') else abs(v)
            if worst > r:
                return '%s = %d but %d is reached for w=%d, y=%d' % (what, r, worst, w, y)
    if fn.startswith('gs') and r < 2 * b:
        return '%s = %d < 2b' % (what, r)
    return None


def step_goal(chk, fn, cases):
    so = native(chk)
    det, funcs = [], {}
    for ws, blo, bhi in cases:
        def mk(C, P, pre):
            def body():
                for k in range(pre):
                    P.call(fn, [C.input('p', blo, bhi)] + [w & ((1 << 64) - 1) for w in ws])
                b = C.input('b', blo, bhi)
                r = C.sval(P.call(fn, [b] + [w & ((1 << 64) - 1) for w in ws]), 64)
                m = 1 if fn.startswith('ct') else 2
                y = C.input('y', -m * bhi, m * bhi)
                x = C.input('x', -bhi, bhi)
                C.s.add(y.e <= m * b.e, y.e >= -m * b.e, x.e <= b.e, x.e >= -b.e)
                for w in range(ws[0], ws[-1] + 1):
                    v = ex(redz(C, C.mul_(y, w)))
                    R = ex(r)
                    if m == 1:
                        cl = z3.And(x.e + v <= R, x.e + v >= -R, x.e - v <= R, x.e - v >= -R)
                    else:
                        cl = z3.And(v <= R, v >= -R, 2 * b.e <= R)
                    k = C.refute(cl)
                    if k:
                        return ('ret', 'bound exceeded for w=%d' % w, k)
                return None
            return body
        r = solve(chk, mk, lambda m: judge_step(so, fn, m['b'], ws), fn, lambda m: dict(kind='interval', module='intervals', what_='step', args=[fn, m['b'], ws]))
        if r['status'] != 'proved':
            if r['status'] == 'undecided':
                r['why'] = '%s w=%s: %s' % (fn, ws, r['why'])
            return r
        det.append('w=%s: %s' % (ws, r['detail']))
        for f, c in r['funcs'].items():
            funcs[f] = funcs.get(f, 0) + c
    return proved(funcs=funcs, detail='; '.join(det)[:400])


# ---- bounds of a whole transform: every round is at least the one-step bound of each table entry used
def judge_round(so, fn, b0, n, p):
    step = 'ct_bound_fixed' if 'ct' in fn else 'gs_bound_fixed'
    lg = n.bit_length() - 1

    def go():
        L = lib(so)
        raw, whole, bd = guarded([0] * (lg + 1), np.int64)
        pa = np.asarray(p, dtype=np.int16)
        r = getattr(L, fn)(i64(b0), ctypes.c_uint32(n), vp(pa), vp(bd))
        g = whole[:64].view(np.uint8), whole[64 + lg + 1:].view(np.uint8)
        hurt = any((x != 0xA5).any() for x in g) or not (pa == np.asarray(p)).all()
        st = {}
        for k in range(lg):
            t = 1 << k if 'ct' in fn else n >> (k + 1)
            st[k] = [getattr(L, step)(i64(int(bd[k])), i64(p[t + j])) for j in range(t)]
        return r, [int(x) for x in bd], st, hurt
    s, v = in_child(go, timeout=60)
    what = '%s(%d, %d, %s)' % (fn, b0, n, p)
    if s != 'ok':
        return '%s: %s %s' % (what, s, v)
    r, bd, st, hurt = v
    if hurt:
        return what + ' writes outside its result array'
    if bd[0] != b0 or r != bd[lg]:
        return '%s: bounds %s, result %d' % (what, bd, r)
    for k in range(lg):
        for j, d in enumerate(st[k]):
            if d > bd[k + 1]:
                return '%s: round %d has bound %d but entry %d gives %d' % (what, k, bd[k + 1], j, d)
    return None


def round_goal(chk, fn, n):
    so = native(chk)
    step = 'ct_bound_fixed' if 'ct' in fn else 'gs_bound_fixed'
    lg = n.bit_length() - 1
    F = z3.Function('step', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def mk(C, P, pre):
        for m in P.mods:
            m.funcs.pop(step, None)

        def stub(P_, a):
            b, w = C.sval(a[0], 64), C.sval(a[1], 64)
            r = F(ex(b), ex(w))
            C.s.add(r >= 0, r <= 2 ** 40)
            return Z(r, 0, 2 ** 40)
        P.ext[step] = stub

        def body():
            b0 = C.input('b0', 0, 2 ** 20)
            p = [C.input('p%d' % i, -32768, 32767) for i in range(n)]
            pa = P.array('p', p, 2, const=True)
            bd = Obj('bound', 8 * (lg + 1))
            r = C.sval(P.call(fn, [b0, n, Ptr(pa, 0), Ptr(bd, 0)]), 64)
            bs = [ex(C.sval(v, 64)) for v in P.read_array(bd, lg + 1, 8)]
            cl = [bs[0] == b0.e, ex(r) == bs[lg]]
            for k in range(lg):
                t = 1 << k if 'ct' in fn else n >> (k + 1)
                for j in range(t):
                    cl.append(bs[k + 1] >= F(bs[k], p[t + j].e))
            m = C.refute(z3.And(*cl))
            return ('ret', 'round bound too small', m) if m else None
        return body

    def conf(m):
        rng = random.Random(SEED)
        p = [m['p%d' % i] for i in range(n)]
        c = [(m['b0'], [x or 1 for x in p])] + [(rng.randint(0, 12289), [rng.choice((1, -1)) * rng.randint(1, 6144) for _ in range(n)]) for _ in range(60)]
        for hot in range(1, n):
            c.append((6144, [1 if i != hot else 6143 for i in range(n)]))
        for b, q in c:
            w = judge_round(so, fn, b, n, q)
            if w:
                m['b0'], m['conf'] = b, q
                return w
        return None
    return solve(chk, mk, conf, fn, lambda m: dict(kind='interval', module='intervals', what_='round', args=[fn, m['b0'], n, m['conf']]))


# ---- C24: the result is the smallest interval
TIGHT = ('neg', 'add', 'sub', 'red', 'normal', 'shift', 'correct')


def hullp(fn, ivs):
    """smallest interval of the concrete operation over the operand intervals (python)"""
    a, b = ivs[0]
    if fn == 'neg':
        return -b, -a
    if fn == 'add':
        return a + ivs[1][0], b + ivs[1][1]
    if fn == 'sub':
        return a - ivs[1][1], b - ivs[1][0]
    if fn == 'red':
        return redp(max(b & ~4095, a)), redp(min(a | 4095, b))
    if fn == 'normal':
        return (a % Q, b % Q) if a // Q == b // Q else (0, Q - 1)
    if fn == 'shift':
        return (a, b) if b <= 6144 else (a - Q, b - Q) if a > 6144 else (-6144, 6144)
    if fn == 'correct':
        return (corrp(a), corrp(b)) if a // Q == b // Q else (0, Q - 1)


def hullz(C, fn, A):
    a, b = A[0]
    ite = lambda c, x, y: C.ite_(C.bool(c), x, y)
    if fn == 'neg':
        return C.mul_(b, -1), C.mul_(a, -1)
    if fn == 'add':
        return C.add_(a, A[1][0]), C.add_(b, A[1][1])
    if fn == 'sub':
        return C.add_(a, A[1][1], -1), C.add_(b, A[1][0], -1)
    if fn == 'red':
        d = C.mul_(C.div_(b, 4096), 4096)
        e = C.add_(C.mul_(C.div_(a, 4096), 4096), 4095)
        return redz(C, ite(d.e >= a.e, d, a)), redz(C, ite(e.e <= b.e, e, b))
    if fn in ('normal', 'correct'):
        x, y = C.div_(a, Q), C.div_(b, Q)
        c = ex(x) == ex(y)
        m = lambda v, k: C.add_(v, C.mul_(k, Q), -1)
        return ite(c, m(a, x), 0), ite(c, m(b, y), Q - 1)
    if fn == 'shift':
        lo, hi = b.e <= 6144, a.e > 6144
        return ite(lo, a, ite(hi, C.add_(a, Q, -1), -6144)), ite(lo, b, ite(hi, C.add_(b, Q, -1), 6144))


def judge_tight(so, fn, k, ivs):
    """text if the compiled operation returns an interval larger or smaller than necessary"""
    ivs = [tuple(v) for v in ivs]
    if k is None:
        n, lo, hi, _, spec = OPS[fn]
        if any(not lo <= v[0] <= v[1] <= hi for v in ivs):
            return None
        if fn in TIGHT:
            want = hullp(fn, ivs)
        elif ivs[0][0] == ivs[0][1]:
            want = (spec(ivs[0][0]),) * 2
        else:
            return None
        if not (I64[0] <= want[0] and want[1] <= I64[1]):
            return None
        st, r = in_child(nat_iv, so, fn, ivs, (), (), timeout=20)
    else:
        a, b = ivs[0]
        ws = ivs[1] if fn == 'red_mul' else (k, k)
        if (b - a + 1) * (ws[1] - ws[0] + 1) > 4000000:
            return None
        x = np.arange(a, b + 1, dtype=np.int64)
        w = np.arange(ws[0], ws[1] + 1, dtype=np.int64)
        y = np.outer(w, x)
        v = 3 * (y & 4095) - (y >> 12)
        want = int(v.min()), int(v.max())
        st, r = in_child(nat_iv, so, fn, ivs, (k,) if fn == 'red_scale' else (), (), timeout=20)
    what = '%s(%s)' % (fn, ', '.join(map(str, ([k] if fn == 'red_scale' else []) + ivs)))
    if st != 'ok':
        return '%s does not return (%s %s)' % (what, st, r)
    return None if r[0] == want else '%s = [%d,%d], the smallest interval is [%d,%d]' % ((what,) + tuple(r[0]) + want)


def tight_goal(chk, fn):
    so = native(chk)
    n, lo, hi, spec, _ = OPS[fn]

    def mk(C, P, pre):
        def body():
            for k in range(pre):
                P.call(fn, [Ptr(iv(C, P, 'p%d' % i, lo, hi)[0], 0) for i in range(n)])
            A = [iv(C, P, 'ab'[i], lo, hi) for i in range(n)]
            if fn not in TIGHT:
                C.assume(A[0][1].e == A[0][2].e)
                l0 = h0 = spec(C, A[0][1])
            else:
                l0, h0 = hullz(C, fn, [o[1:] for o in A])
            try:
                r = P.call(fn, [Ptr(o[0], 0) for o in A])
            except Leave as e:
                m = C.refute(z3.Or(ex(l0) < I64[0], ex(h0) > I64[1]))
                return ('leave', e.kind, m) if m else None
            l, h = rd(C, P, r.o, r.off)
            m = C.refute(z3.And(ex(l) == ex(l0), ex(h) == ex(h0)))
            return ('ret', 'not the smallest interval', m) if m else None
        return body
    ivs = lambda m: [(m['%s.min' % c], m['%s.max' % c]) for c in 'ab'[:n]]
    return solve(chk, mk, lambda m: judge_tight(so, fn, None, ivs(m)), fn, lambda m: dict(kind='interval', module='intervals', what_='tight', args=[fn, None, ivs(m)]))


def tight_mul_goal(chk, fn, cases):
    """both ends are attained; the points the extremum functions return are the witnesses"""
    so = native(chk)
    det, funcs = [], {}
    U = (1 << 64) - 1
    for ws, B, L in cases:
        def mk(C, P, pre):
            def body():
                o, a, b = iv(C, P, 'a', *B, maxlen=L)
                if fn == 'red_scale':
                    r = P.call(fn, [ws[0] & U, Ptr(o, 0)])
                else:
                    C.assume(b.e - a.e > ws[1] - ws[0])
                    W = P.array('w', [w & U for w in ws], 8)
                    r = P.call(fn, [Ptr(o, 0), Ptr(W, 0)])
                ends = rd(C, P, r.o, r.off)
                for g, end in zip(('min_red_mul', 'max_red_mul'), ends):
                    m, mw = Obj('m', 8), Obj('mw', 8)
                    w = ws[0]
                    if fn == 'red_scale':
                        P.call(g, [a, b, ws[0] & U, Ptr(m, 0)])
                    else:
                        P.call(g + '_interval', [a, b, ws[0] & U, ws[1] & U, Ptr(m, 0), Ptr(mw, 0)])
                        w = C.sval(P.load(Ptr(mw, 0), 8), 64)
                    x = C.sval(P.load(Ptr(m, 0), 8), 64)
                    k = C.refute(z3.And(ex(x) >= a.e, ex(x) <= b.e, ex(w) >= ws[0], ex(w) <= ws[-1], ex(redz(C, C.mul_(x, w))) == ex(end)))
                    if k:
                        return ('ret', 'an end of the result is not attained at the witness', k)
                return None
            return body
        ivs = lambda m: [(m['a.min'], m['a.max'])] + ([tuple(ws)] if fn == 'red_mul' else [])
        kk = ws[0] if fn == 'red_scale' else 0
        r = solve(chk, mk, lambda m: judge_tight(so, fn, kk, ivs(m)), fn, lambda m: dict(kind='interval', module='intervals', what_='tight', args=[fn, kk, ivs(m)]))
        if r['status'] != 'proved':
            if r['status'] == 'undecided':
                r['why'] = '%s w=%s: %s' % (fn, ws, r['why'])
            return r
        det.append('w=%s: %s' % (ws, r['detail']))
        for f, c in r['funcs'].items():
            funcs[f] = funcs.get(f, 0) + c
    return proved(funcs=funcs, detail='; '.join(det)[:400])


def native(chk):
    return chk.native(list(FILES), 'iv', ('-O3', '-Wl,-Bsymbolic'))


def replay(d):
    chk = Check(d['property'], 'replay', tables=False)
    so = native(chk)
    tup = lambda v: [tuple(x) for x in v]
    a = d['args']
    if d['what_'] == 'op':
        return judge_op(so, a[0], tup(a[1]), a[2], [((), tup(p[1])) for p in a[3]])
    if d['what_'] == 'mul':
        return judge_mul(so, a[0], a[1], tup(a[2]))
    return {'make': judge_make, 'bound': judge_bound, 'step': judge_step, 'round': judge_round, 'tight': judge_tight}[d['what_']](so, *a)


BIG = (-2 ** 40, 2 ** 40)


def wset(quick):
    """(w, interval of x, longest interval): the loop makes about len*|w|/4096 steps"""
    out = []
    ws = [0, 1, -1, 2, -2, 3, -3, 4, 5, -7, 8, 64, 96, -100, 512, 1000, 1024, -1024, 1536, 2047, 2048, -2048, 2049, 3072, 4095, 4096, -4096, 4097, 6143, 6144, -6143, -6144, 6145,
          8191, 8192, -8192, 12288, -12288, 12289, 16384, 32767, -32768]
    for w in ws:
        a = abs(w)
        k = 2
        if a and 4096 % a == 0 or a % 4096 == 0 or a in (3072, 6144, 1536, 12288):
            out.append(((w,), BIG, None if a and (a & (a - 1)) == 0 or a == 0 else 64))
        else:
            out.append(((w,), (-2 ** 16, 2 ** 16), max(2, k * 4096 // a)))
    rng = random.Random(SEED)
    for _ in range(40 if quick else 400):
        w = rng.choice((1, -1)) * rng.randint(2048, 12288)
        out.append(((w,), (-2 ** 16, 2 ** 16), 2))
    return out


def fixed(quick):
    """long intervals with fixed ends"""
    rng = random.Random(SEED)
    ends = [(-6144, 6144), (-12288, 12288), (0, 12288), (-21499, 21499), (-43000, 43000), (5000, 70000), (-70000, -5000), (-2 ** 20, 2 ** 20), (2 ** 31 - 50000, 2 ** 31)]
    ws = [5, -7, 100, -777, 1001, 2047, -2049, 4095, 4097, 6143, -6143, 6145, 8191, 12287, -12287, 1212, 1002, 1003, 1014, 3073, -5]
    ws += [rng.choice((1, -1)) * rng.randint(1, 6144) for _ in range(20 if quick else 400)]
    return [((w,), (-2 ** 40, 2 ** 40), e) for w in ws for e in ends]


PAIRS = [(-1, 1), (0, 1), (-1, 0), (1, 2), (-2, -1), (0, 0), (3, 3), (2047, 2048), (4095, 4096), (4096, 4097), (-4097, -4096), (6143, 6144), (-6144, -6143), (12287, 12288)]


def op_goals(chk, q):
    W = wset(q)
    for fn in OPS:
        chk.goal(fn, op_goal, fn=fn)
    for fn in ('point', 'interval'):
        chk.goal(fn, make_goal, fn=fn)
    for i in range(0, len(W), 4):
        cs = [(w, B, L and (L if abs(w[0]) > 1000 or abs(w[0]) < 4 else L // 2), False) for w, B, L in W[i:i + 4]]
        chk.goal('red_scale w=%s' % [c[0][0] for c in cs], mul_goal, weight=5, fn='red_scale', cases=cs)
    for p in PAIRS:
        a = max(abs(p[0]), abs(p[1]), 1)
        L = max(2, 4096 // a)
        B = (-2 ** 16, 2 ** 16)
        chk.goal('red_mul w in %s' % (p,), mul_goal, weight=9, fn='red_mul', cases=[(p, B, L, False), (p, B, L, True)])


def main(pid):
    q = TIER == 'quick'
    chk = Check(pid, 'path-exhaustive symbolic execution of the compiled IR (z3, linear integer arithmetic) with symbolic interval ends and a symbolic member', tables=False)
    chk.assumptions = ['clang -O0 IR and gcc -O3 code agree on code without undefined behaviour', 'malloc succeeds']
    chk.trusted = ['clang front end', 'z3', 'engine/llir.py', 'engine/zpath.py']
    for f in FILES:
        chk.S.ir(f)
    native(chk)
    W = wset(q)
    pairs = PAIRS
    if pid == 'C16':
        chk.bounds = dict(operands='all 64-bit intervals and members for addition, subtraction, negation, reductions, normalisation; [0,12288] for shift, [-12289,24577] for correct',
                          red_scale='multipliers %s; all intervals in the stated range up to the stated length' % [list(w) for w, _, _ in W][:60],
                          red_mul='second operand in %s, first operand any longer interval up to the loop bound' % pairs)
        op_goals(chk, q)
    elif pid == 'C24':
        W = [c for c in W if q is False or abs(c[0][0]) > 900 or abs(c[0][0]) < 5]
        chk.bounds = dict(operands='all 64-bit intervals for addition, subtraction, negation, reduction, normalisation; [0,12288] for shift, [-12289,24577] for correct; single points for double reduction and normalisation with inverse of 3',
                          red_scale='multipliers %s; all intervals in the stated range up to the stated length' % [w[0] for w, _, _ in W],
                          red_mul='second operand in %s' % PAIRS[:8])
        for fn in OPS:
            chk.goal(fn, tight_goal, weight=3, fn=fn)
        for i in range(0, len(W), 3):
            chk.goal('red_scale w=%s' % [c[0][0] for c in W[i:i + 3]], tight_mul_goal, weight=5, fn='red_scale', cases=W[i:i + 3])
        for p in PAIRS[:8]:
            a = max(abs(p[0]), abs(p[1]), 1)
            chk.goal('red_mul w in %s' % (p,), tight_mul_goal, weight=9, fn='red_mul', cases=[(p, (-2 ** 16, 2 ** 16), max(3, 4096 // a))])
    else:
        chk.bounds = dict(max_red_min_red='all 64-bit intervals', multipliers=[list(w) for w, _, _ in W], intervals='symbolic ends in the stated range, lengths up to the stated loop bound',
                          interval_versions=[list(p) for p in pairs], butterfly_bounds='symbolic b, multipliers as listed', rounds='n <= 8, symbolic tables, one-step bound uninterpreted')
        for fn in ('max_red', 'min_red'):
            chk.goal(fn, bound_goal, fn=fn, cases=[(None, I64, None)])
        for fn in ('max_red_mul', 'min_red_mul'):
            for i in range(0, len(W), 4):
                cs = W[i:i + 4]
                chk.goal('%s w=%s' % (fn, [c[0][0] for c in cs]), bound_goal, weight=5, fn=fn, cases=cs)
        FX = fixed(q)
        for fn in ('max_red_mul', 'min_red_mul'):
            for i in range(0, len(FX), 45):
                chk.goal('%s long intervals %d' % (fn, i // 45), bound_goal, weight=6, fn=fn, cases=FX[i:i + 45])
        for fn in ('max_red_mul_interval', 'min_red_mul_interval'):
            for p in ((-6144, 6144), (-12, 13), (100, 130), (-6100, -6095), (6000, 6144)):
                for e in ((-6144, 6144), (-21499, 21499), (0, 12288), (-5000, 100), (3000, 9000)):
                    if p[1] - p[0] < 100 or e[0] == -e[1]:
                        chk.goal('%s w in %s x in %s' % (fn, p, e), bound_goal, weight=6, fn=fn, cases=[(p, (-2 ** 40, 2 ** 40), e)])
        for fn in ('max_red_mul_interval', 'min_red_mul_interval'):
            for p in pairs:
                a = max(abs(p[0]), abs(p[1]), 1)
                chk.goal('%s w in %s' % (fn, p), bound_goal, weight=9, fn=fn, cases=[(p, BIG if a > 100 else (-2 ** 16, 2 ** 16), max(3, 4096 // a))])
        for fn in ('ct_bound', 'gs_bound', 'ct_bound_fixed', 'gs_bound_fixed'):
            cs = []
            for p in pairs:
                a = max(abs(p[0]), abs(p[1]), 1)
                if fn.endswith('fixed'):
                    p = (p[1],)
                cs.append((p, 0, max(2, (2048 if fn.startswith('gs') else 4096) // a)))
            for i in range(0, len(cs), 5):
                chk.goal('%s %s' % (fn, [c[0] for c in cs[i:i + 5]]), step_goal, weight=8, fn=fn, cases=cs[i:i + 5])
        for fn in ('ntt_ct_bounds', 'ntt_gs_bounds'):
            for n in (1, 2, 4, 8):
                chk.goal('%s n=%d' % (fn, n), round_goal, weight=n, fn=fn, n=n)
    return chk.run()
