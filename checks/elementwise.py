"""C10, C11, C12: elementwise array operations."""
from common import *
import cex, products, history
from rings import PolyRing

I32 = (-(1 << 31), (1 << 31) - 1)
PROD = (-8796042698752, 8796093026303)


def red_spec(x):
    return 3 * (x & 4095) - (x >> 12)


# name -> signature: args 'a' in-place array, 'c' destination, 'b0','b1' sources, 'p16'/'p16s' table, 's' scalar, 'n', 'q'
# pre: ranges; prod: product precondition; spec(a, b) -> exact value (concrete); res: residue
class Op:
    def __init__(self, name, args, ra, rb=None, prod=None, spec=None, mult=None, out=None, exact=None, lib=None, ref=None):
        self.name, self.args, self.ra, self.rb, self.prod = name, args, ra, rb, prod
        self.spec, self.mult, self.out, self.exact, self.lib, self.ref = spec, mult, out, exact, lib, ref


can = (0, Q - 1)
cen = (-6144, 6144)
mulq = lambda a, b: a * b % Q
C10 = [
    Op('mul_array16', ('a', 'n', 'p16'), can, can, spec=mulq, mult=1, out=can, lib='ntt.c'),
    Op('mul_array', ('c', 'n', 'b0', 'b1'), can, can, spec=mulq, mult=1, out=can, lib='ntt.c'),
    Op('scalar_mul_array', ('a', 'n', 's'), can, can, spec=mulq, mult=1, out=can, lib='ntt.c'),
    Op('mul_array16_naive', ('a', 'n', 'p16', 'q'), can, can, spec=mulq, mult=1, out=can, lib='naive_ntt.c'),
    Op('mul_array_naive', ('c', 'n', 'b0', 'b1', 'q'), can, can, spec=mulq, mult=1, out=can, lib='naive_ntt.c'),
    Op('scalar_mul_array_naive', ('a', 'n', 's', 'q'), can, can, spec=mulq, mult=1, out=can, lib='naive_ntt.c'),
]
shiftv = lambda a, b=None: a if a <= 6144 else a - Q
RED = dict(spec=lambda a, b=None: red_spec(a), exact='red')
RED2 = dict(spec=lambda a, b=None: red_spec(red_spec(a)), exact='red2')
MRED = dict(spec=lambda a, b: red_spec(a * b), exact='mred')
C11 = [
    Op('normalize', ('a', 'n'), I32, spec=lambda a, b=None: a % Q, mult=1, out=can, lib='ntt_red.c'),
    Op('normalize_inv3', ('a', 'n'), I32, spec=lambda a, b=None: a * 8193 % Q, mult=8193, out=can, lib='ntt_red.c'),
    Op('shift_array', ('a', 'n'), can, spec=shiftv, mult=1, out=cen, lib='ntt_red.c'),
    Op('reduce_array', ('a', 'n'), I32, mult=3, out=(-524287, 536573), lib='ntt_red.c', **RED),
    Op('reduce_array_twice', ('a', 'n'), I32, mult=9, out=(-130, 12413), lib='ntt_red.c', **RED2),
    Op('correct', ('a', 'n'), (-Q, 2 * Q - 1), spec=lambda a, b=None: a % Q, mult=1, out=can, lib='ntt_red.c'),
    Op('mul_reduce_array16', ('a', 'n', 'p16s'), I32, (-32768, 32767), prod=PROD, mult=3, lib='ntt_red.c', **MRED),
    Op('mul_reduce_array', ('c', 'n', 'b0', 'b1'), I32, I32, prod=PROD, mult=3, lib='ntt_red.c', **MRED),
    Op('scalar_mul_reduce_array', ('a', 'n', 's'), I32, I32, prod=PROD, mult=3, lib='ntt_red.c', **MRED),
    Op('mul_reduce_array16', ('a', 'n', 'p16s'), can, can, mult=3, out=(-36864, 12285), lib='ntt_red.c', **MRED),
    Op('mul_reduce_array16', ('a', 'n', 'p16s'), cen, cen, mult=3, out=(-9216, 21499), lib='ntt_red.c', **MRED),
    Op('mul_reduce_array', ('c', 'n', 'b0', 'b1'), can, can, mult=3, out=(-36864, 12285), lib='ntt_red.c', **MRED),
    Op('mul_reduce_array', ('c', 'n', 'b0', 'b1'), cen, cen, mult=3, out=(-9216, 21499), lib='ntt_red.c', **MRED),
]


def asm_ops():
    out = []
    base = {o.name: o for o in C11[:9]}
    for nm in ('shift_array_asm', 'reduce_array_asm', 'reduce_array_asm2', 'reduce_array_twice_asm', 'reduce_array_twice_asm2', 'correct_asm',
               'mul_reduce_array16_asm', 'mul_reduce_array16_asm2', 'mul_reduce_array_asm', 'scalar_mul_reduce_array_asm'):
        b = base[nm.replace('_asm2', '').replace('_asm', '')]
        out.append(Op(nm, b.args, b.ra, b.rb, prod=b.prod, spec=b.spec, lib='ntt_red.c', ref=b.name))
    return out


OPS = {'C10': C10, 'C11': C11, 'C12': asm_ops()}


# ------------------------------------------------------------------ native
def native_e(chk, pid):
    return chk.native(['ntt.c', 'ntt_red.c', 'ntt_asm.S'], 'ew', ('-O3',)), chk.native(['naive_ntt.c'], 'ewn', ('-O3',))


def run_native_op(sos, op, A, B):
    """A, B lists of values (B scalar for 's'); returns output or None when something else was written"""
    so = sos[1] if op.lib == 'naive_ntt.c' else sos[0]
    f = getattr(ctypes.CDLL(so), op.name)
    f.restype = None
    n = len(A)
    cargs, watch, dest = [], [], None
    for k in op.args:
        if k == 'a':
            r, w, v = guarded(A)
            dest = (w, v, r)
            cargs.append(vp(v))
        elif k == 'c':
            r, w, v = guarded([0x5A5A5A5A] * n)
            dest = (w, v, r)
            cargs.append(vp(v))
        elif k in ('b0', 'b1'):
            r, w, v = guarded(A if k == 'b0' else B)
            watch.append((w, w.copy(), r))
            cargs.append(vp(v))
        elif k in ('p16', 'p16s'):
            r, w, v = guarded(B, np.uint16 if k == 'p16' else np.int16)
            watch.append((w, w.copy(), r))
            cargs.append(vp(v))
        elif k == 's':
            cargs.append(ctypes.c_int32(B))
        elif k == 'n':
            cargs.append(ctypes.c_uint32(n))
        elif k == 'q':
            cargs.append(ctypes.c_int32(Q))
    w, v, _ = dest
    pre = w.copy()
    f(*cargs)
    if (w[:64] != pre[:64]).any() or (w[-64:] != pre[-64:]).any():
        return None
    for x, s, _ in watch:
        if (x != s).any():
            return None
    return v.copy()


def bad_op(sos, op, A, B):
    out = run_native_op(sos, op, A, B)
    if out is None:
        return 'writes outside its destination'
    n = len(A)
    for i in range(n):
        b = B if not isinstance(B, (list, tuple)) else B[i]
        e = op.spec(A[i], b)
        if int(out[i]) != e:
            return 'length %d, element %d: %s with operand(s) %s gives %d, expected %d' % (
                n, i, op.name, (A[i],) if op.rb is None else (A[i], b), int(out[i]), e)
        if op.out and not op.out[0] <= e <= op.out[1]:
            return 'spec'
    return None


def search_op(sos, op, cands, limit):
    t0 = time.time()
    for A, B in cands:
        w = bad_op(sos, op, A, B)
        if w and w != 'spec':
            return A, B, w
        if time.time() - t0 > limit:
            return None
    return None


def try_op(sos, op, cands, limit=40):
    cands = list(cands)
    st, v = in_child(search_op, sos, op, cands, limit, timeout=limit + 30)
    if st == 'ok':
        return v
    if st in ('signal', 'timeout'):
        for A, B in cands[:100]:
            st, v = in_child(bad_op, sos, op, A, B, timeout=30)
            if st in ('signal', 'timeout'):
                return A, B, 'killed by signal %s' % v if st == 'signal' else 'does not terminate'
            if st == 'ok' and v and v != 'spec':
                return A, B, v
    return None


def admissible(op, a, b):
    if not op.ra[0] <= a <= op.ra[1]:
        return False
    if op.rb is None:
        return True
    if not op.rb[0] <= b <= op.rb[1]:
        return False
    return op.prod is None or op.prod[0] <= a * b <= op.prod[1]


def interesting(op, rng):
    vs = set()
    for r in (op.ra, op.rb) if op.rb else (op.ra,):
        for c in (r[0], r[1], 0, Q, -Q, 2 * Q, 4096, -4096, 6144, 1 << 14, 1 << 30, -(1 << 30), 1 << 31, -(1 << 31), 1 << 16, -(1 << 16), 1 << 20):
            for d in (-2, -1, 0, 1, 2):
                vs.add(c + d)
    return sorted(vs)


def fill(op, pairs, n, rng):
    """arrays of length n made of given operand pairs (pairs non-empty)"""
    if op.args.count('s'):
        b = pairs[0][1]
        same = [p for p in pairs if p[1] == b]
        return [rng.choice(same)[0] if i >= len(same) else same[i][0] for i in range(n)], b
    c = [pairs[i] if i < len(pairs) else rng.choice(pairs) for i in range(n)]
    return [p[0] for p in c], ([p[1] for p in c] if op.rb else None)


def candidates(op, extra, rng, lengths):
    pairs = [(a, b) for a, b in extra if admissible(op, a, b)]
    for p in pairs:
        n = rng.choice(lengths) or 16
        yield fill(op, [p], max(n, 1) if not op.name.endswith(('asm', 'asm2')) else max(16, n), rng)
    iv = interesting(op, rng)
    big = [n for n in lengths if n][-1]
    if op.rb is None:
        good = [(a, None) for a in iv if admissible(op, a, None)]
        for n in lengths:
            if n:
                yield fill(op, rng.sample(good, min(n, len(good))), n, rng)
        for _ in range(40):
            yield fill(op, [(rng.randint(*op.ra), None) for _ in range(big)], big, rng)
    else:
        for rep in range(60):
            s = rng.choice([b for b in iv if op.rb[0] <= b <= op.rb[1]]) if rep % 2 else rng.randint(*op.rb)
            good = []
            for _ in range(4 * big):
                b = s if 's' in op.args else (rng.choice(iv) if rng.random() < .5 else rng.randint(*op.rb))
                a = rng.choice(iv) if rng.random() < .5 else rng.randint(*op.ra)
                if op.prod and b and rng.random() < .7:
                    lim = min(op.prod[1] // abs(b), op.ra[1])
                    a = rng.choice((lim, -lim, lim - 1, rng.randint(-lim, lim)))
                if admissible(op, a, b):
                    good.append((a, b))
                if len(good) >= big:
                    break
            if good:
                n = big if rep < 30 else rng.choice([x for x in lengths if x])
                yield fill(op, good, n, rng)


def exhaustive(sos, op, limit):
    """for operands in small ranges: native run over all pairs (counterexample search only)"""
    t0 = time.time()
    if op.rb is None or op.ra[1] - op.ra[0] > 30000 or op.rb[1] - op.rb[0] > 30000:
        if op.rb is None:
            lo, hi = op.ra
            step = 1 << 22
            a = lo
            chunks = list(range(lo, hi + 1, step))
            random.Random(SEED).shuffle(chunks)
            for a in chunks:
                A = np.arange(a, min(a + step, hi + 1), dtype=np.int64)
                m = len(A) - len(A) % 16 or len(A)
                A = A[:max(m, 16)] if len(A) >= 16 else A
                out = run_native_op(sos, op, A, None)
                e = spec_np(op, A, None)
                d = np.nonzero(out != e)[0]
                if len(d):
                    x = int(A[d[0]])
                    return [x] * 16, None, ''
                if time.time() - t0 > limit:
                    return None
        return None
    A = np.arange(op.ra[0], op.ra[1] + 1, dtype=np.int64)
    pad = (-len(A)) % 16
    A = np.concatenate([A, np.full(pad, op.ra[0])])
    for b in range(op.rb[0], op.rb[1] + 1):
        B = b if 's' in op.args else np.full(len(A), b)
        out = run_native_op(sos, op, A, B)
        d = np.nonzero(out != spec_np(op, A, b))[0]
        if len(d):
            x = int(A[d[0]])
            return [x] * 16, (b if 's' in op.args else [b] * 16), ''
        if time.time() - t0 > limit:
            return None
    return None


def spec_np(op, A, b):
    if op.spec is mulq:
        return A * b % Q
    if op.exact == 'mred' or (op.ref and op.rb):
        x = A * b
        return 3 * (x & 4095) - (x >> 12)
    nm = op.ref or op.name
    r = lambda x: 3 * (x & 4095) - (x >> 12)
    return {'normalize': lambda x: x % Q, 'normalize_inv3': lambda x: (x % Q) * 8193 % Q, 'shift_array': lambda x: np.where(x <= 6144, x, x - Q),
            'reduce_array': r, 'reduce_array_twice': lambda x: r(r(x)), 'correct': lambda x: x % Q}[nm](A)


# ------------------------------------------------------------------ symbolic
def sym_spec(C, kind, x):
    def red(v):
        lo = C.bitand(v, 4095, 64)
        return C.sub(C.mul(3, lo, 64), C.ashr(v, 12, 64), 64)
    r = red(x)
    return C.sval(red(r) if kind == 'red2' else r, 64)


def sym_args(C, P, op, n, ring, tag=''):
    a = [C.input('%sa%d' % (tag, i), op.ra[0], op.ra[1], ring.var('%sa%d' % (tag, i))) for i in range(n)]
    b = None
    if op.rb:
        if 's' in op.args:
            b = [C.input(tag + 's', op.rb[0], op.rb[1], ring.var(tag + 's'))] * n
        else:
            b = [C.input('%sb%d' % (tag, i), op.rb[0], op.rb[1], ring.var('%sb%d' % (tag, i))) for i in range(n)]
        if op.prod:
            for x, y in zip(a, b):
                f = C.mul_(x, y)
                C.side = getattr(C, 'side', []) + [(f, op.prod[0], op.prod[1])]
                (i, k), = f.t.items()
                at = C.atoms[i]
                l, h = op.prod if k == 1 else (-op.prod[1], -op.prod[0])
                at.lo, at.hi = max(at.lo, l), min(at.hi, h)
    return a, b


def sym_call(P, op, name, n, a, b, C):
    dest = None
    args = []
    for k in op.args:
        if k == 'a':
            dest = P.array('a', a, 4)
            args.append(Ptr(dest, 0))
        elif k == 'c':
            dest = P.array('c', [C.input('c%d' % i, *I32) for i in range(n)], 4)
            args.append(Ptr(dest, 0))
        elif k == 'b0':
            args.append(Ptr(P.array('x', a, 4, const=True), 0))
        elif k == 'b1':
            args.append(Ptr(P.array('y', b, 4, const=True), 0))
        elif k in ('p16', 'p16s'):
            args.append(Ptr(P.array('p', b, 2, const=True), 0))
        elif k == 's':
            args.append(b[0] if b else C.input('s', op.rb[0], op.rb[1]))
        elif k == 'n':
            args.append(n)
        elif k == 'q':
            args.append(Q)
    P.call(name, args)
    return [C.sval(force(x), 32) for x in P.read_array(dest, n)]


def same(C, x, y):
    """None if x = y for all values; else list of model dicts"""
    if type(x) is int and type(y) is int:
        return None if x == y else [{}]
    d = C.add_(x, y, -1)
    if type(d) is int:
        return None if d == 0 else [{}]
    ms = []
    for ex in (0, 1, 2, 3):
        st, m = C.prove_cond(lambda f: f[0] == 0, [d], ex)
        if st == 'unsat':
            return None
        if st == 'sat':
            ms.append(m)
    return ms


def judge_op(C, ring, op, n, a, b, out, refout, tag=''):
    """(None or why, elements checked, models)"""
    k = 0
    for i, f in enumerate(out):
        k += 1
        models = []
        if op.ref:
            ms = same(C, f, refout[i])
            if ms is not None:
                return 'length %d: element %d differs from the C version' % (n, i), k, ms
            continue
        if op.exact:
            x = a[i] if op.rb is None else C.mul_(a[i], b[i])
            ms = same(C, f, sym_spec(C, op.exact, x))
            if ms is not None:
                return 'length %d: element %d is not the exact reduction' % (n, i), k, ms
        if op.out:
            lo, hi = (f, f) if type(f) is int else (f.lo, f.hi)
            if lo < op.out[0] or hi > op.out[1]:
                for ex in (0, 1, 2):
                    st, m = C.prove_cond(lambda z: z3and(z[0] >= op.out[0], z[0] <= op.out[1]), [f], ex)
                    if st == 'unsat':
                        break
                    if st == 'sat':
                        models.append(m)
                else:
                    return 'length %d: element %d not proved in [%d,%d]' % (n, i, op.out[0], op.out[1]), k, models
        if op.mult and not op.exact:
            want = ring.scale(ring.var('%sa%d' % (tag, i)), op.mult)
            if op.rb:
                want = ring.mul(want, ring.var(tag + ('s' if 's' in op.args else 'b%d' % i)))
            try:
                got = C.res(f)
            except (Unsupported, RingError) as e:
                got = str(e)
            if got != want:
                return 'length %d: element %d has the wrong residue (%s)' % (n, i, got), k, models
    return None, k, []


class OpFamily(history.Family):
    def __init__(self, chk, pid):
        self.chk, self.pid = chk, pid
        self.sos = native_e(chk, pid)

    def ring(self, k):
        return PolyRing()

    def program(self, C):
        P = self.chk.program(C, ['ntt.c', 'ntt_red.c'] if self.pid != 'C10' else ['ntt.c', 'naive_ntt.c'])
        if self.pid == 'C12':
            products.link_asm(self.chk, P)
        return P

    def call(self, C, P, ring, key, j, k):
        op, n = OPS[self.pid][key[0]], key[1]
        tag = 'j%d_' % j
        a, b = sym_args(C, P, op, n, ring, tag)
        out = sym_call(P, op, op.name, n, a, b, C)
        ref = None
        if op.ref and j == k - 1:
            ref = sym_call(P, op, op.ref, n, a, b, C)
        return a, b, out, ref, tag

    def judge(self, C, ring, key, st):
        a, b, out, ref, tag = st
        return judge_op(C, ring, OPS[self.pid][key[0]], key[1], a, b, out, ref, tag)[0]

    def compatible(self, x, y):
        p, q = OPS[self.pid][x[0]], OPS[self.pid][y[0]]
        return x[1] == y[1] and p.ra == q.ra and p.rb == q.rb and p.args == q.args

    def fill(self, key, part, rng):
        op, n = OPS[self.pid][key[0]], key[1]
        while True:
            A = [part.get('a%d' % i, None) for i in range(n)]
            B = [part.get('b%d' % i, None) for i in range(n)]
            s = part.get('s')
            lim = (op.prod and 2900000) or 1 << 40
            cl = lambda r: (max(r[0], -lim), min(r[1], lim))
            A = [rng.randint(*cl(op.ra)) if x is None else x for x in A]
            if op.rb is None:
                return dict(A=A)
            if 's' in op.args:
                return dict(A=A, B=rng.randint(*cl(op.rb)) if s is None else s)
            return dict(A=A, B=[rng.randint(*cl(op.rb)) if x is None else x for x in B])

    def native(self, seq):
        for i, (key, x) in enumerate(seq):
            op = OPS[self.pid][key[0]]
            B = x.get('B')
            if not all(admissible(op, y, z) for y, z in zip(x['A'], B if isinstance(B, list) else [B] * key[1])):
                return None
            w = bad_op(self.sos, op, x['A'], B)
            if w and w != 'spec':
                return 'call %d: %s' % (i + 1, w)
        return None

    def replay(self):
        return dict(module='elementwise', pid=self.pid)


def cuts(C):
    """thresholds on single inputs that the code branches on: {'a': set, 'b': set} (x < t is decided)"""
    out = {'a': set(), 'b': set()}
    for a in C.atoms.values() if isinstance(C.atoms, dict) else C.atoms:
        if a is None or a.kind not in ('lt0', 'eq0'):
            continue
        f = C.form_by_id(a.a[0])
        if type(f) is int or len(f.t) != 1:
            continue
        (i, k), = f.t.items()
        x = C.atoms[i]
        if x.kind != 'in' or not x.name or x.name[0] not in 'abs':
            continue
        key = 'a' if x.name[0] == 'a' else 'b'
        # k*x + c < 0  /  k*x + c = 0
        t = -f.c // k if (-f.c) % k == 0 else (-f.c) // k + 1
        out[key] |= {t, t + 1} if (a.kind == 'eq0' or k < 0) else {t}
    return out


def boxes(r, cs):
    if r is None:
        return [None]
    pts = sorted(c for c in cs if r[0] < c <= r[1])
    lo = [r[0]] + pts
    hi = [p - 1 for p in pts] + [r[1]]
    return list(zip(lo, hi))


def split_goal(chk, pid, idx, C0, funcs, lens, limit=150):
    """case distinction: the operand ranges are cut at the constants the code compares operands with; every box
    is decided separately.  (status, detail, models)"""
    op = OPS[pid][idx]
    t0 = time.time()
    cs = cuts(C0)
    A, B = boxes(op.ra, cs['a']), boxes(op.rb, cs['b'])
    if len(A) * len(B) > 2000:
        return 'undecided', 'too many cases', []
    done = 0
    import copy
    for ra in A:
        for rb in B:
            o2 = copy.copy(op)
            o2.ra, o2.rb = ra, rb
            if op.prod and rb is not None:
                ps = [x * y for x in ra for y in rb]
                if min(ps) > op.prod[1] or max(ps) < op.prod[0]:
                    continue
            for n in lens:
                ring = PolyRing()
                C = Ctx(ring, seed=SEED, round_bits=16)
                C.eager = True
                P = chk.program(C, [op.lib])
                M = products.link_asm(chk, P) if op.ref else None
                why, ms = None, []
                try:
                    a, b = sym_args(C, P, o2, n, ring)
                    out = sym_call(P, o2, op.name, n, a, b, C)
                    refout = sym_call(P, o2, op.ref, n, a, b, C) if op.ref else None
                    if C.obligations:
                        why = 'possible signed overflow %s' % (C.obligations[0][:2],)
                    else:
                        why, k, ms = judge_op(C, ring, o2, n, a, b, out, refout)
                except (MemError, AbiError, Unsupported, RingError) as e:
                    why = '%s: %s' % (type(e).__name__, e)
                for f, c in dict(P.funcs_run).items():
                    funcs[f] = funcs.get(f, 0) + c
                if why:
                    corner = [(x, y) for x in ra for y in (rb or (None,))]
                    return 'undecided', 'case a in %s b in %s: %s' % (ra, rb, why), [('m', C, m) for m in ms] + [('pair', x, y) for x, y in corner]
                if time.time() - t0 > limit:
                    return 'undecided', 'case distinction not finished in time (%d cases)' % done, []
            done += 1
    return 'proved', '%d cases, lengths %s (all elements of one array in the same case)' % (done, lens), []


def op_goal(chk, pid, lengths, idx):
    op = OPS[pid][idx]
    t00, hard = time.time(), False
    funcs, why, models, checked = {}, None, [], 0
    C = None
    sos = native_e(chk, pid)
    rng = random.Random(SEED * 9 + idx)
    try:
        for n in lengths:
            ring = PolyRing()
            C = Ctx(ring, seed=SEED, round_bits=16)
            C.eager = True
            P = chk.program(C, [op.lib])
            M = products.link_asm(chk, P) if op.ref else None
            a, b = sym_args(C, P, op, n, ring)
            out = sym_call(P, op, op.name, n, a, b, C)
            if op.ref:
                refout = sym_call(P, op, op.ref, n, a, b, C)
            for f, c in dict(P.funcs_run).items():
                funcs[f] = funcs.get(f, 0) + c
            if M:
                funcs.update(M.seen)
            if C.obligations:
                why = 'possible signed overflow %s' % (C.obligations[0][:2],)
                models += [('ob', f) for _, _, f, _ in C.obligations[:3]]
            if not why:
                why, k, ms = judge_op(C, ring, op, n, a, b, out, refout if op.ref else None)
                checked += k
                models += [('m', C, m) for m in ms]
            if not why and history.trigger(P):
                seqs = [[[j, m], [idx, n]] for j in range(len(OPS[pid])) for m in {n, max(16, n // 2 // 16 * 16)}] + [[[idx, n]] * 3]
                r = history.explore(OpFamily(chk, pid), [idx, n], seqs, funcs) if n in (16, 64) else None
                if r:
                    return r
            if why:
                break
            if time.time() - t00 > 90 and n >= 16:
                lengths = lengths[:lengths.index(n) + 1]
                break
    except (MemError, AbiError) as e:
        why, hard = '%s: %s' % (type(e).__name__, e), True
    except (Unsupported, RingError) as e:
        why = '%s: %s' % (type(e).__name__, e)
    if why is not None and C is not None and not hard:
        st, det, ms = split_goal(chk, pid, idx, C, funcs, sorted({n, lengths[-1]} | ({16, 32, 48, 64, 80} if op.ref else {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33})))
        if st == 'proved' and not history.trigger(chk.last[1]):
            return proved(funcs=funcs, detail=det)
        if st != 'proved':
            why += '; ' + det
            models += ms
    if why is None:
        # concrete cross-check
        for A, B in list(candidates(op, [], rng, [n for n in lengths if n][:6]))[:12]:
            st, v = in_child(bad_op, sos, op, A, B)
            if st != 'ok' or (v and v != 'spec'):
                return undecided('encoding proves the property but the compiled code disagrees: %s' % (v,))
        return proved(funcs=funcs, detail='%d lengths, %d elements' % (len(lengths), checked))
    extra = []
    for m in models:
        if m[0] == 'pair':
            extra.append((m[1], m[2]))
        if m[0] != 'm':
            continue
        _, CC, vals = m
        ina, inb = {}, {}
        for i, v in vals.items():
            at = CC.atoms[i]
            if at.kind == 'in':
                if at.name[0] == 'a':
                    ina[at.name[1:]] = v
                else:
                    inb[at.name[1:] if at.name != 's' else 's'] = v
            elif at.kind == 'prod':
                for fc in cex.factorings(CC, at, v, rng, 20):
                    d = {CC.atoms[next(iter(f.t))].name[0]: x for f, x in fc}
                    x, y = d.get('a', 0), d.get('b', d.get('s', 0))
                    extra.append((x, y))
        for k, v in ina.items():
            extra.append((v, inb.get(k, inb.get('s')) if op.rb else None))
    if C is not None:
        for bases, pts in C.suspects[:20]:
            for p in pts[:200]:
                for bse, v in zip(bases, p):
                    if len(bse.t) == 1 and bse.c == 0:
                        (i, k), = bse.t.items()
                        at = C.atoms[i]
                        if v % k == 0:
                            if at.kind == 'prod':
                                for fc in cex.factorings(C, at, v // k, rng, 8):
                                    d = {C.atoms[next(iter(f.t))].name[0]: x for f, x in fc}
                                    extra.append((d.get('a', 0), d.get('b', d.get('s', 0))))
                            elif at.kind == 'in' and at.name[0] == 'a':
                                extra.append((v // k, None))
    for r in history.branch_inputs(*chk.last, rng, time.time() + 20, limit=40):
        for i in range(64):
            if 'a%d' % i in r:
                extra.append((r['a%d' % i], r.get('b%d' % i, r.get('s', rng.randint(*op.rb) if op.rb else None))))
    extra = [(x, y) for x, y in extra if x is not None and (op.rb is None or y is not None)]
    lens = [n for n in lengths]
    r = try_op(sos, op, candidates(op, extra, rng, lens))
    if r is None:
        st, v = in_child(exhaustive, sos, op, 120, timeout=200)
        if st == 'ok' and v:
            A, B, _ = v
            st, w = in_child(bad_op, sos, op, A, B)
            if st == 'ok' and w:
                r = (A, B, w)
    if r is None and why.startswith('possible signed overflow'):
        ub = tuple(chk.native(f, nm, ('-O1', '-fsanitize=undefined', '-fsanitize-trap=undefined'))
                   for f, nm in ((['ntt.c', 'ntt_red.c', 'ntt_asm.S'], 'ewub'), (['naive_ntt.c'], 'ewnub')))
        for A, B in list(candidates(op, extra, rng, [n for n in lens if n][:20]))[:150]:
            st, v = in_child(bad_op, ub, op, A, B)
            if st == 'signal' and v in (4, 5):
                return violated('%s: signed overflow (undefined behaviour) for operands in range (%s)' % (op.name, why),
                                dict(kind='op', module='elementwise', pid=pid, op=idx, A=A, B=B, ub=True))
    if r is None and hard:
        for A, B in list(candidates(op, extra, rng, [n]))[:20]:
            g = out_of_bounds(bad_op, sos, op, A, B)
            if g:
                return violated('%s with length %d accesses memory outside its arrays (%s)' % (op.name, len(A), why),
                                dict(kind='op', module='elementwise', pid=pid, op=idx, A=A, B=B, guard=g))
    if r:
        A, B, w = r
        return violated(w + ' (%s)' % why, dict(kind='op', module='elementwise', pid=pid, op=idx, A=A, B=B))
    return undecided(why)


def long_goal(chk, pid, idx, n, m=17):
    """a length beyond 16-bit counters; position i holds the symbolic operands number i mod m (m does not divide 2^16)"""
    op = OPS[pid][idx]
    sos = native_e(chk, pid)
    rng = random.Random(SEED * 11 + idx)
    ring = PolyRing()
    C = Ctx(ring, seed=SEED, round_bits=16)
    C.eager = True
    P = chk.program(C, [op.lib])
    M = products.link_asm(chk, P) if op.ref else None
    why = None
    try:
        a, b = sym_args(C, P, op, m, ring)
        rep = lambda v: None if v is None else [v[i % m] for i in range(n)]
        out = sym_call(P, op, op.name, n, rep(a), rep(b), C)
        refout = sym_call(P, op, op.ref, n, rep(a), rep(b), C) if op.ref else None
        for o in (out, refout):
            for i in range(m, n) if o else ():
                x, y = o[i], o[i % m]
                if x is not y and (type(x) is int or type(y) is int or x.key() != y.key()) and x != y and same(C, x, y) is not None:
                    why = 'length %d: element %d is not the value element %d has for the same operands' % (n, i, i % m)
                    break
        if not why and C.obligations:
            return undecided('possible signed overflow')      # decided for the shorter arrays
        if not why:
            why, _, _ = judge_op(C, ring, op, m, a, b, out[:m], refout[:m] if op.ref else None)
            if why:
                return undecided(why)                         # decided for the shorter arrays
    except (MemError, AbiError) as e:
        why = '%s: %s' % (type(e).__name__, e)
    except (Unsupported, RingError) as e:
        why = '%s: %s' % (type(e).__name__, e)
    if why is None:
        return proved(funcs=dict(P.funcs_run), detail='%d elements, %d distinct symbolic operands' % (n, m))
    import itertools
    cs = list(itertools.islice(candidates(op, [], rng, [n]), 6))
    r = try_op(sos, op, iter(cs))
    if r:
        A, B, w = r
        return violated(w + ' (%s)' % why, dict(kind='op', module='elementwise', pid=pid, op=idx, A=A, B=B))
    if why.startswith('MemError') or why.startswith('AbiError'):
        for A, B in cs[:3]:
            g = out_of_bounds(bad_op, sos, op, A, B)
            if g:
                return violated('%s with length %d accesses memory outside its arrays (%s)' % (op.name, len(A), why),
                                dict(kind='op', module='elementwise', pid=pid, op=idx, A=A, B=B, guard=g))
    return undecided(why)


def z3and(*a):
    import z3
    return z3.And(*a)


def replay(d):
    chk = Check(d['property'], 'replay')
    if d['kind'] == 'history':
        fam = OpFamily(chk, d['pid'])
        st, v = in_child(fam.native, [(k, x) for k, x in d['seq']])
        return v if st == 'ok' else st
    op = OPS[d['pid']][d['op']]
    sos = native_e(chk, d['pid'])
    if d.get('ub'):
        sos = tuple(chk.native(f, nm, ('-O1', '-fsanitize=undefined', '-fsanitize-trap=undefined'))
                    for f, nm in ((['ntt.c', 'ntt_red.c', 'ntt_asm.S'], 'ewub'), (['naive_ntt.c'], 'ewnub')))
    st, v = in_child(bad_op, sos, op, d['A'], d['B'])
    return v if st == 'ok' else 'killed' if st == 'signal' else st


def main(pid):
    chk = Check(pid, 'symbolic execution of %s per element with SMT lemmas (range, congruence, exact equality with the documented reduction)'
                % ('the AVX2 object code and of the C reference' if pid == 'C12' else 'the compiled IR'))
    if pid == 'C12':
        lengths = [16, 32, 48, 64, 80, 96, 112, 128, 160, 240, 256, 272, 512, 1024] + ([2048, 4096] if TIER == 'thorough' else [])
        chk.asm()
    else:
        lengths = list(range(0, 41)) + [63, 64, 65, 100, 127, 128, 129, 256, 511, 512, 1000, 1024] + ([2047, 2048, 4096] if TIER == 'thorough' else [])
    chk.bounds = dict(lengths=lengths + [65552 if pid == 'C12' else 66000], operands='every value of the documented range of each operand (see the goals)')
    chk.assumptions = ['source and destination arrays are distinct', 'clang -O0 IR and gcc -O3 code agree on code without undefined behaviour']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py']
    for f in ('ntt.c', 'ntt_red.c', 'naive_ntt.c'):
        chk.S.ir(f)
    native_e(chk, pid)
    for i, op in enumerate(OPS[pid]):
        chk.goal('%s a in [%d,%d]%s' % (op.name, op.ra[0], op.ra[1], ' b in [%d,%d]' % op.rb if op.rb else ''), op_goal,
                 pid=pid, lengths=lengths, idx=i)
        n = 65552 if pid == 'C12' else 66000        # beyond 16-bit counters
        chk.goal('%s a in [%d,%d]%s length %d' % (op.name, op.ra[0], op.ra[1], ' b in [%d,%d]' % op.rb if op.rb else '', n), long_goal,
                 weight=3, pid=pid, n=n, idx=i)
    return chk.run()
