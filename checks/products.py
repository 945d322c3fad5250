"""C01..C04: product routines."""
from common import *
import cex, history

LIBS = {
    'default': dict(prefix='ntt', suffix='', files=lambda n: ['ntt.c', 'ntt%d.c' % n, 'ntt%d_tables.c' % n, 'bitrev%d_table.c' % n]),
    'naive': dict(prefix='naive_ntt', suffix='', files=lambda n: ['naive_ntt.c', 'naive_ntt%d.c' % n, 'ntt%d_tables.c' % n, 'bitrev%d_table.c' % n]),
    'red': dict(prefix='ntt_red', suffix='', files=lambda n: ['ntt.c', 'ntt_red.c', 'ntt_red%d.c' % n, 'ntt_red%d_tables.c' % n, 'bitrev%d_table.c' % n]),
    'avx2': dict(prefix='ntt_red', suffix='_asm', files=lambda n: ['ntt.c', 'ntt_red.c', 'ntt_red_asm%d.c' % n, 'ntt_red%d_tables.c' % n, 'bitrev%d_table.c' % n]),
}

ASM_SIG = {
    'avx2_supported': [],
    'shift_array_asm': ['p', 'u32'], 'reduce_array_asm': ['p', 'u32'], 'reduce_array_asm2': ['p', 'u32'],
    'reduce_array_twice_asm': ['p', 'u32'], 'reduce_array_twice_asm2': ['p', 'u32'], 'correct_asm': ['p', 'u32'],
    'mul_reduce_array16_asm': ['p', 'u32', 'p'], 'mul_reduce_array16_asm2': ['p', 'u32', 'p'],
    'mul_reduce_array_asm': ['p', 'u32', 'p', 'p'], 'scalar_mul_reduce_array_asm': ['p', 'u32', 'i32'],
}


def asm_sig(f):
    return ASM_SIG.get(f, ['p', 'u32', 'p'])


def link_asm(chk, P):
    AP = chk.asm()
    M = Machine(AP, P)
    for f in AP.globals:
        if f != 'avx2_supported':
            P.ext[f] = M.make_ext(f, asm_sig(f))
    return M


def fname(lib, n, k):
    L = LIBS[lib]
    return '%s%d_product%d%s' % (L['prefix'], n, k, L['suffix'])


# ------------------------------------------------------------------ native side
def native_lib(chk, lib, n, flags=('-O3',), tag=''):
    L = LIBS[lib]
    files = list(L['files'](n))
    if lib == 'avx2':
        files.append('ntt_asm.S')
    return chk.native(files, 'prod_%s_%d%s' % (lib, n, tag), flags)


def run_native(so, fn, a, b):
    lib = ctypes.CDLL(so)
    f = getattr(lib, fn)
    f.restype = None
    n = len(a)
    ra, wa, va = guarded(a)
    rb, wb, vb = guarded(b)
    rc, wc, vc = guarded([0x5A5A5A5A] * n)
    snap = [w.copy() for w in (wa, wb, wc)]
    f(vp(vc), vp(va), vp(vb))
    g = 64
    for w, s in zip((wa, wb, wc), snap):
        if (w[:g] != s[:g]).any() or (w[-g:] != s[-g:]).any():
            return None
    return vc.copy()


def bad_product(so, fn, a, b):
    out = run_native(so, fn, a, b)
    if out is None:
        return 'writes outside its arrays'
    ref = negacyclic(a, b)
    d = np.nonzero(out != ref)[0]
    if len(d):
        j = int(d[0])
        return 'coefficient %d is %d, expected %d' % (j, int(out[j]), int(ref[j]))
    return None


def search(so, fn, gen, limit_s):
    """runs in a child: first (a,b) of gen that fails"""
    t0 = time.time()
    cnt = 0
    for a, b in gen:
        a = [int(x) % Q for x in a]
        b = [int(x) % Q for x in b]
        cnt += 1
        w = bad_product(so, fn, a, b)
        if w:
            return a, b, w, cnt
        if time.time() - t0 > limit_s:
            break
    return None, None, None, cnt


def confirm(so, fn, a, b):
    st, v = in_child(bad_product, so, fn, a, b, timeout=60)
    if st == 'ok':
        return v
    if st == 'signal':
        return 'killed by signal %d' % v
    if st == 'timeout':
        return 'does not terminate'
    return None


def structured(n, rng):
    """generic inputs that stress carries, ranges and every coefficient pair"""
    z = [0] * n
    vals = (Q - 1, 1, 6144, 6145, 8192, 4096, 12287)
    full = [[v] * n for v in vals]
    for x in full:
        for y in full:
            yield x, y
    yield [i % 2 * (Q - 1) for i in range(n)], [Q - 1] * n
    for i in range(n):
        e = list(z)
        e[i] = 1
        m = list(z)
        m[i] = Q - 1
        yield e, [rng.randrange(Q) for _ in range(n)]
        yield m, [Q - 1] * n
        yield [rng.randrange(Q) for _ in range(n)], e
    for _ in range(400):
        yield [rng.randrange(Q) for _ in range(n)], [rng.randrange(Q) for _ in range(n)]
    for _ in range(300):
        yield [rng.choice((0, 1, Q - 1, Q - 2, 6144, 6145)) for _ in range(n)], [rng.choice((0, 1, Q - 1, 6144)) for _ in range(n)]


def poly_div_inputs(n, rng, psi):
    """pairs whose product has chosen (special) coefficients"""
    pw = [pow(psi, (2 * i + 1), Q) for i in range(n)]
    V = np.array([[pow(r, j, Q) for j in range(n)] for r in pw], dtype=np.int64)
    ni = pow(n, -1, Q)
    Vi = np.array([[pow(r, -j, Q) * ni % Q for r in pw] for j in range(n)], dtype=np.int64)
    for rep in range(60):
        a = np.array([rng.randrange(Q) for _ in range(n)])
        c = np.array([rng.choice((0, 0, Q - 1, 1, 6144, rng.randrange(Q))) for _ in range(n)])
        A = V.dot(a) % Q
        if (A == 0).any():
            continue
        Cc = V.dot(c) % Q
        B = np.array([int(x) * pow(int(y), -1, Q) % Q for x, y in zip(Cc, A)])
        yield a, Vi.dot(B) % Q
        # special transform-domain values
        A2 = np.array([rng.choice((0, 1, Q - 1, 6144, 6145, rng.randrange(Q))) for _ in range(n)])
        B2 = np.array([rng.choice((0, 1, Q - 1, 6144, 6145, rng.randrange(Q))) for _ in range(n)])
        yield Vi.dot(A2) % Q, Vi.dot(B2) % Q


def find_psi(n):
    for g in range(2, Q):
        if pow(g, n, Q) == Q - 1:
            return g


def suspect_inputs(C, ring, n, rng, out, want):
    """inputs derived from the solver's models of deviating intermediate values"""
    sus = C.suspects
    rng.shuffle(sus)
    for j in want[:24]:
        o = out[j]
        if type(o) is int:
            continue
        for cl in cex.models(C, o, 0, Q - 1):
            for style in (0, 0, 0, 1, 2, 3):
                r = cex.inputs_for(ring, n, [(e, t) for e, t, _ in cl], rng, style)
                if r is not None:
                    yield r
    for bases, pts in sus[:60]:
        for p in pts[:6]:
            for r in cex.concretise(C, ring, n, list(zip(bases, p)), rng, time.time() + 10):
                yield r


class Found(Exception):
    def __init__(self, a, b, why):
        self.a, self.b, self.why = a, b, why


class Hunter:
    """called by the engine when an intermediate value deviates from its linear law on some
    solver/sample point: tries at once to reach that point from real inputs and to show a wrong
    result of the compiled code"""

    def __init__(self, chk, lib, n, k, C, ring):
        self.so = native_lib(chk, lib, n)
        self.fn = fname(lib, n, k)
        self.C, self.ring, self.n = C, ring, n
        self.rng = random.Random(SEED * 13 + n * 7 + k)
        self.spent = 0.0
        self.per_shape = {}
        self.busy = False

    def __call__(self, bases, pts, shape=None):
        if self.busy or self.spent > 90 or self.per_shape.get(shape, 0) >= 3 or not pts:
            return
        self.per_shape[shape] = self.per_shape.get(shape, 0) + 1
        self.busy = True
        t0 = time.time()
        try:
            pts = list(pts)
            self.rng.shuffle(pts)
            cands = []
            for p in pts:
                for r in cex.concretise(self.C, self.ring, self.n, list(zip(bases, p)), self.rng, t0 + 12):
                    cands.append(r)
                    if len(cands) >= 40:
                        self.try_(cands)
                        cands = []
                if time.time() - t0 > 12:
                    break
            self.try_(cands)
        finally:
            self.spent += time.time() - t0
            self.busy = False

    def try_(self, cands):
        if not cands:
            return
        st, v = in_child(search, self.so, self.fn, cands, 10, timeout=40)
        if st == 'ok' and v[0] is not None:
            raise Found(*v[:3])
        if st in ('signal', 'timeout'):
            for a, b in cands:
                a, b = [int(x) % Q for x in a], [int(x) % Q for x in b]
                w = confirm(self.so, self.fn, a, b)
                if w:
                    raise Found(a, b, w)


def find_cex(chk, lib, n, k, extra=(), limit=60):
    so = native_lib(chk, lib, n)
    fn = fname(lib, n, k)
    rng = random.Random(SEED * 1000 + n + k)

    def gen():
        for x in extra:
            yield x
        for x in structured(n, rng):
            yield x
        for x in poly_div_inputs(n, rng, find_psi(n)):
            yield x
    st, v = in_child(search, so, fn, gen(), limit, timeout=limit * 3 + 30)
    if st == 'ok':
        a, b, w, cnt = v
        if a is not None:
            return a, b, w
        return None
    if st in ('signal', 'timeout'):
        # find which input: run candidates one at a time
        t0 = time.time()
        for a, b in gen():
            a = [int(x) % Q for x in a]
            b = [int(x) % Q for x in b]
            w = confirm(so, fn, a, b)
            if w:
                return a, b, w
            if time.time() - t0 > limit:
                break
    return None


# ------------------------------------------------------------------ symbolic side
def execute(chk, lib, n, k, round_bits=4, eager=False):
    ring = VecRing(2 * n)
    C = Ctx(ring, round_bits=round_bits, seed=SEED)
    C.eager = eager
    if eager:
        C.on_suspect = Hunter(chk, lib, n, k, C, ring)
    else:
        C.max_opaque = 40
    P = chk.program(C, LIBS[lib]['files'](n))
    M = link_asm(chk, P) if lib == 'avx2' else None
    a = [C.input('a%d' % i, 0, Q - 1, ring.unit(i)) for i in range(n)]
    b = [C.input('b%d' % i, 0, Q - 1, ring.unit(n + i)) for i in range(n)]
    c = [C.input('c%d' % i, -(1 << 31), (1 << 31) - 1) for i in range(n)]
    A, B, D = P.array('a', a, 4), P.array('b', b, 4), P.array('c', c, 4)
    P.call(fname(lib, n, k), [Ptr(D, 0), Ptr(A, 0), Ptr(B, 0)])
    out = [C.sval(force(x), 32) for x in P.read_array(D, n)]
    funcs = dict(P.funcs_run)
    if M:
        funcs.update(M.seen)
    return ring, C, P, out, funcs


def compare(ring, n, rs):
    """exact comparison of the output residues with the negacyclic product.
    None if equal, else (j, list of (a,b) witnesses)"""
    NP = len(ring.prods)
    M = np.zeros((n, NP), dtype=np.int64)
    for j, r in enumerate(rs):
        if type(r) is int:
            if r:
                return j, [([0] * n, [0] * n)]
            return j, [([1] + [0] * (n - 1), [0] * j + [1] + [0] * (n - 1 - j))]
        if r[1]:
            return j, [([0] * n, [0] * n)]
        if r[0] == 0:
            return j, [([0] * n, [1] * n), ([1] * n, [0] * n), ([1] * n, [1] * n)]
        m = min(NP, len(r[2]))
        M[j, :m] = r[2][:m]
    Ra = np.zeros((NP, n), dtype=np.int64)
    Rb = np.zeros((NP, n), dtype=np.int64)
    for i, (x, y) in enumerate(ring.prods):
        vx, vy = np.asarray(x[2], dtype=np.int64), np.asarray(y[2], dtype=np.int64)
        if vx[n:].any() and not vx[:n].any():
            vx, vy = vy, vx
        if vx[n:].any() or vy[:n].any() or x[1] or y[1]:
            raise Unsupported('product of mixed forms')
        Ra[i], Rb[i] = vx[:n], vy[n:]
    # fast path: rows are multiples of (1, r, r^2, ...) with r^n = -1
    la, lb = Ra[:, 0], Rb[:, 0]
    fast = NP > 0 and (la != 0).all() and (lb != 0).all()
    if fast:
        r = np.array([int(Ra[i, 1]) * cex.inv(la[i]) % Q for i in range(NP)], dtype=np.int64)
        V = np.ones((NP, n), dtype=np.int64)
        for j in range(1, n):
            V[:, j] = V[:, j - 1] * r % Q
        fast = ((V * la[:, None] % Q) == Ra).all() and ((V * lb[:, None] % Q) == Rb).all() and \
            ((V[:, n - 1] * r + 1) % Q == 0).all()
    if fast:
        D = mat_mod(M * (la * lb % Q)[None, :] % Q, V)
        bad = np.argwhere(D != np.eye(n, dtype=np.int64))
        if len(bad) == 0:
            return None
        w = []
        for j, m in bad[:20]:
            e = [0] * n
            e[int(m)] = 1
            o = [0] * n
            o[0] = 1
            w.append((e, o))
        return int(bad[0][0]), w
    for j in range(n):
        T = mat_mod((Ra * M[j][:, None] % Q).T, Rb)
        ref = np.zeros((n, n), dtype=np.int64)
        for i in range(n):
            l = (j - i) % n
            ref[i, l] = 1 if i <= j else Q - 1
        bad = np.argwhere(T != ref)
        if len(bad):
            w = []
            for i, l in bad[:20]:
                e, o = [0] * n, [0] * n
                e[int(i)] = 1
                o[int(l)] = 1
                w.append((e, o))
            return j, w
    return None


def branchy(chk, n, rng):
    """inputs that take either side of the data-dependent branches seen so far"""
    C, P = chk.last
    out = []
    for r in history.branch_inputs(C, P, rng, time.time() + 40):
        for rep in range(2):
            f = (lambda: rng.randrange(Q)) if rep == 0 else (lambda: rng.choice((0, 1, Q - 1)))
            out.append(([r.get('a%d' % i, f()) for i in range(n)], [r.get('b%d' % i, f()) for i in range(n)]))
    return out


def product_goal(chk, lib, n, k):
    tries = [(4, False), (4, True), (8, False)]
    last = None
    rng = random.Random(SEED * 77 + n * 5 + k)
    for rb, eager in tries:
        try:
            ring, C, P, out, funcs = execute(chk, lib, n, k, rb, eager)
        except Found as e:
            return violated('%s: %s' % (fname(lib, n, k), e.why), dict(kind='product', lib=lib, n=n, variant=k, a=e.a, b=e.b))
        except (MemError, AbiError) as e:
            last = (str(e), lambda: branchy(chk, n, rng))
            break
        except Lawless as e:
            last = (str(e), lambda: branchy(chk, n, rng))
            continue
        except Unsupported as e:
            last = ('not encodable: %s' % e, lambda: branchy(chk, n, rng))
            break
        wide = [j for j in range(n) if not ((type(out[j]) is int and 0 <= out[j] < Q) or
                                           (type(out[j]) is Form and out[j].lo >= 0 and out[j].hi < Q))]
        if wide:
            # ask the solver directly, unfolding definitions
            still = []
            for j in wide:
                ok = False
                if type(out[j]) is Form and len(still) < 8:
                    for ex in (0, 1, 2):
                        import z3
                        st, _ = C.prove_cond(lambda f: z3.And(f[0] >= 0, f[0] < Q), [out[j]], ex)
                        if st == 'unsat':
                            ok = True
                            break
                if not ok:
                    still.append(j)
            wide = still
        why = None
        wit = []
        try:
            rs = [C.res(o) for o in out]
            cmpr = compare(ring, n, rs)
            if cmpr:
                why = 'output %d has a wrong residue' % cmpr[0]
                wit = cmpr[1]
        except (Unsupported, RingError) as e:
            why = 'residue: %s' % e
        if not why and wide:
            why = 'output %d not proved in [0,Q-1]' % wide[0]
        if not why and C.obligations:
            why = 'possible signed overflow: %s' % (C.obligations[0],)
        if not why:
            sample = validate(chk, lib, n, k, C, out)
            if sample:
                return undecided(sample)
            if history.trigger(P):
                seqs = [[j, k] for j in range(1, 6)] + [[k, k, k]]
                r = history.explore(ProductFamily(chk, lib, n), k, seqs, funcs)
                if r:
                    return r
            return proved(funcs=funcs, detail='%d IR steps, %d atoms, %d products, outputs in [0,%d]' % (
                P.steps, len(C.atoms), len(ring.prods), max(o.hi if type(o) is Form else o for o in out)))
        last = (why, lambda: list(wit) + branchy(chk, n, rng) + list(_take(suspect_inputs(C, ring, n, rng, out, wide), 600, 60)))
        if wit:
            break
    why, gen = last
    extra = gen() if gen else []
    r = find_cex(chk, lib, n, k, extra)
    if r is None:
        r = ub_cex(chk, lib, n, k, extra)
    if r is None and 'of ' in why:
        a, b = [rng.randrange(Q) for _ in range(n)], [rng.randrange(Q) for _ in range(n)]
        g = out_of_bounds(bad_product, native_lib(chk, lib, n), fname(lib, n, k), a, b)
        if g:
            return violated('%s accesses memory outside its arrays (%s)' % (fname(lib, n, k), why),
                            dict(kind='product', lib=lib, n=n, variant=k, a=a, b=b, guard=g))
    if r:
        a, b, w = r
        return violated('%s: %s (%s)' % (fname(lib, n, k), w, why),
                        dict(kind='product', lib=lib, n=n, variant=k, a=a, b=b))
    return undecided(why)


def _take(gen, cnt, secs):
    t0 = time.time()
    for i, x in enumerate(gen):
        yield x
        if i >= cnt or time.time() - t0 > secs:
            return


UBSAN_CHILD = r'''
import sys, ctypes, json, os
so, fn, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
lib = ctypes.CDLL(so)
f = getattr(lib, fn); f.restype = None
for line in sys.stdin:
    a, b = json.loads(line)
    A = (ctypes.c_int32 * n)(*a); B = (ctypes.c_int32 * n)(*b); C = (ctypes.c_int32 * n)()
    sys.stderr.write('IN %s\n' % line.strip()); sys.stderr.flush()
    f(C, A, B)
'''


def ub_cex(chk, lib, n, k, extra):
    """native confirmation of undefined behaviour or out-of-bounds accesses (sanitizers)"""
    import subprocess
    L = LIBS[lib]
    files = list(L['files'](n)) + (['ntt_asm.S'] if lib == 'avx2' else [])
    try:
        so = chk.native(files, 'ub_%s_%d' % (lib, n), ('-O1', '-g', '-fsanitize=undefined', '-fno-sanitize-recover=undefined', '-static-libubsan'))
    except BuildError:
        return None
    rng = random.Random(SEED)
    cands = list(extra)[:300] + list(_take(structured(n, rng), 120, 20))
    inp = ''.join(json.dumps([[int(x) % Q for x in a], [int(x) % Q for x in b]]) + '\n' for a, b in cands)
    try:
        r = subprocess.run([sys.executable, '-c', UBSAN_CHILD, so, fname(lib, n, k), str(n)], input=inp.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode == 0:
        return None
    err = r.stderr.decode(errors='replace').split('\n')
    if not any('runtime error' in l for l in err) and r.returncode > 0:
        return None
    cur = None
    for l in err:
        if l.startswith('IN '):
            cur = l[3:]
    if cur is None:
        return None
    a, b = json.loads(cur)
    msg = [l for l in err if 'runtime error' in l]
    return a, b, (msg[0] if msg else 'killed by signal %d' % -r.returncode)


def validate(chk, lib, n, k, C, out):
    """push concrete inputs through both the encoding and the compiled code"""
    so = native_lib(chk, lib, n)
    fn = fname(lib, n, k)
    rng = random.Random(SEED * 31 + n + k)
    for rep in range(2 if n > 100 else 6):
        if rep == 0:
            a, b = [Q - 1] * n, [Q - 1] * n
        else:
            a, b = [rng.randrange(Q) for _ in range(n)], [rng.randrange(Q) for _ in range(n)]
        env = {'a%d' % i: a[i] for i in range(n)}
        env.update({'b%d' % i: b[i] for i in range(n)})
        env.update({'c%d' % i: 0x5A5A5A5A for i in range(n)})
        ev = C.evaluate(out, env)
        st, nat = in_child(run_native, so, fn, a, b)
        if st != 'ok' or nat is None or list(map(int, nat)) != ev:
            return 'encoding disagrees with the compiled code on a concrete input (%s)' % st
    return None


# ------------------------------------------------------------------ histories
class ProductFamily(history.Family):
    def __init__(self, chk, lib, n):
        self.chk, self.lib, self.n = chk, lib, n
        self.so = native_lib(chk, lib, n)

    def ring(self, k):
        return VecRing(2 * self.n * k)

    def program(self, C):
        P = self.chk.program(C, LIBS[self.lib]['files'](self.n))
        if self.lib == 'avx2':
            link_asm(self.chk, P)
        return P

    def call(self, C, P, ring, key, j, k):
        n = self.n
        base = 2 * n * (k - 1 - j)           # the last call owns the first 2n unknowns
        a = [C.input('j%d_a%d' % (j, i), 0, Q - 1, ring.unit(base + i)) for i in range(n)]
        b = [C.input('j%d_b%d' % (j, i), 0, Q - 1, ring.unit(base + n + i)) for i in range(n)]
        c = [C.input('j%d_c%d' % (j, i), -(1 << 31), (1 << 31) - 1) for i in range(n)]
        A, B, D = P.array('a', a, 4), P.array('b', b, 4), P.array('c', c, 4)
        P.call(fname(self.lib, n, key), [Ptr(D, 0), Ptr(A, 0), Ptr(B, 0)])
        return [C.sval(force(x), 32) for x in P.read_array(D, n)]

    def judge(self, C, ring, key, out):
        n = self.n
        for j, o in enumerate(out):
            lo, hi = (o, o) if type(o) is int else (o.lo, o.hi)
            if lo < 0 or hi >= Q:
                return 'output %d not proved in [0,Q-1]' % j
        rs = [C.res(o) for o in out]
        pr = []
        for i, (x, y) in enumerate(ring.prods):
            if x[2][2 * n:].any() or y[2][2 * n:].any():
                if any(type(r) is not int and r[0] == 1 and len(r[2]) > i and r[2][i] for r in rs):
                    return 'the result depends on the operands of an earlier call'
                x = y = (0, 0, np.zeros(2 * n, dtype=np.int32))
            pr.append(((x[0], x[1], x[2][:2 * n]), (y[0], y[1], y[2][:2 * n])))
        for r in rs:
            if type(r) is not int and r[0] == 0:
                return 'a result coefficient is linear'
        sub = VecRing(2 * n)
        keep = [i for i, (x, y) in enumerate(pr) if x[2].any()]
        sub.prods = [pr[i] for i in keep]
        rs2 = []
        for r in rs:
            if type(r) is int:
                rs2.append(r)
            else:
                v = np.zeros(len(pr), dtype=np.int64)
                v[:len(r[2])] = r[2][:len(pr)]
                rs2.append((1, r[1], v[keep]))
        c = compare(sub, n, rs2)
        return 'output %d has a wrong residue' % c[0] if c else None

    def compatible(self, x, y):
        return True

    def fill(self, key, part, rng):
        return {nm: [part.get('%s%d' % (nm, i), None) if part.get('%s%d' % (nm, i), None) is not None else rng.randrange(Q)
                     for i in range(self.n)] for nm in 'ab'}

    def native(self, seq):
        for i, (k, x) in enumerate(seq):
            w = bad_product(self.so, fname(self.lib, self.n, k), x['a'], x['b'])
            if w:
                return 'call %d: %s' % (i + 1, w)
        return None

    def replay(self):
        return dict(module='products', lib=self.lib, n=self.n)


def replay(d):
    chk = Check(d['property'], 'replay')
    fam = ProductFamily(chk, d['lib'], d['n'])
    st, v = in_child(fam.native, [(k, x) for k, x in d['seq']])
    return v if st == 'ok' else st


TITLES = {'C01': 'default', 'C02': 'naive', 'C03': 'red', 'C04': 'avx2'}


def main(pid):
    lib = TITLES[pid]
    chk = Check(pid, 'symbolic execution of the compiled IR%s into affine forms, SMT lemmas (z3 LIA) per reduction, exact GF(Q) comparison with the negacyclic product'
                % (' and AVX2 object code' if lib == 'avx2' else ''))
    chk.bounds = dict(sizes=list(SIZES), variants=[1, 2, 3, 4, 5], inputs='all a, b in [0,12288]^n, all initial contents of c')
    chk.assumptions = ['clang -O0 IR and gcc -O3 code agree on code without undefined behaviour',
                       'a, b, c are distinct arrays', 'the engine (checked on concrete inputs against the compiled code in this run)']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py', 'numpy float64 matrix product below 2^53']
    for n in SIZES:
        for f in LIBS[lib]['files'](n):
            chk.S.ir(f)
        native_lib(chk, lib, n)
    if lib == 'avx2':
        chk.asm()
        chk.assumptions.append('instruction semantics of the AVX2 subset as modelled in engine/x86.py')
    for n in SIZES:
        for k in range(1, 6):
            chk.goal('%s' % fname(lib, n, k), product_goal, weight=n, lib=lib, n=n, k=k)
    return chk.run()
