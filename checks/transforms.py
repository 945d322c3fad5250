"""C05..C08: generic transforms, for every root psi of every size."""
from common import *
import cex, products, history
from reach import Reach

INV3 = 8193
TR = ['ntt_ct_rev2std', 'mulntt_ct_rev2std', 'ntt_ct_std2rev', 'mulntt_ct_std2rev',
      'ntt_gs_rev2std', 'nttmul_gs_rev2std', 'ntt_gs_std2rev', 'nttmul_gs_std2rev']
LIBT = {
    'C05': dict(files=['ntt.c'], name=lambda t: t, extra=['ntt_ct_rev2std_v1'], red=False, q=False, lo=0, hi=Q - 1, olo=0, ohi=Q - 1),
    'C06': dict(files=['naive_ntt.c'], name=lambda t: t + '_naive', extra=[], red=False, q=True, lo=0, hi=Q - 1, olo=1 - Q, ohi=Q - 1),
    'C07': dict(files=['ntt_red.c'], name=lambda t: t.replace('ntt_', 'ntt_red_', 1).replace('nttmul_', 'nttmul_red_', 1), extra=[], red=True, max=1024, q=False, lo=-21499, hi=21499, olo=None, ohi=None),
    'C08': dict(files=['ntt_red.c'], name=lambda t: t.replace('ntt_', 'ntt_red_', 1).replace('nttmul_', 'nttmul_red_', 1) + '_asm', extra=[], red=True, max=1024, q=False, lo=-21499, hi=21499, olo=None, ohi=None, asm=True),
}


def rev(i, k):
    r = 0
    for _ in range(k):
        r = r << 1 | i & 1
        i >>= 1
    return r


def table_exp(t, n):
    """exponents of psi in the documented table; None = unspecified entry"""
    if t.endswith('_v1'):
        return list(range(n))
    e = [None] * n
    revd = t in ('ntt_ct_std2rev', 'mulntt_ct_std2rev', 'ntt_gs_rev2std', 'nttmul_gs_rev2std')
    mixed = t.startswith('mulntt') or t.startswith('nttmul')
    s, k = 1, 0
    while s < n:
        for j in range(s):
            jj = rev(j, k) if revd else j
            e[s + j] = 2 * (n // (2 * s)) * jj + (n // (2 * s) if mixed else 0)
        s *= 2
        k += 1
    return e


def spec_exp(t, n):
    """E[o][i]: exponent of psi of input array element i in output array element o"""
    k = n.bit_length() - 1
    R = np.array([rev(i, k) for i in range(n)])
    I = np.arange(n)
    std_i = R if 'rev2std' in t else I        # standard index of the element at array position i
    std_o = R if 'std2rev' in t else I
    E = 2 * np.outer(std_o, std_i)
    if t.startswith('mulntt'):
        E = E + std_i[None, :]
    if t.startswith('nttmul'):
        E = E + std_o[:, None]
    return E % (2 * n)


def roots(n):
    return [x for x in range(2, Q) if pow(x, n, Q) == Q - 1]


def centred(x):
    x %= Q
    return x - Q if x > Q // 2 else x


def concrete_table(L, t, n, psi):
    out = []
    for e in table_exp(t, n):
        if e is None:
            out.append(0)
        elif L['red']:
            out.append(centred(pow(psi, e, Q) * INV3))
        else:
            out.append(pow(psi, e, Q))
    return out


# ------------------------------------------------------------------ native
def native_t(chk, pid, flags=('-O3',), tag=''):
    L = LIBT[pid]
    return chk.native(L['files'] + (['ntt_asm.S'] if L.get('asm') else []), 'tr_%s%s' % (pid, tag), flags)


_TABS = {}


def run_t(so, pid, t, n, tab, a, shared=False):
    L = LIBT[pid]
    f = getattr(ctypes.CDLL(so), L['name'](t))
    f.restype = None
    rp, wp, p = guarded(tab, np.int16 if L['red'] else np.uint16)
    if shared:               # the same table array in every call, refilled
        if (t, n) not in _TABS:
            _TABS[(t, n)] = (rp, wp, p)
        r0, w0, p0 = _TABS[(t, n)]
        p0[:] = p
        rp, wp, p = r0, w0, p0
    ra, wa, v = guarded(a)
    sp, sa = wp.copy(), wa.copy()
    args = [vp(v), ctypes.c_uint32(n), vp(p)] + ([ctypes.c_int32(Q)] if L['q'] else [])
    f(*args)
    if (wp != sp).any() or (wa[:64] != sa[:64]).any() or (wa[-64:] != sa[-64:]).any():
        return None
    return v.copy()


_PW = {}


def bad_t(so, pid, t, n, psi, a, shared=False):
    L = LIBT[pid]
    out = run_t(so, pid, t, n, concrete_table(L, t, n, psi), a, shared)
    if out is None:
        return 'writes outside its array'
    key = (t, n, psi)
    if key not in _PW:
        _PW.clear()
        pw = np.array([pow(psi, e, Q) for e in range(2 * n)], dtype=np.int64)
        _PW[key] = pw[spec_exp(t, n)]
    ref = mat_mod(_PW[key], (np.asarray(a, dtype=np.int64) % Q)[:, None])[:, 0]
    d = np.nonzero((out.astype(np.int64) - ref) % Q)[0]
    if len(d):
        return 'element %d is %d, expected %d modulo Q' % (d[0], out[d[0]], ref[d[0]])
    if L['olo'] is not None:
        d = np.nonzero((out < L['olo']) | (out > L['ohi']))[0]
        if len(d):
            return 'element %d is %d, out of range' % (d[0], out[d[0]])
    return None


def search_t(so, pid, t, cands, limit):
    t0 = time.time()
    for n, psi, a in cands:
        w = bad_t(so, pid, t, n, psi, a)
        if w:
            return n, psi, [int(x) for x in a], w
        if time.time() - t0 > limit:
            break
    return None


def confirm_t(so, pid, t, n, psi, a):
    st, v = in_child(bad_t, so, pid, t, n, psi, a, timeout=60)
    if st == 'ok':
        return v
    if st == 'signal':
        return 'killed by signal %d' % v
    if st == 'timeout':
        return 'does not terminate'


def try_list(so, pid, t, cands, limit=30):
    cands = list(cands)
    if not cands:
        return None
    st, v = in_child(search_t, so, pid, t, cands, limit, timeout=limit + 60)
    if st == 'ok':
        return v
    if st in ('signal', 'timeout'):
        for n, psi, a in cands[:200]:
            w = confirm_t(so, pid, t, n, psi, a)
            if w:
                return n, psi, [int(x) for x in a], w
    return None


def generic(L, n, rng, rts, cnt=60):
    lo, hi = L['lo'], L['hi']
    for psi in [rts[0], rts[-1]] + [rng.choice(rts) for _ in range(3)]:
        for v in (hi, lo, 1, (lo + hi) // 2 + 1):
            yield n, psi, [v] * n
        for _ in range(cnt // 5):
            yield n, psi, [rng.randint(lo, hi) for _ in range(n)]
            yield n, psi, [rng.choice((lo, hi)) for _ in range(n)]
        for i in ([0, 1, n - 1] if n > 32 else range(n)):
            a = [0] * n
            a[i] = rng.choice((1, hi, lo))
            yield n, psi, a
        # inputs whose transform is extreme
        pw = [pow(psi, e, Q) for e in range(2 * n)]
        for _ in range(3):
            k = rng.randrange(n)
            yield n, psi, [centred(pow(psi, -2 * i * k % (2 * n), Q)) if L['red'] else pow(psi, -2 * i * k % (2 * n), Q) for i in range(n)]


class FoundT(Exception):
    pass


class HunterT:
    def __init__(self, so, pid, t, n, psi, C, seed):
        self.so, self.pid, self.t, self.n, self.psi, self.C = so, pid, t, n, psi, C
        self.rng = random.Random(seed)
        self.per = {}
        self.spent = 0
        self.busy = False
        self.L = LIBT[pid]

    def __call__(self, bases, pts, shape=None, each=10):
        if self.busy or self.spent > 60 or self.per.get(shape, 0) >= 3 or not pts:
            return
        self.busy = True
        self.per[shape] = self.per.get(shape, 0) + 1
        t0 = time.time()
        try:
            pts = sorted(set(pts), key=lambda p: sum(abs(x) for x in p))
            pts = pts[:12] + [self.rng.choice(pts) for _ in range(12)]
            cands = []
            while time.time() - t0 < each:
                for p in pts:
                    g = list(zip(bases, p))
                    r = Reach(self.C, self.rng, t0 + each).solve(g)
                    if r is not None:
                        a = [r.get('a%d' % i, None) for i in range(self.n)]
                        a = [self.rng.choice((0, self.L['hi'], self.L['lo'])) if x is None else x for x in a]
                        cands.append((self.n, self.psi, a))
                    if time.time() - t0 > each or len(cands) >= 30:
                        break
                if len(cands) >= 30 or len(pts) == 0:
                    break
            r = try_list(self.so, self.pid, self.t, cands)
            if r:
                raise FoundT(r)
        finally:
            self.spent += time.time() - t0
            self.busy = False


# ------------------------------------------------------------------ symbolic
def setup_program(chk, C, pid):
    P = chk.program(C, LIBT[pid]['files'])
    M = products.link_asm(chk, P) if LIBT[pid].get('asm') else None
    return P, M


def run_sym(chk, pid, t, n, C, tab, a, keep=None):
    L = LIBT[pid]
    P, M = setup_program(chk, C, pid)
    if keep is not None:
        keep.append(P)
    A = P.array('a', a, 4)
    T = P.array('p', tab, 2, const=True)
    args = [Ptr(A, 0), n, Ptr(T, 0)] + ([Q] if L['q'] else [])
    P.call(L['name'](t), args)
    out = [C.sval(force(x), 32) for x in P.read_array(A, n)]
    funcs = dict(P.funcs_run)
    if M:
        funcs.update(M.seen)
    return out, funcs, P.steps + (M.steps if M and hasattr(M, 'steps') else 0)


def mono_run(chk, pid, t, n, rb=4, keep=None):
    L = LIBT[pid]
    ring = MonoRing(n, n)
    C = Ctx(ring, seed=SEED, round_bits=rb)
    C.max_opaque = 40
    a = [C.input('a%d' % i, L['lo'], L['hi'], ring.unit(i)) for i in range(n)]
    sub = None
    tab = []
    sc = INV3 if L['red'] else 1
    G = roots(n)[0] if n <= 2048 else None
    dom = frozenset((centred if L['red'] else lambda x: x)(pow(G, e, Q) * sc % Q) for e in range(2 * n))
    for i, e in enumerate(table_exp(t, n)):
        if e is None:
            x = C.input('p%d' % i, -6144 if L['red'] else 0, 6144 if L['red'] else Q - 1)
        elif e % n == 0:
            v = sc if e % (2 * n) == 0 else -sc
            x = (centred(v) if L['red'] else v % Q) & 0xffff
        else:
            # equal powers share one variable
            x = C.input('psi^%d' % (e % (2 * n)), -6144 if L['red'] else 0, 6144 if L['red'] else Q - 1,
                        ring.scale(ring.mono(1, e), sc))
            C.doms = getattr(C, 'doms', {})
            C.doms[next(iter(x.t))] = dom
        tab.append(x)
    out, funcs, steps = run_sym(chk, pid, t, n, C, tab, a, keep)
    return ring, C, out, funcs, steps


def check_mono(pid, t, n, ring, C, out):
    """None if proved, else (why, kind)"""
    L = LIBT[pid]
    E = spec_exp(t, n)
    for o in range(n):
        r = C.res(out[o])
        if type(r) is int or r[0] != 'v':
            return 'element %d is constant' % o
        e = E[o]
        cc = np.where(e >= n, Q - 1, 1)
        if (r[1] != cc).any() or (r[2] != e % n).any():
            i = int(np.nonzero((r[1] != cc) | (r[2] != e % n))[0][0])
            return 'element %d has a wrong coefficient for input %d' % (o, i)
        if L['olo'] is not None:
            f = out[o]
            if f.lo < L['olo'] or f.hi > L['ohi']:
                return 'element %d is only known to be in [%d,%d]' % (o, f.lo, f.hi)
    if C.obligations:
        return 'possible overflow: %s' % (C.obligations[0][:2],)
    return None


def concrete_run(chk, pid, t, n, psi, hunt=True):
    """all inputs, one root: used to look for counterexamples"""
    L = LIBT[pid]
    ring = VecRing(n)
    C = Ctx(ring, seed=SEED)
    C.eager = True
    so = native_t(chk, pid)
    H = HunterT(so, pid, t, n, psi, C, SEED * 3 + n)
    if hunt:
        C.on_suspect = H
    a = [C.input('a%d' % i, L['lo'], L['hi'], ring.unit(i)) for i in range(n)]
    tab = [x & 0xffff for x in concrete_table(L, t, n, psi)]
    out, funcs, steps = run_sym(chk, pid, t, n, C, tab, a)
    # range failures and overflow obligations
    H.per.clear()
    H.spent = 0
    for what, where, f, w in C.obligations[:6]:
        lim = 1 << (w - 1)
        if type(f) is int:
            continue
        pts = []
        if f.hi >= lim:
            pts += [(lim,), (lim + (f.hi - lim) // 8,)]
        if f.lo < -lim:
            pts += [(-lim - 1,), (-lim - 1 + (f.lo + lim) // 8,)]
        H([f], pts, ('ob', f.key()))
    if L['olo'] is not None:
        for o, f in enumerate(out):
            if type(f) is Form and (f.lo < L['olo'] or f.hi > L['ohi']):
                pts = [(L['olo'] - 1,)] if f.lo < L['olo'] else []
                pts += [(L['ohi'] + 1,)] if f.hi > L['ohi'] else []
                H([f], pts, ('o', o), each=5)
    try:
        pw = np.array([pow(psi, e, Q) for e in range(2 * n)], dtype=np.int64)
        S = pw[spec_exp(t, n)]
        for o, f in enumerate(out):
            r = C.res(f)
            v = np.zeros(n, dtype=np.int64) if type(r) is int else np.asarray(r[2], dtype=np.int64)
            if (v != S[o]).any():
                i = int(np.nonzero(v != S[o])[0][0])
                e = [0] * n
                e[i] = 1
                r = try_list(so, pid, t, [(n, psi, e)])
                if r:
                    raise FoundT(r)
    except (Unsupported, RingError):
        pass
    return C, out


def branchy(chk, L, n, rng, rts):
    """inputs (and roots) that take either side of the data-dependent branches seen so far"""
    C, P = chk.last
    out = []
    sc = 3 if L['red'] else 1
    for r in history.branch_inputs(C, P, rng, time.time() + 30):
        ps = []
        for k, v in r.items():
            if k.startswith('psi^'):
                e = int(k[4:])
                ps += [p for p in (rts if len(rts) <= 512 else rng.sample(rts, 512)) if pow(p, e, Q) == v * sc % Q][:2]
        for psi in (ps or rts[:1] + rts[-1:] + [rng.choice(rts)])[:4]:
            out.append((n, psi, [r.get('a%d' % i, rng.randint(L['lo'], L['hi'])) for i in range(n)]))
    return out


def transform_goal(chk, pid, t, n):
    L = LIBT[pid]
    why = None
    C = None
    for rb in (4, 12):
        try:
            keep = []
            ring, C, out, funcs, steps = mono_run(chk, pid, t, n, rb, keep)
            why = check_mono(pid, t, n, ring, C, out)
            if why is None:
                w = validate_t(chk, pid, t, n, C, out)
                if w:
                    return undecided(w)
                if history.trigger(keep[0]):
                    r = history.explore(TransFamily(chk, pid), [t, n, roots(n)[0]], hist_seqs(pid, t, n), funcs)
                    if r:
                        return r
                return proved(funcs=funcs, detail='%d steps, %d atoms, outputs in [%d,%d]' % (
                    steps, len(C.atoms), min(f.lo for f in out), max(f.hi for f in out)))
        except (MemError, AbiError, Unsupported, RingError) as e:
            why = '%s: %s' % (type(e).__name__, e)
    so = native_t(chk, pid)
    rng = random.Random(SEED * 100 + n)
    rts = roots(n)
    r = try_list(so, pid, t, generic(L, n, rng, rts))
    if r is None:
        r = try_list(so, pid, t, branchy(chk, L, n, rng, rts))
    if r is None:
        # roots whose table holds a value the solver found to misbehave
        for psi in hot_roots(C, L, t, n, rts, rng):
            try:
                concrete_run(chk, pid, t, n, psi)
            except FoundT as e:
                r = e.args[0]
                break
            except (MemError, AbiError, Unsupported, RingError) as e:
                why += '; %s' % e
                r = try_list(so, pid, t, branchy(chk, L, n, rng, [psi]))
                if r:
                    break
    if r is None:
        r = ub_t(chk, pid, t, n, rng, rts)
    if r is None and 'MemError' in why:
        a = [rng.randint(L['lo'], L['hi']) for _ in range(n)]
        g = out_of_bounds(bad_t, so, pid, t, n, rts[0], a)
        if g:
            return violated('%s n=%d accesses memory outside its arrays (%s)' % (L['name'](t), n, why),
                            dict(kind='transform', module='transforms', pid=pid, t=t, n=n, psi=rts[0], a=a, guard=g))
    if r:
        n2, psi, a, w = r
        return violated('%s n=%d psi=%d: %s (%s)' % (L['name'](t), n2, psi, w, why),
                        dict(kind='transform', module='transforms', pid=pid, t=t, n=n2, psi=psi, a=a))
    return undecided(why)


def hot_roots(C, L, t, n, rts, rng):
    """roots to try, best first: the table must contain factors that the solver's models blame"""
    hot = set()
    if C is not None:
        for bases, pts in C.suspects:
            for b, col in zip(bases, zip(*pts) if pts else ()):
                if len(b.t) == 1:
                    (i, k), = b.t.items()
                    a = C.atoms[i]
                    if a.kind == 'prod':
                        for f in (C.form_by_id(a.a[0]), C.form_by_id(a.a[1])):
                            if len(f.t) == 1 and next(iter(f.t)) in getattr(C, 'doms', {}):
                                g = C.form_by_id(a.a[1]) if f is C.form_by_id(a.a[0]) else C.form_by_id(a.a[0])
                                for v in col[:200]:
                                    v = (v - b.c) // k
                                    for w in C.doms[next(iter(f.t))]:
                                        if w and v % w == 0 and g.lo <= v // w <= g.hi:
                                            hot.add(w)
    score = []
    samp = rts if len(rts) <= 256 else rng.sample(rts, 256)
    for psi in samp:
        s = len(hot & set(concrete_table(L, t, n, psi))) if hot else 0
        score.append((-s, rng.random(), psi))
    score.sort()
    return [p for _, _, p in score[:3]]


UB_T = r'''
import sys, ctypes, json
so, fn, red, q = sys.argv[1:5]
f = getattr(ctypes.CDLL(so), fn); f.restype = None
for line in sys.stdin:
    n, psi, tab, a = json.loads(line)
    A = (ctypes.c_int32 * n)(*a); T = ((ctypes.c_int16 if red == '1' else ctypes.c_uint16) * n)(*tab)
    sys.stderr.write('IN %s\n' % json.dumps([n, psi, a])); sys.stderr.flush()
    f(*([A, ctypes.c_uint32(n), T] + ([ctypes.c_int32(12289)] if q == '1' else [])))
'''


def ub_t(chk, pid, t, n, rng, rts):
    import subprocess
    L = LIBT[pid]
    if L.get('asm'):
        return None
    so = native_t(chk, pid, ('-O1', '-g', '-fsanitize=undefined', '-fno-sanitize-recover=undefined', '-static-libubsan'), 'ub')
    inp = ''.join(json.dumps([n, psi, concrete_table(L, t, n, psi), [int(x) for x in a]]) + '\n'
                  for _, psi, a in generic(L, n, rng, rts, 20))
    try:
        r = subprocess.run([sys.executable, '-c', UB_T, so, L['name'](t), str(int(L['red'])), str(int(L['q']))], input=inp.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return None
    err = r.stderr.decode(errors='replace').split('\n')
    msg = [l for l in err if 'runtime error' in l]
    if not msg:
        return None
    cur = [l for l in err if l.startswith('IN ')][-1]
    n, psi, a = json.loads(cur[3:])
    return n, psi, a, msg[0]


def validate_t(chk, pid, t, n, C, out):
    L = LIBT[pid]
    so = native_t(chk, pid)
    rng = random.Random(SEED + n)
    rts = roots(n)
    exps = table_exp(t, n)
    for rep in range(2):
        psi = rng.choice(rts)
        a = [rng.randint(L['lo'], L['hi']) for _ in range(n)]
        env = {'a%d' % i: x for i, x in enumerate(a)}
        tab = concrete_table(L, t, n, psi)
        for i, e in enumerate(exps):
            if e is None:
                env['p%d' % i] = tab[i]
            else:
                env['psi^%d' % (e % (2 * n))] = tab[i]
        ev = C.evaluate(out, env)
        st, nat = in_child(run_t, so, pid, t, n, tab, a)
        if st != 'ok' or nat is None or list(map(int, nat)) != ev:
            return 'encoding disagrees with the compiled code on a concrete input (%s)' % st
    return None


# ------------------------------------------------------------------ histories
def hist_seqs(pid, t, n):
    L = LIBT[pid]
    lo = 16 if L.get('asm') else 2
    r = roots(n)
    p1, p2 = r[0], pow(r[0], -1, Q)
    out = [[[t, n, p2], [t, n, p1]], [[t, n, p1], [t, n, p1]]]
    m = n // 2 if n // 2 >= lo else 2 * n
    out.append([[t, m, roots(m)[0]], [t, n, p1]])
    for u in TR:
        if u != t:
            out.append([[u, n, p2], [t, n, p1]])
    out.append([[t, n, p2], [t, n, p1], [t, n, p2]])
    return out


class TransFamily(history.Family):
    def __init__(self, chk, pid):
        self.chk, self.pid, self.L = chk, pid, LIBT[pid]
        self.so = native_t(chk, pid)

    def ring(self, k):
        return VecRing(4096 if k == 1 else 8192)

    def program(self, C):
        P, _ = setup_program(self.chk, C, self.pid)
        P.tabs = {}
        return P

    def call(self, C, P, ring, key, j, k):
        t, n, psi = key
        L = self.L
        # unknown i of the last call is i, of earlier calls 4096+i (their mutual distinction is irrelevant)
        base = 0 if j == k - 1 else 4096
        a = [C.input('j%d_a%d' % (j, i), L['lo'], L['hi'], ring.unit(base + i)) for i in range(n)]
        A = P.array('a', a, 4)
        tab = [x & 0xffff for x in concrete_table(L, t, n, psi)]
        T = P.tabs.get((t, n))
        if T is None:
            T = P.tabs[(t, n)] = P.array('p', tab, 2)
        for i, x in enumerate(tab):
            T.cells[2 * i] = (2, x)
        P.call(L['name'](t), [Ptr(A, 0), n, Ptr(T, 0)] + ([Q] if L['q'] else []))
        return [C.sval(force(x), 32) for x in P.read_array(A, n)]

    def judge(self, C, ring, key, out):
        t, n, psi = key
        L = self.L
        pw = np.array([pow(psi, e, Q) for e in range(2 * n)], dtype=np.int64)
        S = pw[spec_exp(t, n)]
        for o, f in enumerate(out):
            r = C.res(f)
            v = np.zeros(8192, dtype=np.int64) if type(r) is int else np.asarray(r[2], dtype=np.int64)
            if (type(r) is not int and r[1]) or (v[:n] != S[o]).any() or v[n:].any():
                return 'element %d is wrong' % o
            if L['olo'] is not None and (f.lo < L['olo'] or f.hi > L['ohi']):
                return 'element %d out of range' % o
        return None

    def compatible(self, x, y):
        return x[1] == y[1]

    def fill(self, key, part, rng):
        return dict(a=[part['a%d' % i] if 'a%d' % i in part else rng.randint(self.L['lo'], self.L['hi']) for i in range(key[1])])

    def native(self, seq):
        for i, (key, x) in enumerate(seq):
            t, n, psi = key
            w = bad_t(self.so, self.pid, t, n, psi, x['a'], shared=True)
            if w:
                return 'call %d, %s n=%d psi=%d: %s' % (i + 1, self.L['name'](t), n, psi, w)
        return None

    def replay(self):
        return dict(module='transforms', pid=self.pid)


def replay(d):
    chk = Check(d['property'], 'replay')
    if d['kind'] == 'history':
        fam = TransFamily(chk, d['pid'])
        st, v = in_child(fam.native, [(k, x) for k, x in d['seq']])
        return v if st == 'ok' else st
    so = native_t(chk, d['pid'])
    w = confirm_t(so, d['pid'], d['t'], d['n'], d['psi'], d['a'])
    if not w:
        L = LIBT[d['pid']]
        r = ub_t(chk, d['pid'], d['t'], d['n'], random.Random(1), [d['psi']])
        w = r and r[3]
    return w


def main(pid):
    L = LIBT[pid]
    chk = Check(pid, 'symbolic execution of %s with the table as symbolic powers of psi (all roots at once), SMT lemmas per reduction, exact comparison with the transform matrix over Z_Q[psi]/(psi^n+1)'
                % ('the AVX2 object code' if L.get('asm') else 'the compiled IR'))
    sizes = [n for n in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048) if n <= L.get('max', 2048) and n >= (16 if L.get('asm') else 2)]
    chk.bounds = dict(sizes=sizes, inputs='all inputs in [%d,%d]' % (L['lo'], L['hi']), roots='all psi with psi^n=-1 mod 12289')
    chk.assumptions = ['the array and the table do not overlap', 'clang -O0 IR and gcc -O3 code agree on code without undefined behaviour']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py']
    for f in L['files']:
        chk.S.ir(f)
    native_t(chk, pid)
    if L.get('asm'):
        chk.asm()
    for t in TR + L['extra']:
        for n in sizes:
            chk.goal('%s n=%d' % (L['name'](t), n), transform_goal, weight=n, pid=pid, t=t, n=n)
    return chk.run()
