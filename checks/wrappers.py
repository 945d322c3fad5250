"""C09: the per-size transforms (header wrappers + generated tables)."""
from common import *
import products, history, cex
from products import LIBS
from transforms import rev
from reach import Reach

LIBW = {
    'default': dict(pre='', mid='ntt%d', suf='', hdr='ntt%d.h', lo=0, hi=Q - 1, olo=0, ohi=Q - 1),
    'naive': dict(pre='naive_', mid='ntt%d', suf='', hdr='naive_ntt%d.h', lo=0, hi=Q - 1, olo=1 - Q, ohi=Q - 1),
    'red': dict(pre='', mid='ntt_red%d', suf='', hdr='ntt_red%d.h', lo=-21499, hi=21499, olo=None, ohi=None),
    'avx2': dict(pre='', mid='ntt_red%d', suf='_asm', hdr='ntt_red_asm%d.h', lo=-21499, hi=21499, olo=None, ohi=None),
}
W = ['mulntt:ct:std2rev', 'mulntt:ct:rev2std'] + ['ntt:%s:%s' % (m, o) for m in ('ct', 'gs') for o in ('rev2std', 'std2rev')] + \
    ['intt:%s:%s' % (m, o) for m in ('ct', 'gs') for o in ('rev2std', 'std2rev')] + ['inttmul:gs:rev2std', 'inttmul:gs:std2rev']


def wname(lib, n, w):
    k, m, o = w.split(':')
    L = LIBW[lib]
    mid = L['mid'] % n
    head = {'ntt': mid, 'intt': 'i' + mid, 'mulntt': 'mul' + mid, 'inttmul': 'inttmul' + mid[3:]}[k]
    return L['pre'] + head + '_' + m + '_' + o + L['suf']


def matrix(w, n, psi):
    """M[o][i]: coefficient of array element i in array element o"""
    k, m, o = w.split(':')
    l = n.bit_length() - 1
    R = np.array([rev(i, l) for i in range(n)])
    I = np.arange(n)
    si = R if o == 'rev2std' else I
    so = R if o == 'std2rev' else I
    E = 2 * np.outer(so, si)
    if k == 'mulntt':
        E = E + si[None, :]
    if k == 'inttmul':
        E = E + so[:, None]
    if k.startswith('i'):
        E = -E
    pw = np.array([pow(psi, e, Q) for e in range(2 * n)], dtype=np.int64)
    return pw[E % (2 * n)]


def wrapper_src(chk, lib, n):
    p = os.path.join(chk.S.src, 'verif_w_%s_%d.c' % (lib, n))
    if not os.path.exists(p):
        with open(p + '.tmp', 'w') as f:
            f.write('#include <stdint.h>\n#include "%s"\n' % (LIBW[lib]['hdr'] % n))
            for w in W:
                f.write('void w_%s(int32_t *a) { %s(a); }\n' % (w.replace(':', '_'), wname(lib, n, w)))
        os.rename(p + '.tmp', p)
    return 'verif_w_%s_%d.c' % (lib, n)


def native_w(chk, lib, n, flags=('-O3',), tag=''):
    files = list(LIBS[lib]['files'](n)) + [wrapper_src(chk, lib, n)] + (['ntt_asm.S'] if lib == 'avx2' else [])
    return chk.native(files, 'wr_%s_%d%s' % (lib, n, tag), flags)


def run_w(so, w, a):
    f = getattr(ctypes.CDLL(so), 'w_' + w.replace(':', '_'))
    f.restype = None
    r, wh, v = guarded(a)
    pre = wh.copy()
    f(vp(v))
    if (wh[:64] != pre[:64]).any() or (wh[-64:] != pre[-64:]).any():
        return None
    return v.copy()


_M = {}


def bad_w(so, lib, n, psi, w, a):
    out = run_w(so, w, a)
    if out is None:
        return 'writes outside its array'
    key = (w, n, psi)
    if key not in _M:
        _M[key] = matrix(w, n, psi)
    ref = mat_mod(_M[key], (np.asarray(a, dtype=np.int64) % Q)[:, None])[:, 0]
    d = np.nonzero((out.astype(np.int64) - ref) % Q)[0]
    nm = wname(lib, n, w)
    if len(d):
        return '%s: element %d is %d, expected %d modulo Q (psi = %d)' % (nm, d[0], out[d[0]], ref[d[0]], psi)
    L = LIBW[lib]
    if L['olo'] is not None:
        d = np.nonzero((out < L['olo']) | (out > L['ohi']))[0]
        if len(d):
            return '%s: element %d is %d, out of range' % (nm, d[0], out[d[0]])
    return None


def first(so, lib, n, psi, w, cands, limit):
    t0 = time.time()
    for a in cands:
        x = bad_w(so, lib, n, psi, w, a)
        if x:
            return [int(y) for y in a], x
        if time.time() - t0 > limit:
            break
    return None


def native_psi(so, n):
    """psi as exhibited by mulntt_ct_std2rev on X: element 0 is psi"""
    e = [0] * n
    e[1] = 1
    out = run_w(so, 'mulntt:ct:std2rev', e)
    return int(out[0]) % Q


def program(chk, C, lib, n):
    P = chk.program(C, LIBS[lib]['files'](n) + [wrapper_src(chk, lib, n)])
    M = products.link_asm(chk, P) if lib == 'avx2' else None
    return P, M


def sym_w(chk, lib, n, w, eager=False, on=None):
    L = LIBW[lib]
    ring = VecRing(n)
    C = Ctx(ring, seed=SEED, round_bits=4)
    C.eager = eager
    if on:
        C.on_suspect = on(C)
    elif not eager:
        C.max_opaque = 40
    P, M = program(chk, C, lib, n)
    a = [C.input('a%d' % i, L['lo'], L['hi'], ring.unit(i)) for i in range(n)]
    A = P.array('a', a, 4)
    P.call('w_' + w.replace(':', '_'), [Ptr(A, 0)])
    out = [C.sval(force(x), 32) for x in P.read_array(A, n)]
    funcs = dict(P.funcs_run)
    if M:
        funcs.update(M.seen)
    return ring, C, P, out, funcs


class FoundW(Exception):
    pass


class HunterW:
    def __init__(self, so, lib, n, psi, w, C):
        self.so, self.lib, self.n, self.psi, self.w, self.C = so, lib, n, psi, w, C
        self.rng = random.Random(SEED * 3 + n)
        self.per, self.spent, self.busy = {}, 0, False

    def __call__(self, bases, pts, shape=None, each=10):
        if self.busy or self.spent > 60 or self.per.get(shape, 0) >= 3 or not pts:
            return
        self.busy = True
        self.per[shape] = self.per.get(shape, 0) + 1
        L = LIBW[self.lib]
        t0 = time.time()
        try:
            pts = sorted(set(pts), key=lambda p: sum(abs(x) for x in p))
            pts = pts[:12] + [self.rng.choice(pts) for _ in range(12)]
            cands = []
            for rep in range(4):
                for p in pts:
                    r = Reach(self.C, self.rng, t0 + each).solve(list(zip(bases, p)))
                    if r is not None:
                        cands.append([r.get('a%d' % i, self.rng.choice((0, L['hi'], L['lo']))) for i in range(self.n)])
                    if time.time() - t0 > each or len(cands) >= 30:
                        break
            st, v = in_child(first, self.so, self.lib, self.n, self.psi, self.w, cands, 20, timeout=60)
            if st == 'ok' and v:
                raise FoundW(v)
        finally:
            self.spent += time.time() - t0
            self.busy = False


class WFamily(history.Family):
    def __init__(self, chk, lib, n, psi):
        self.chk, self.lib, self.n, self.psi = chk, lib, n, psi
        self.so = native_w(chk, lib, n)

    def ring(self, k):
        return VecRing(2 * self.n)

    def program(self, C):
        return program(self.chk, C, self.lib, self.n)[0]

    def call(self, C, P, ring, key, j, k):
        n, L = self.n, LIBW[self.lib]
        base = 0 if j == k - 1 else n
        a = [C.input('j%d_a%d' % (j, i), L['lo'], L['hi'], ring.unit(base + i)) for i in range(n)]
        A = P.array('a', a, 4)
        P.call('w_' + key.replace(':', '_'), [Ptr(A, 0)])
        return [C.sval(force(x), 32) for x in P.read_array(A, n)]

    def judge(self, C, ring, key, out):
        return judge_w(C, self.lib, self.n, self.psi, key, out)[0]

    def compatible(self, x, y):
        return True

    def fill(self, key, part, rng):
        L = LIBW[self.lib]
        return dict(a=[part['a%d' % i] if 'a%d' % i in part else rng.randint(L['lo'], L['hi']) for i in range(self.n)])

    def native(self, seq):
        for i, (k, x) in enumerate(seq):
            w = bad_w(self.so, self.lib, self.n, self.psi, k, x['a'])
            if w:
                return 'call %d: %s' % (i + 1, w)
        return None

    def replay(self):
        return dict(module='wrappers', lib=self.lib, n=self.n, psi=self.psi)


def judge_w(C, lib, n, psi, w, out):
    L = LIBW[lib]
    S = matrix(w, n, psi)
    for o, f in enumerate(out):
        r = C.res(f)
        v = np.zeros(n, dtype=np.int64) if type(r) is int else np.asarray(r[2], dtype=np.int64)
        if (type(r) is int and r) or (type(r) is not int and r[1]):
            return 'element %d has a constant part' % o, [[0] * n]
        if v[n:].any():
            return 'element %d depends on an earlier call' % o, []
        if (v[:n] != S[o]).any():
            i = int(np.nonzero(v[:n] != S[o])[0][0])
            e = [0] * n
            e[i] = 1
            return 'element %d has a wrong coefficient for input %d' % (o, i), [e]
        if L['olo'] is not None:
            lo, hi = (f, f) if type(f) is int else (f.lo, f.hi)
            if lo < L['olo'] or hi > L['ohi']:
                return 'element %d only known to be in [%d,%d]' % (o, lo, hi), []
    return None, []


def generic(L, n, rng):
    lo, hi = L['lo'], L['hi']
    for v in (1, hi, lo, (lo + hi) // 2 + 1):
        yield [v] * n
    for i in range(n):
        a = [0] * n
        a[i] = 1
        yield a
    for _ in range(60):
        yield [rng.randint(lo, hi) for _ in range(n)]
        yield [rng.choice((lo, hi)) for _ in range(n)]


def wrapper_goal(chk, lib, n, w):
    L = LIBW[lib]
    so = native_w(chk, lib, n)
    st, psi = in_child(native_psi, so, n)
    if st != 'ok':
        if st in ('signal', 'timeout'):
            return violated('%s: %s' % (wname(lib, n, W[0]), st), dict(kind='wrapper', module='wrappers', lib=lib, n=n, psi=1, w=W[0], a=[0, 1] + [0] * (n - 2)))
        return undecided(str(psi))
    if pow(psi, n, Q) != Q - 1:
        e = [0] * n
        e[1] = 1
        return violated('%s: the coefficient of X in value 0 is %d, which is no root of X^%d+1' % (wname(lib, n, W[0]), psi, n),
                        dict(kind='wrapper', module='wrappers', lib=lib, n=n, psi=None, w=W[0], a=e))
    why, wit = None, []
    try:
        ring, C, P, out, funcs = sym_w(chk, lib, n, w)
        why, wit = judge_w(C, lib, n, psi, w, out)
        if not why and C.obligations:
            why = 'possible overflow: %s' % (C.obligations[0][:2],)
        if not why:
            rng = random.Random(SEED + n)
            for rep in range(2):
                a = [rng.randint(L['lo'], L['hi']) for _ in range(n)]
                ev = C.evaluate(out, {'a%d' % i: x for i, x in enumerate(a)})
                st, nat = in_child(run_w, so, w, a)
                if st != 'ok' or nat is None or list(map(int, nat)) != ev:
                    return undecided('encoding disagrees with the compiled code on a concrete input (%s)' % st)
            if history.trigger(P):
                r = history.explore(WFamily(chk, lib, n, psi), w, [[u, w] for u in W] + [[w, w, w]], funcs)
                if r:
                    return r
            return proved(funcs=funcs, detail='psi=%d, %d steps' % (psi, P.steps))
    except (MemError, AbiError, Unsupported, RingError) as e:
        why = '%s: %s' % (type(e).__name__, e)
    rng = random.Random(SEED * 7 + n)
    cands = list(wit) + list(generic(L, n, rng))
    cands += [[r.get('a%d' % i, rng.randint(L['lo'], L['hi'])) for i in range(n)] for r in history.branch_inputs(*chk.last, rng, time.time() + 30)]
    st, v = in_child(first, so, lib, n, psi, w, cands, 60, timeout=100)
    if st in ('signal', 'timeout'):
        return violated('%s: %s (%s)' % (wname(lib, n, w), st, why), dict(kind='wrapper', module='wrappers', lib=lib, n=n, psi=psi, w=w, a=[int(x) for x in cands[0]]))
    if st != 'ok' or not v:
        v = None
        try:
            H = []

            def on(C):
                H.append(HunterW(so, lib, n, psi, w, C))
                return H[0]
            ring, C, P, out, funcs = sym_w(chk, lib, n, w, True, on)
            H[0].per.clear()
            H[0].spent = 0
            for what, where, f, wd in C.obligations[:6]:
                lim = 1 << (wd - 1)
                if type(f) is not int:
                    pts = [(lim,)] if f.hi >= lim else []
                    pts += [(-lim - 1,)] if f.lo < -lim else []
                    H[0]([f], pts, ('ob', f.key()))
            if L['olo'] is not None:
                for o, f in enumerate(out):
                    if type(f) is Form and (f.lo < L['olo'] or f.hi > L['ohi']):
                        H[0]([f], ([(L['olo'] - 1,)] if f.lo < L['olo'] else []) + ([(L['ohi'] + 1,)] if f.hi > L['ohi'] else []), ('o', o), each=5)
        except FoundW as e:
            v = e.args[0]
        except (MemError, AbiError, Unsupported, RingError) as e:
            why += '; %s' % e
    if not v and 'MemError' in why:
        a = [rng.randint(L['lo'], L['hi']) for _ in range(n)]
        g = out_of_bounds(bad_w, so, lib, n, psi, w, a)
        if g:
            return violated('%s accesses memory outside its array (%s)' % (wname(lib, n, w), why),
                            dict(kind='wrapper', module='wrappers', lib=lib, n=n, psi=psi, w=w, a=a, guard=g))
    if v:
        return violated('%s (%s)' % (v[1], why), dict(kind='wrapper', module='wrappers', lib=lib, n=n, psi=psi, w=w, a=v[0]))
    return undecided(why)


def consistency_goal(chk, lib, n):
    """algebra: the matrices proved for the wrappers compose to n times the identity"""
    so = native_w(chk, lib, n)
    st, psi = in_child(native_psi, so, n)
    if st != 'ok' or pow(psi, n, Q) != Q - 1:
        return undecided('no psi')
    for f, g in (('ntt', 'intt'), ('mulntt', 'inttmul')):
        for o in ('rev2std', 'std2rev'):
            o2 = 'std2rev' if o == 'rev2std' else 'rev2std'
            F, G = matrix('%s:x:%s' % (f, o), n, psi), matrix('%s:x:%s' % (g, o2), n, psi)
            if (mat_mod(G, F) != n * np.eye(n, dtype=np.int64)).any():
                return undecided('the documented matrices are not inverse to each other')
    return proved(detail='psi=%d' % psi)


def replay(d):
    chk = Check(d['property'], 'replay')
    so = native_w(chk, d['lib'], d['n'])
    if d['kind'] == 'history':
        st, v = in_child(WFamily(chk, d['lib'], d['n'], d['psi']).native, [(k, x) for k, x in d['seq']])
        return v if st == 'ok' else st
    if d['psi'] is None:
        st, psi = in_child(native_psi, so, d['n'])
        return None if st == 'ok' and pow(psi, d['n'], Q) == Q - 1 else 'not a root: %s' % psi
    st, v = in_child(bad_w, so, d['lib'], d['n'], d['psi'], d['w'], d['a'])
    return v if st == 'ok' else st


def main(pid):
    chk = Check(pid, 'symbolic execution of the per-size transforms (IR, AVX2 object code) with the generated tables, SMT lemmas per reduction, exact comparison with the transform matrix')
    chk.bounds = dict(sizes=list(SIZES), implementations=list(LIBW), transforms=W, inputs='all inputs in [0,12288] (default, naive) or [-21499,21499] (shift reduction, AVX2)')
    chk.assumptions = ['clang -O0 IR and gcc -O3 code agree on code without undefined behaviour',
                       'psi is read off the compiled mulntt_ct_std2rev (coefficient of X in value 0) and then every routine is proved for that psi']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py', 'numpy float64 matrix product below 2^53']
    chk.asm()
    for n in SIZES:
        for lib in LIBW:
            for f in LIBS[lib]['files'](n) + [wrapper_src(chk, lib, n)]:
                chk.S.ir(f)
            native_w(chk, lib, n)
            chk.goal('%s n=%d inverse' % (lib, n), consistency_goal, weight=1, lib=lib, n=n)
            for w in W:
                chk.goal(wname(lib, n, w), wrapper_goal, weight=n, lib=lib, n=n, w=w)
    return chk.run()
