"""C22: the annotated verification programs (verifier/vstte20-benchmarks): their assertions hold, nothing overflows, and the
transforms they exercise agree modulo Q with the library's transforms."""
import shutil, subprocess, glob, re
from common import *
from build import sh
from reach import Reach

BDIR = os.path.join('verifier', 'vstte20-benchmarks')
FLAGS = ['-UNDEBUG', '-DSAFE']
MODES = {'plain': [], 'intrinsic': ['-DUSE_CRAB_INTRINSICS']}


class Spurious(Exception):
    pass


def setup(chk):
    d = os.path.join(chk.S.dir, 'bench')
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(build.REPO, BDIR), d, ignore=shutil.ignore_patterns('*.o', '*.bc', '*.ll', 'ntt_red1024_tables.*'))
        sh(['gcc', '-w', '-std=c99', '-O1', '-o', 'make_red_tables', 'make_red_tables.c'], cwd=d)
        sh(['./make_red_tables', '1024', '1014'], cwd=d)
    return d


def harnesses():
    return sorted(os.path.basename(f)[:-2] for f in glob.glob(os.path.join(build.REPO, BDIR, 'harness_*.c')))


def inputs_of(C, v):
    """0/1 condition -> list of (input atom, lo, hi) it implies, or None"""
    if type(v) is int:
        return [] if v else None
    if len(v.t) != 1:
        return None
    (i, k), = v.t.items()
    a = C.atoms[i]
    if a.kind != 'lt0':
        return None
    f = C.form_by_id(a.a[0])
    if len(f.t) != 1:
        return None
    (j, m), = f.t.items()
    if C.atoms[j].kind != 'in' or abs(m) != 1:
        return None
    if (v.c, k) == (0, 1):         # f < 0
        m, c = -m, -f.c - 1        # m*x + c >= 0
    elif (v.c, k) == (1, -1):      # f >= 0
        c = f.c
    else:
        return None
    return [(j, -c, None)] if m == 1 else [(j, None, c)]


class Run:
    """one execution of a benchmark program; rng = ranges of the successive int_nd() values (None: first pass)"""

    def __init__(self, chk, h, mode, rng):
        self.ring = VecRing(len(rng)) if rng and len(rng) <= 1100 else None
        self.C = C = Ctx(ring=self.ring, round_bits=16)
        self.P = P = Program(C)
        chk.last = (C, P)
        self.d = d = setup(chk)
        fl = FLAGS + MODES[mode]
        self.hm = P.add_module(chk.S.ir(h + '.c', fl, src=d), h + '.c')
        P.add_module(chk.S.ir('ntt_red.c', fl, src=d), 'bench/ntt_red.c')
        P.add_module(chk.S.ir('ntt_red1024_tables.c', fl, src=d), 'ntt_red1024_tables.c')
        self.L = Program(C)
        self.L.add_module(chk.S.ir('ntt_red.c'), 'ntt_red.c')
        self.rng, self.names, self.asserts, self.nassert = rng, [], [], 0
        self.calls = []
        self.bounds = {}
        P.ext.update({'int_nd': self.nd, '__CRAB_assume': self.assume, '__CRAB_assert': self.claim, '__CRAB_intrinsic_red': self.red,
                      '__assert_fail': self.afail})
        bm = P.mods[1]
        lm = self.L.mods[0]
        for nm, f in bm.funcs.items():
            if nm in lm.funcs and len(f.params) == 3:
                P.ext[nm] = lambda P, a, nm=nm, bm=bm: self.transform(nm, bm, a)

    def nd(self, P, a):
        k = len(self.names)
        if self.rng is not None and k >= len(self.rng):
            raise Unsupported('the number of inputs depends on their values')
        lo, hi = self.rng[k] if self.rng is not None else (-1 << 31, (1 << 31) - 1)
        x = self.C.input('x%d' % k, lo, hi, self.ring.unit(k) if self.ring else None)
        self.names.append(x)
        if type(x) is Form:
            (i, _), = x.t.items()
            self.bounds[i] = [k, lo, hi]
        return x & 0xffffffff if type(x) is int else x

    def assume(self, P, a):
        C = self.C
        v = C.sval(a[0], 32)
        if type(v) is Form and v.c == 0 and len(v.t) == 1:
            pass
        if self.rng is not None:
            if type(v) is not int:
                raise Unsupported('assumption that is not a range of one input')
            if not v:
                raise Unsupported('contradictory assumptions')
            return None
        r = inputs_of(C, v)
        if r is None:
            raise Unsupported('assumption that is not a range of one input')
        for i, lo, hi in r:
            b = self.bounds[i]
            if lo is not None:
                b[1] = max(b[1], lo)
            if hi is not None:
                b[2] = min(b[2], hi)
        return None

    def claim(self, P, a):
        self.nassert += 1
        C = self.C
        if self.rng is None:
            return None
        v = C.sval(a[0], 32)
        if v == 1 or type(v) is Form and v.lo >= 1:
            return None
        if type(v) is Form and C.prove_cond(lambda z: z[0] != 0, [v], expand=1)[0] == 'unsat':
            return None
        self.asserts.append(v)
        return None

    def afail(self, P, a):
        self.asserts.append(0)
        return None

    def red(self, P, a):
        C = self.C
        z = a[0]
        r = C.sub(C.mul(C.bitand(z, 4095, 64), 3, 64), C.ashr(z, 12, 64), 64)
        r = C.sval(r, 64)
        return C.trunc(r, 32) if type(r) is Form else r & 0xffffffff

    def cells(self, p, n, k):
        return [self.P.load(Ptr(p.o, p.off + i * k), k) for i in range(n)]

    def transform(self, nm, bm, a):
        P, L = self.P, self.L
        if self.rng is None:
            return None             # first pass: only the inputs are wanted
        if type(a[1]) is not int:
            raise Unsupported('symbolic length')
        n = a[1]
        before = self.cells(a[0], n, 4), self.cells(a[2], n, 2)
        r = P.run(bm.funcs[nm], a)
        after = self.cells(a[0], n, 4)
        # the library's transform on the same values
        oa, op = Obj('a', 4 * n), Obj('p', 2 * n, const=True)
        for i in range(n):
            oa.cells[4 * i] = (4, before[0][i])
            op.cells[2 * i] = (2, before[1][i])
        k = len(self.C.obligations)
        L.run(L.mods[0].funcs[nm], [Ptr(oa, 0), n, Ptr(op, 0)])
        self.calls.append((nm, n, before, after, [L.load(Ptr(oa, 4 * i), 4) for i in range(n)]))
        self.libobl = len(self.C.obligations) - k
        return r

    def go(self):
        self.P.call('main', [])
        return self


def first_pass(chk, h, mode):
    r = Run(chk, h, mode, None).go()
    out = [None] * len(r.names)
    for k, lo, hi in r.bounds.values():
        out[k] = (lo, hi)
    return out


# ------------------------------------------------------------------ native
DRV = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
static FILE *f;
static long k;
int int_nd(void) {
  int x;
  if (f == NULL) f = fopen("inputs", "r");
  if (f == NULL || fscanf(f, "%d", &x) != 1) exit(7);
  return x;
}
void __CRAB_assume(int c) { if (!c) exit(0); }
void __CRAB_assert(int c) { k++; if (!c) { printf("assertion %ld fails\n", k); exit(5); } }
int32_t __CRAB_intrinsic_red(int64_t z) { return (int32_t) (3 * (z & 4095) - (z >> 12)); }
'''


def native(chk, h, mode):
    d = setup(chk)
    out = os.path.join(chk.S.dir, '%s.%s.exe' % (h, mode))
    if not os.path.exists(out):
        with open(os.path.join(d, 'drv_.c'), 'w') as f:
            f.write(DRV)
        sh(['gcc', '-w', '-std=c99', '-O1', '-fsanitize=signed-integer-overflow,bounds', '-fno-sanitize-recover=all', '-UNDEBUG', '-DSAFE'] + MODES[mode] +
           ['-o', out, h + '.c', 'ntt_red.c', 'ntt_red1024_tables.c', 'drv_.c'], cwd=d)
    return out


def nat_run(chk, h, mode, xs):
    exe = native(chk, h, mode)
    w = os.path.join(chk.S.dir, 'run.%d' % os.getpid())
    os.makedirs(w, exist_ok=True)
    with open(os.path.join(w, 'inputs'), 'w') as f:
        f.write(' '.join(map(str, xs)) + '\n')
    try:
        r = subprocess.run([exe], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        return 'does not terminate'
    finally:
        shutil.rmtree(w, ignore_errors=True)
    if r.returncode in (0, 7):
        return None
    t = r.stdout.decode(errors='replace').strip().split('\n')
    return t[-1 if r.returncode == 5 else 0][-200:] or 'exit status %d' % r.returncode


def nat_diff(chk, nm, n, a, p):
    """benchmark transform against the library transform, compiled"""
    d = setup(chk)
    so = os.path.join(chk.S.dir, 'bench_red.so')
    if not os.path.exists(so):
        with open(os.path.join(d, 'drv_.c'), 'w') as f:
            f.write(DRV)
        sh(['gcc', '-w', '-std=c99', '-O1', '-DSAFE', '-fPIC', '-shared', '-o', so + '.%d' % os.getpid(), 'ntt_red.c', 'drv_.c'], cwd=d)
        os.rename(so + '.%d' % os.getpid(), so)
    lib = chk.native(['ntt_red.c'], 'benchlib')
    outs = []
    for s in (so, lib):
        f = getattr(ctypes.CDLL(s), nm)
        f.restype = None
        r1, w1, v = guarded(a)
        r2, w2, q = guarded(p, np.int16)
        f(vp(v), ctypes.c_uint32(n), vp(q))
        outs.append([int(x) for x in v])
    for i, (x, y) in enumerate(zip(*outs)):
        if (x - y) % Q:
            return '%s: element %d is %d, the library gives %d (not congruent)' % (nm, i, x, y)
    return None


def cands(rngs, rng, C=None, goals=()):
    n = len(rngs)
    for pick in (lambda l, h: l, lambda l, h: h, lambda l, h: rng.choice((l, h)), lambda l, h: rng.choice((l, h)),
                 lambda l, h: rng.randint(l, h), lambda l, h: rng.randint(l, h), lambda l, h: rng.randint(max(l, h - 20), h)):
        yield [pick(l, h) for l, h in rngs]
    for g in goals:
        r = Reach(C, rng, time.time() + 4).solve(g)
        if r:
            yield [r.get('x%d' % i, rng.randint(*rngs[i])) for i in range(n)]
    for i in range(min(n, 40)):
        j = rng.randrange(n)
        for e in (0, 1):
            xs = [rng.choice((l, h)) if e else min(max(0, l), h) for l, h in rngs]
            xs[j] = rngs[j][e]
            yield xs


def extremes(C, f):
    """values a condition's form would have to take to fail: targets for the backward search"""
    out = []
    if type(f) is not Form:
        return out
    for i in f.t:
        a = C.atoms[i]
        if a.kind in ('lt0', 'eq0'):
            g = C.form_by_id(a.a[0])
            out += [[(g, v)] for v in (g.lo, g.hi, -1, 0) if g.lo <= v <= g.hi]
    return out


def same(C, ring, d):
    """is the difference d a multiple of Q for all inputs?"""
    if type(d) is int:
        return d % Q == 0
    if d.c % Q == 0 and all(k % Q == 0 for k in d.t.values()):
        return True
    if ring is not None:
        try:
            r = C.res(d)
            return r % Q == 0 if type(r) is int else r[1] % Q == 0 and not np.any(r[2])
        except Unsupported:
            pass
    return C.prove_cond(lambda z: z[0] % Q == 0, [d], expand=1)[0] == 'unsat'


def bench_goal(chk, h, mode):
    rngs = first_pass(chk, h, mode)
    R = Run(chk, h, mode, rngs).go()
    C = R.C
    why, goals = None, []
    if R.asserts:
        why = '%d of %d assertions not shown' % (len(R.asserts), R.nassert)
        for v in R.asserts[:10]:
            goals += extremes(C, v)
    elif C.obligations:
        why = 'possible signed overflow %s' % (C.obligations[0][:2],)
        for o in C.obligations[:10]:
            if type(o[2]) is Form:
                goals += [[(o[2], o[2].lo)], [(o[2], o[2].hi)]]
    diff = None
    for nm, n, before, after, lib in R.calls:
        for i in range(n):
            d = C.add_(C.sval(after[i], 32), C.sval(lib[i], 32), -1)
            if d != 0 and not same(C, R.ring, d):
                diff = (nm, n, before, i)
                why = why or '%s element %d not shown congruent to the library' % (nm, i)
                break
        if diff:
            break
    funcs = dict(R.P.funcs_run)
    if why is None:
        return proved(funcs=funcs, detail='%d inputs, %d assertions, %d transforms' % (len(rngs), R.nassert, len(R.calls)))
    rng = random.Random(SEED * 7 + len(h))
    t0 = time.time()
    for xs in cands(rngs, rng, C, goals):
        w = nat_run(chk, h, mode, xs)
        if w:
            return violated('%s (%s): %s' % (h, mode, w), dict(kind='bench', module='benchprog', h=h, mode=mode, xs=xs))
        if diff:
            env = {'x%d' % i: v for i, v in enumerate(xs)}
            nm, n, before, _ = diff
            fs = [C.sval(x, 32) for x in before[0]] + [C.sval(x, 16) for x in before[1]]
            vals = C.evaluate(fs, env)
            a, p = [int(x) for x in vals[:n]], [int(x) for x in vals[n:]]
            st, w = in_child(nat_diff, chk, nm, n, a, p)
            if st == 'ok' and w:
                return violated('%s (%s): %s' % (h, mode, w), dict(kind='bench', module='benchprog', fn=nm, n=n, a=a, p=p))
        if time.time() - t0 > 120:
            break
    return undecided(why)


def replay(d):
    chk = Check(d['property'], 'replay')
    if 'fn' in d:
        st, w = in_child(nat_diff, chk, d['fn'], d['n'], d['a'], d['p'])
        return w if st == 'ok' else st
    return nat_run(chk, d['h'], d['mode'], d['xs'])


def main(pid):
    chk = Check(pid, 'symbolic execution of the annotated programs (IR of the current tree) over all inputs their assumptions admit; value ranges and residues of every reduction by SMT lemmas; assertions, absence of overflow and congruence with the library transforms as goals')
    hs = harnesses()
    chk.bounds = dict(programs=hs, inputs='all values the programs assume (arrays of 1024)', variants=list(MODES))
    chk.assumptions = ['built with -DSAFE, as the Makefile of the benchmarks does', 'the analysis intrinsic red(z) denotes 3*(z & 4095) - (z >> 12)',
                       'tables: as printed by the make_red_tables of the benchmarks for 1024 1014']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py']
    d = setup(chk)
    chk.S.ir('ntt_red.c')
    for m in MODES:
        for f in hs + ['ntt_red', 'ntt_red1024_tables']:
            chk.S.ir(f + '.c', FLAGS + MODES[m], src=d)
        for h in hs:
            chk.goal('%s %s' % (h, m), bench_goal, h=h, mode=m)
    return chk.run()
