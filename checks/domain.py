"""C23 (the verifier's abstract domain): path-exhaustive symbolic execution of verifier/src/ntt_intervals.cpp compiled against
stand-ins for crab (stubs/): numbers are 64-bit integers, the base interval domain is an uninterpreted state."""
from common import *
from zpath import *
from intervals import explore, redp, redz
import z3, shutil, subprocess, ctypes, random
from build import sh, BuildError, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = os.path.join(HERE, 'stubs')
B = 2 ** 40
T62 = 2 ** 62
FL = ['-std=c++17', '-nostdinc++', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-w', '-Doverride=', '-Dfinal=', '-I' + os.path.join(STUB, 'inc')]
OPS = ['join', 'meet', 'widening', 'narrowing', 'widening with thresholds', 'join in place', 'meet in place', 'inclusion', 'make top', 'make bottom', 'set to top', 'set to bottom',
       'forget one variable', 'add constraints', 'assign', 'weak assign', 'arithmetic on variables', 'arithmetic with constant', 'integer conversion', 'bitwise on variables', 'bitwise with constant',
       'select', 'entailment', 'forget', 'project', 'rename', 'expand', 'interval of a variable', 'copy', 'assignment', 'move', 'default', 'normalize and minimize']
LEQ, ENTAILS, ISBOT, ISTOP = 4, 18, 26, 27
PRED = (LEQ, ENTAILS, ISBOT, ISTOP)


def srcdir():
    return os.path.join(REPO, 'verifier', 'src')


def ir(chk):
    out = os.path.join(chk.S.dir, 'domain.ll')
    if not os.path.exists(out):
        d = os.path.join(STUB, 'domain_driver.cpp')
        sh(['clang++'] + FL + ['-I' + srcdir(), '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', d, '-o', out + '.0'])
        sh(['opt-18' if shutil.which('opt-18') else 'opt', '-passes=cgscc(inline),function(sroa,simplifycfg),globaldce', '-S', out + '.0', '-o', out + '.1'])
        os.rename(out + '.1', out)
    return open(out).read()


def native(chk):
    out = os.path.join(chk.S.dir, 'domain.so')
    if not os.path.exists(out):
        o = os.path.join(chk.S.dir, 'domain')
        sh(['g++'] + FL + ['-I' + srcdir(), '-O2', '-fPIC', '-c', os.path.join(STUB, 'domain_driver.cpp'), '-o', o + '.o'])
        sh(['gcc', '-O2', '-fPIC', '-c', os.path.join(STUB, 'domain_native.c'), '-o', o + '.c.o'])
        sh(['gcc', '-shared', o + '.o', o + '.c.o', '-o', out + '.1'])
        os.rename(out + '.1', out)
    return out


# ------------------------------------------------------------------ engine side
def setup(chk):
    C = ZCtx()
    P = ZProgram(C)
    P.add_module(ir(chk), 'domain')
    F = z3.Function('mk', *[z3.IntSort()] * 6)
    G = z3.Function('itv', *[z3.IntSort()] * 4)

    def mk(P_, a):
        a = [C.sval(x, 64) for x in a]
        e = F(*[ex(x) for x in a])
        if type(a[0]) is int and a[0] in PRED:
            C.s.add(e >= 0, e <= 1)
            return Z(e, 0, 1)
        C.s.add(e >= -T62, e <= T62)
        return Z(e, -T62, T62)

    def itv(P_, a):
        t, v, w = [C.sval(x, 64) for x in a]
        g = [G(ex(t), ex(v), z3.IntVal(i)) for i in range(4)]
        C.s.add(g[0] >= -1, g[0] <= 0, g[2] >= 0, g[2] <= 1, g[1] >= -B, g[1] <= g[3], g[3] <= B)
        lo, hi = ((-1, 0), (-B, B), (0, 1), (-B, B))[w]
        return Z(g[w], lo, hi)
    P.ext['v_mk'] = mk
    P.ext['v_itv'] = itv
    P.ext['v_error'] = lambda P_, a: P.leave('error')
    for n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.experimental.noalias.scope.decl'):
        P.ext[n] = lambda P_, a: 0
    return C, P


def lib(so):
    L = ctypes.CDLL(so)
    for f in ('d_op', 'b_op', 'd_red'):
        getattr(L, f).restype = ctypes.c_int64
    return L


def q(x):
    return ctypes.c_int64(x)


VARS = ('ta', 'tb', 'p', 'q', 'r', 'k', 'v')


def nat_op(so, op, xs):
    L = lib(so)
    return L.d_op(q(op), *[q(x) for x in xs]), L.b_op(q(op), *[q(x) for x in xs])


def judge_op(so, op, xs):
    st, r = in_child(nat_op, so, op, list(xs), timeout=20)
    if st != 'ok':
        return '%s%s does not return (%s %s)' % (OPS[op], tuple(xs), st, r)
    return None if r[0] == r[1] else '%s%s differs from the same operation of the underlying interval domain' % (OPS[op], tuple(xs))


def op_goal(chk, op):
    C, P = setup(chk)
    so = native(chk)

    def body():
        xs = [C.input(n, *((-B, B) if n in ('ta', 'tb', 'k') else (0, 40))) for n in VARS]
        a = P.call('b_op', [op] + xs)
        b = P.call('d_op', [op] + xs)
        m = C.refute(ex(C.sval(a, 64)) == ex(C.sval(b, 64)))
        return ('ret', 'differs from the base domain', m) if m else None
    n, bad = explore(C, P, body)
    funcs = dict(P.funcs_run)
    rng = random.Random(SEED + op)
    if not bad:
        for _ in range(5):
            xs = [rng.randrange(40) for _ in VARS]
            w = judge_op(so, op, xs)
            if w:
                return violated(w, dict(kind='domain', module='domain', what_='op', op=op, xs=xs))
        return proved(funcs=funcs, detail='%d paths, %d queries' % (n, C.queries))
    for b in bad:
        m = b[2] if isinstance(b[2], dict) else {}
        base = [m.get(n, 3) for n in VARS]
        for t in range(120):
            xs = list(base)
            if t:
                xs[0], xs[1] = rng.randrange(-B, B), rng.randrange(-B, B)
            if t > 60:
                xs = [rng.randrange(40) for _ in VARS]
            w = judge_op(so, op, xs)
            if w:
                return violated('%s (%s)' % (w, b[1]), dict(kind='domain', module='domain', what_='op', op=op, xs=xs))
    return undecided('%s: %s (not reproduced on the compiled code)' % (OPS[op], bad[0][1]))


# ------------------------------------------------------------------ the reduction
class OUT(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int64) for n in ('bot', 'lk', 'l', 'uk', 'u')]


def nat_red(so, d):
    L = lib(so)
    ctypes.c_int64.in_dll(L, 'cfg_var').value = d['in']
    it = (ctypes.c_int64 * 4).in_dll(L, 'cfg_itv')
    for i, x in enumerate(d['itv']):
        it[i] = x
    ctypes.c_int64.in_dll(L, 'cfg_bot').value = d['bot']
    o = (OUT * 3)()
    r = L.d_red(q(d['t']), q(d['in']), q(d['res']), q(d['isvar']), q(d['k']), q(d['v']), o)
    return r, [tuple(getattr(x, f[0]) for f in OUT._fields_) for x in o]


def judge_red(so, d):
    st, r = in_child(nat_red, so, d, timeout=20)
    it = d['itv']
    what = 'red of %s%s' % ('%d' % d['k'] if not d['isvar'] else '[%s,%s]' % ('-oo' if it[0] else it[1], 'oo' if it[2] else it[3]), ' (unreachable state)' if d['bot'] else '')
    if st != 'ok':
        if not d['isvar'] and st == 'signal' and not d['bot']:
            return None
        return '%s does not return (%s %s)' % (what, st, r)
    rc, (i0, v0, v1) = r
    if rc >> 1:
        return None if rc & 1 else '%s becomes reachable' % what
    if rc & 1:
        return '%s: the state becomes unreachable' % what
    if d['v'] != d['res']:
        return None if v0 == v1 else '%s changes the interval of another variable from %s to %s' % (what, v0, v1)
    bot, lk, l, uk, u = v1
    if bot:
        return '%s is empty' % what
    lo, hi = (d['k'], d['k']) if not d['isvar'] else (-B if it[0] else it[1], B if it[2] else it[3])
    xs = {lo, hi, hi & ~4095, (hi & ~4095) - 1, lo | 4095, (lo | 4095) + 1, d.get('x', lo)}
    xs |= set(range(lo, min(hi, lo + 5000) + 1)) | set(range(max(lo, hi - 5000), hi + 1))
    xs = [x for x in xs if lo <= x <= hi]
    for x in xs:
        if not (lk == -1 or lk == 0 and l <= redp(x)) or not (uk == 1 or uk == 0 and redp(x) <= u):
            return '%s = [%s,%s] does not contain the value %d at %d' % (what, '-oo' if lk else l, 'oo' if uk else u, redp(x), x)
    if not d['isvar'] or it[0] or it[2]:
        return None
    if lk or uk:
        return '%s is unbounded' % what
    vals = [redp(x) for x in xs]
    if l < min(vals):
        return '%s: lower end %d is not attained (minimum %d)' % (what, l, min(vals))
    if u > max(vals):
        return '%s: upper end %d is not attained (maximum %d)' % (what, u, max(vals))
    return None


def red_goal(chk, isvar, same):
    C, P = setup(chk)
    so = native(chk)
    names = dict(t=(-B, B), res=(0, 40), k=(-B, B), v=(0, 40))
    names['in'] = (0, 40)

    def body():
        x = {n: C.input(n, *r) for n, r in names.items()}
        if same:
            x['res'] = x['in']
        o = P.array('o', [0] * 15, 8)
        try:
            rc = P.call('d_red', [x['t'], x['in'], x['res'], isvar, x['k'], x['v'], Ptr(o, 0)])
        except Leave as e:
            return None if not isvar and e.kind == 'error' else ('leave', e.kind, C.model())
        w = [ex(C.sval(y, 64)) for y in P.read_array(o, 15, 8)]
        i0, v0, v1 = w[:5], w[5:10], w[10:]
        for j, nm in enumerate(('bot0', 'lk0', 'l0', 'uk0', 'u0')):
            n = C.input(nm, -2 ** 63, 2 ** 63)
            C.s.add(n.e == i0[j])
        rc = ex(C.sval(rc, 64))
        was, now = rc >= 2, z3.Or(rc == 1, rc == 3)
        res, v = ex(x['res']), ex(x['v'])
        m = C.refute(was == now)
        if m:
            return ('ret', 'reachability of the state changes', m)
        if C.check(was) != z3.sat:
            pass
        elif C.check(z3.Not(was)) == z3.unsat:
            return None
        C.s.add(z3.Not(was))
        m = C.refute(z3.Implies(v != res, z3.And(*[a == b for a, b in zip(v0, v1)])))
        if m:
            return ('ret', 'another variable changes', m)
        if C.check(v == res) == z3.unsat:
            return None
        C.s.add(v == res)
        y = C.input('x', -B, B)
        if isvar:
            C.s.add(z3.Or(i0[1] == -1, i0[2] <= y.e), z3.Or(i0[3] == 1, y.e <= i0[4]))
        else:
            C.s.add(y.e == ex(x['k']))
        r = redz(C, y)
        bot, lk, l, uk, u = v1
        m = C.refute(z3.And(bot == 0, z3.Or(lk == -1, z3.And(lk == 0, l <= ex(r))), z3.Or(uk == 1, z3.And(uk == 0, ex(r) <= u))))
        if m:
            return ('ret', 'a value lies outside the result', m)
        if isvar:
            fin = z3.And(i0[1] == 0, i0[3] == 0)
            m = C.refute(z3.Implies(fin, z3.And(lk == 0, uk == 0)))
            if m:
                return ('ret', 'unbounded result', m)
            if C.check(fin) != z3.unsat:
                # the ends are attained: the extrema over the interval (closed form, proved in C15) are the ends
                a, b = Z(i0[2], -B, B), Z(i0[4], -B, B)
                d1 = C.mul_(C.div_(b, 4096), 4096)
                d1 = C.ite_(C.bool(d1.e >= a.e), d1, a)
                d2 = C.add_(C.mul_(C.div_(a, 4096), 4096), 4095)
                d2 = C.ite_(C.bool(d2.e <= b.e), d2, b)
                for d, end in ((d1, l), (d2, u)):
                    C.s.add(fin)
                    m = C.refute(z3.And(a.e <= ex(d), ex(d) <= b.e))
                    if m:
                        return ('spec', 'witness outside', m)
                    m = C.refute(ex(redz(C, d)) == end)
                    if m:
                        return ('ret', 'an end of the result is not attained', m)
        return None
    n, bad = explore(C, P, body)
    funcs = dict(P.funcs_run)

    def conc(m):
        d = {n: m.get(n, 0) for n in names}
        d.update(isvar=isvar, bot=1 if m.get('bot0') else 0, x=m.get('x', 0))
        d['itv'] = [m.get('lk0', 0), m.get('l0', 0), m.get('uk0', 0), m.get('u0', 0)]
        if same:
            d['res'] = d['in']
        return d

    def report(d, extra=''):
        w = judge_red(so, d)
        return w and violated(w + extra, dict(kind='domain', module='domain', what_='red', d=d))
    rng = random.Random(SEED)
    if not bad:
        for _ in range(8):
            l = rng.randrange(-B, B)
            m = dict(t=1, res=2, k=l, v=rng.choice((2, 3, 5)), l0=l, u0=min(B, l + rng.choice((0, 5, 4095, 5000, 10 ** 9))), x=l)
            m['in'] = 5
            r = report(conc(m))
            if r:
                return r
        return proved(funcs=funcs, detail='%d paths, %d queries' % (n, C.queries))
    for b in bad:
        if isinstance(b[2], dict):
            r = report(conc(b[2]), ' (%s)' % b[1])
            if r:
                return r
    return undecided('red: %s %s (not reproduced on the compiled code)' % (bad[0][0], bad[0][1]))


def replay(d):
    chk = Check(d['property'], 'replay', tables=False)
    so = native(chk)
    return judge_op(so, d['op'], d['xs']) if d['what_'] == 'op' else judge_red(so, d['d'])


def main(pid):
    chk = Check(pid, 'path-exhaustive symbolic execution of the domain\'s IR (z3, linear integer arithmetic and uninterpreted functions) against the base domain and the reduction', tables=False)
    chk.bounds = dict(interval_ends='finite ends in [-2^40, 2^40] or infinite', operations=OPS, variables='any; at most two per list')
    chk.assumptions = ['crab, boost and std are replaced by the stand-ins in stubs/: exact integers (64 bits suffice within the bounds), the base interval domain is an arbitrary state transformer with set, forget and read']
    chk.trusted = ['clang front end', 'z3', 'engine/llir.py', 'engine/zpath.py', 'stubs/']
    try:
        ir(chk)
        native(chk)
    except BuildError as e:
        print('the domain does not compile against the stand-ins: %s' % str(e)[-600:])
    for isvar, same in ((1, 0), (1, 1), (0, 0)):
        chk.goal('reduction of a %s%s' % ('variable' if isvar else 'constant', ' into itself' if same else ''), red_goal, weight=9, isvar=isvar, same=same)
    for i, n in enumerate(OPS):
        chk.goal(n, op_goal, op=i)
    return chk.run()
