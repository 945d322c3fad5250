"""C20: memory footprint, independence of earlier calls, calling convention.

Array contents are opaque; the size argument is symbolic (z3) for the generic routines, so every access to an array of
exactly that size is a query on the path that reaches it.  The AVX2 object code is executed with unknown callee-saved
registers and unknown upper halves of 32-bit arguments."""
from common import *
from zpath import ZCtx, ZProgram, Z, UB, Leave
import z3, subprocess, re
import elementwise, products, transforms, wrappers, shuffles
from products import LIBS

TOK = Form({-1: 1}, 0, -(1 << 62), 1 << 62, ())


def _tok(name):
    base = getattr(ZCtx, name)

    def f(self, *a, **k):
        for x in a[:3]:
            if type(x) is Form:
                return TOK
        return base(self, *a, **k)
    return f


class OCtx(ZCtx):
    """opaque data (TOK), integers, and symbolic sizes (Z)"""

    def pick(self, z):
        """a concrete value of z: one path per feasible value"""
        while True:
            if type(z) is int:
                return z
            if self.check() != z3.sat:
                raise Unsupported('path not decided')
            if len(self.trace) < len(self.prefix):
                v = self.picked[len(self.trace)]
            else:
                v = self.s.model().eval(z.e, model_completion=True).as_long()
                self.picked = dict(getattr(self, 'picked', {}))
                self.picked[len(self.trace)] = v
            if self.decide(Z(None, 0, 1, z.e == v)):
                return v

    def shl(self, x, k, w, nsw=False):
        if type(x) is Form or type(k) is Form:
            return TOK
        return ZCtx.shl(self, x, self.pick(k) if type(k) is Z else k, w, nsw)

    def ashr(self, x, k, w):
        if type(x) is Form or type(k) is Form:
            return TOK
        return ZCtx.ashr(self, x, self.pick(k) if type(k) is Z else k, w)

    def lshr(self, x, k, w):
        if type(x) is Form or type(k) is Form:
            return TOK
        return ZCtx.lshr(self, x, self.pick(k) if type(k) is Z else k, w)

    def nsw(self, r, w, what):
        return r if type(r) is Form else ZCtx.nsw(self, r, w, what)

    def bw(self, *a):
        return TOK

    def resolve(self, f):
        return f

    def implied(self, pcs, v):
        return None

    def cmp(self, pred, x, y, w):
        if type(x) is Form or type(y) is Form:
            return TOK
        return ZCtx.cmp(self, pred, x, y, w)

    def bitand(self, x, y, w):
        if (type(x) is int and x == 0) or (type(y) is int and y == 0):
            return 0
        if type(x) is Form or type(y) is Form:
            return TOK
        if type(x) is Z and type(y) is Z and w > 1:
            x = self.pick(x)
            y = self.pick(y)
        return ZCtx.bitand(self, x, y, w)

    def select(self, c, x, y, w):
        if type(c) is Form:
            return x if type(x) is int and type(y) is int and x == y else TOK
        if type(c) is int:
            return x if c else y
        if type(x) is Form or type(y) is Form:
            return TOK
        return ZCtx.select(self, c, x, y, w)

    def values(self, m):
        return {n: m.eval(v, model_completion=True).as_long() for n, v in self.names.items()}


for _n in ('add_', 'mulc_', 'mul_', 'div_', 'lt0_', 'eq0_', 'ite_', 's2', 'out', 'sval', 'uval', 'add', 'sub', 'mul', 'trunc', 'sext', 'zext',
           'and1', 'bitor', 'bitxor', 'sdiv', 'srem', 'udiv', 'urem', 'sdiv_'):
    setattr(OCtx, _n, _tok(_n))


class OProgram(ZProgram):
    def __init__(self, ctx):
        ZProgram.__init__(self, ctx)
        self.sym = {}             # object id -> (object, symbolic size in bytes)
        self.bad = {}

    def index(self, i):
        if type(i) is Form:
            raise Unsupported('index depends on data')
        return self.ctx.pick(i) & ((1 << 64) - 1)

    def decide(self, v):
        return None if type(v) is Form else self.ctx.decide(v)

    def inside(self, p, n):
        s = self.sym.get(id(p.o))
        if s is not None:
            m = self.ctx.refute(s[1] >= p.off + n)
            if m == 'unknown':
                raise Unsupported('bound not decided')
            if m:
                self.bad = m
                raise MemError('access at offset %d of %s, which has %s elements' % (p.off, p.o.name, m.get('n')))

    def load(self, p, n):
        if self.sym and type(p) is Ptr and id(p.o) in self.sym and type(p.off) is int:
            if p.off < 0 or p.off + n > p.o.size:
                self.check(p, n, False)
            self.inside(p, n)
        return ZProgram.load(self, p, n)

    def check(self, p, n, write):
        ZProgram.check(self, p, n, write)
        if self.sym:
            self.inside(p, n)

    def load_slow(self, o, off, n):
        # any data cell is opaque
        for q in range(off - 7, off + n):
            c = o.cells.get(q)
            if c is not None and q + c[0] > off and type(c[1]) is Form:
                pos, end = off, off + n
                while pos < end:
                    for back in range(8):
                        d = o.cells.get(pos - back)
                        if d is not None and d[0] > back:
                            pos += d[0] - back
                            break
                    else:
                        raise MemError('load of uninitialised memory at %s+%d' % (o.name, pos))
                return TOK
        return ZProgram.load_slow(self, o, off, n)


# ------------------------------------------------------------------ routines
class R:
    """one routine: args as in elementwise.Op, plus 'w16'/'w16s' tables; sizes"""

    def __init__(self, key, name, args, lib, sizes, data, sym=None, asm=False, src=None):
        self.key, self.name, self.args, self.lib, self.sizes, self.data, self.sym, self.asm, self.src = key, name, args, lib, sizes, data, sym, asm, src


def routines():
    out = []
    seen = set()
    for pid in ('C10', 'C11', 'C12'):
        for op in elementwise.OPS[pid]:
            if op.name in seen:
                continue
            seen.add(op.name)
            asm = pid == 'C12'
            out.append(R(op.name, op.name, op.args, op.lib, (16, 32, 48, 64, 80, 112, 128, 160, 240, 256, 512, 1024, 2048, 4096) if asm else (100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 2049, 4096),
                         'any', None if asm else (0, 65 if TIER == 'quick' else 300), asm))
    for pid, L in transforms.LIBT.items():
        for t in transforms.TR + L['extra']:
            asm = bool(L.get('asm'))
            pw = [n for n in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048) if n >= (16 if asm else 2) and n <= (1024 if asm else 2048)]
            out.append(R(L['name'](t), L['name'](t), ('a', 'n', 'p16s' if L['red'] else 'p16') + (('q',) if L['q'] else ()), L['files'][0],
                         pw, 'small', None if asm else (2, 32), asm))
    for lib in ('ntt.c', 'naive_ntt.c'):
        out.append(R('bitrev_shuffle/' + lib, 'bitrev_shuffle', ('a', 'n'), lib, (1, 2, 4, 8, 64, 128, 256, 512, 1024, 2048, 4096), 'any', (1, 32)))
    return out


RT = {r.key: r for r in routines()}


def sofile(chk, r):
    return chk.native([r.lib] + (['ntt_asm.S'] if r.asm else []), 'cf_' + r.lib.split('.')[0] + ('_asm' if r.asm else ''), ('-O3',))


# ------------------------------------------------------------------ native side
def nat(so, r, n, seed, fill=0x5A5A5A5A, n64=None):
    """(outputs, changed constants) of one call with pseudo-random in-range data"""
    rng = random.Random(seed)
    lo, hi = {'any': (0, Q - 1), 'small': (0, Q - 1)}[r.data]
    f = getattr(ctypes.CDLL(so), r.name)
    f.restype = None
    cargs, watch, dest = [], [], None
    for k in r.args:
        if k in ('a', 'b0', 'b1'):
            x = guarded([rng.randint(lo, hi) for _ in range(n)])
            if k == 'a':
                dest = x
            else:
                watch.append((x, x[1].copy(), x[2].copy()))
            cargs.append(vp(x[2]))
        elif k == 'c':
            dest = guarded([fill] * n)
            cargs.append(vp(dest[2]))
        elif k in ('p16', 'p16s'):
            x = guarded([rng.randint(0, Q - 1) if k == 'p16' else rng.randint(-6144, 6144) for _ in range(n)], np.uint16 if k == 'p16' else np.int16)
            watch.append((x, x[1].copy(), x[2].copy()))
            cargs.append(vp(x[2]))
        elif k == 's':
            cargs.append(ctypes.c_uint64((rng.randint(0, Q - 1)) | ((n64 or 0) << 32)))
        elif k == 'n':
            cargs.append(ctypes.c_uint64(n | ((n64 or 0) << 32)))
        elif k == 'q':
            cargs.append(ctypes.c_int32(Q))
    pre = dest[1].copy()
    f(*cargs)
    g = dest[1]
    why = None
    if GMODE['mode'] == 'words' and ((g[:64] != pre[:64]).any() or (g[-64:] != pre[-64:]).any()):
        why = 'writes outside the array'
    for x, s, v in watch:
        if (x[1] != s).any() or (x[2] != v).any():
            why = 'changes an input array'
    return [int(x) for x in dest[2]], why


def nat_out(so, r, n, seed):
    return nat(so, r, n, seed)[0]


def nat_hist(so, r, seq):
    """outputs of the last call of seq = [(key, n, seed)]"""
    for key, n, seed in seq:
        o = nat(so, RT[key], n, seed)
    return o[0]


def nat_repeat(so, r, n, times):
    """number of calls after which the same call gives another result"""
    base = nat(so, r, n, 1)[0]
    for i in range(times):
        if nat(so, r, n, 1)[0] != base:
            return i + 1
    return None


def confirm(chk, r, n):
    """native evidence of a confinement violation for size n"""
    so = sofile(chk, r)
    for seed in (1, 2):
        st, v = in_child(nat, so, r, n, seed, timeout=60)
        if st == 'signal':
            return dict(mode='plain', n=n, seed=seed, what='killed by signal %d' % v)
        if st == 'ok' and v[1]:
            return dict(mode='plain', n=n, seed=seed, what=v[1])
        m = out_of_bounds(nat, so, r, n, seed)
        if m:
            return dict(mode='guard', n=n, seed=seed, what='accesses memory outside its arrays (inaccessible page at the %s)' % m)
        if 'c' in r.args:
            st2, v2 = in_child(nat, so, r, n, seed, 0x0badf00d, timeout=60)
            if st == 'ok' and st2 == 'ok' and v[0] != v2[0]:
                return dict(mode='fill', n=n, seed=seed, what='the result depends on the previous contents of the destination')
    return None


def siblings(r):
    return [x for x in RT.values() if x.lib == r.lib and x.asm == r.asm]


def hist_search(chk, r, n, secs=25):
    """a native history after which the same call gives another result"""
    so = sofile(chk, r)
    rng = random.Random(SEED * 11 + n)
    st, base = in_child(nat_hist, so, r, [(r.key, n, 1)], timeout=60)
    if st != 'ok':
        return None
    st, k = in_child(nat_repeat, so, r, n, 3000 if n <= 256 else 300, timeout=60)
    if st == 'ok' and k:
        return dict(mode='history', n=n, seed=1, seq=[(r.key, n, 1)] * (k + 1), what='the result of the same call changes after %d calls' % k)
    t0 = time.time()
    sizes = [x for x in r.sizes if x <= 256] or list(r.sizes[:1])
    cands = [[(r.key, n, 2), (r.key, n, 1)], [(r.key, n, 1), (r.key, n, 1)]]
    cands += [[(r.key, m, 2), (r.key, n, 1)] for m in sizes]
    for x in siblings(r):
        m = n if n in x.sizes else x.sizes[0]
        cands.append([(x.key, m, 2), (r.key, n, 1)])
    cands += [[(r.key, rng.choice(sizes + [n]), rng.randint(1, 4)) for _ in range(rng.choice((3, 5, 9, 40, 300)))] + [(r.key, n, 1)] for _ in range(8)]
    for c in cands:
        st, v = in_child(nat_hist, so, r, c, timeout=60)
        if st == 'ok' and v != base or st == 'signal':
            return dict(mode='history', n=n, seed=1, seq=c, what='the result depends on earlier calls')
        if time.time() - t0 > secs:
            break
    return None


TRAMP = r'''
 .text
 .globl abi_call
 .type abi_call,@function
# abi_call(fn, uint64_t args[4], uint64_t out[8])
abi_call:
 push %rbx
 push %rbp
 push %r12
 push %r13
 push %r14
 push %r15
 sub $8, %rsp
 mov %rsp, saved_sp(%rip)
 mov %rdx, saved_out(%rip)
 mov %rdi, %rax
 mov 24(%rsi), %rcx
 mov 16(%rsi), %rdx
 mov 0(%rsi), %rdi
 mov 8(%rsi), %rsi
 mov $0x1111111122222221, %rbx
 mov $0x1111111122222222, %rbp
 mov $0x1111111122222223, %r12
 mov $0x1111111122222224, %r13
 mov $0x1111111122222225, %r14
 mov $0x1111111122222226, %r15
 call *%rax
 mov saved_out(%rip), %rdx
 mov %rbx, 0(%rdx)
 mov %rbp, 8(%rdx)
 mov %r12, 16(%rdx)
 mov %r13, 24(%rdx)
 mov %r14, 32(%rdx)
 mov %r15, 40(%rdx)
 mov saved_sp(%rip), %rax
 sub %rsp, %rax
 mov %rax, 48(%rdx)
 mov saved_sp(%rip), %rsp
 add $8, %rsp
 pop %r15
 pop %r14
 pop %r13
 pop %r12
 pop %rbp
 pop %rbx
 ret
 .bss
 .align 8
saved_sp: .skip 8
saved_out: .skip 8
 .section .note.GNU-stack,"",@progbits
'''


def tramp(chk):
    p = os.path.join(chk.S.dir, 'tramp.S')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write(TRAMP)
    return chk.native([p], 'tramp')


def abi_native(so, tso, r, n, upper):
    """what is wrong with the registers after a native call, and the output"""
    rng = random.Random(5)
    L, T = ctypes.CDLL(so), ctypes.CDLL(tso)
    args = (ctypes.c_uint64 * 4)()
    keep, dest = [], None
    for i, k in enumerate(r.args):
        if k == 'n':
            args[i] = n | upper << 32
        elif k == 's':
            args[i] = 1234 | upper << 32
        else:
            x = guarded([rng.randint(-6144, 6144) for _ in range(n)], np.int16 if k.startswith('p16') else np.int32)
            keep.append(x)
            if k in 'ac':
                dest = x
            args[i] = x[2].ctypes.data
    out = (ctypes.c_uint64 * 8)()
    T.abi_call(ctypes.cast(getattr(L, r.name), ctypes.c_void_p), args, out)
    for i, nm in enumerate(('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')):
        if out[i] != 0x1111111122222221 + i:
            return '%s is not preserved' % nm, None
    if out[6]:
        return 'the stack pointer is not restored', None
    return None, [int(v) for v in dest[2]]


def abi_confirm(chk, r, n):
    so, t = sofile(chk, r), tramp(chk)
    st, v = in_child(abi_native, so, t, r, n, 0, timeout=30)
    if st != 'ok':
        return dict(mode='abi', n=n, upper=0, what='%s %s when called with unknown callee-saved registers' % (st, v))
    if v[0]:
        return dict(mode='abi', n=n, upper=0, what=v[0])
    for up in (1, 0xffffffff, 0x12345678):
        st, w = in_child(abi_native, so, t, r, n, up, timeout=30)
        if st != 'ok' or w != v:
            return dict(mode='abi', n=n, upper=up, what='depends on the undefined upper half of a 32-bit argument (%s)' % st)
    return None


# ------------------------------------------------------------------ symbolic side
def written_elsewhere(chk, lib, names):
    """static objects that some function of the file may write"""
    txt = chk.S.ir(lib)
    out = []
    for nm in names:
        pat = re.compile(r'@%s\b' % re.escape(nm.lstrip('@')))
        for l in txt.split('\n'):
            if pat.search(l) and l.startswith(' ') and not re.match(r'\s*%\S+ = load ', l):
                out.append(nm)
                break
    return out


def mutable_statics(txt, fn):
    """non-constant globals that functions reachable from fn mention"""
    body, cur = {}, None
    for l in txt.split('\n'):
        m = re.match(r'define .*?@([\w.$]+)\(', l)
        if m:
            cur = body.setdefault(m.group(1), [])
        elif l.startswith('}'):
            cur = None
        elif cur is not None:
            cur.append(l)
    glob = set(re.findall(r'^@([\w.$]+) = (?!.*\bconstant\b)(?!external)', txt, re.M))
    todo, seen, out = [fn], set(), set()
    while todo:
        f = todo.pop()
        if f in seen or f not in body:
            continue
        seen.add(f)
        for x in re.findall(r'@([\w.$]+)', '\n'.join(body[f])):
            if x in body:
                todo.append(x)
            elif x in glob:
                out.add(x)
    return out


def setup(chk, r, C):
    P = OProgram(C)
    chk.last = (None, None)
    P.add_module(chk.S.ir(r.lib), r.lib)
    M = products.link_asm(chk, P) if r.asm else None
    return P, M


def args_of(C, P, r, n, nmax):
    """n: int or Z; arrays have exactly n elements"""
    A = []
    for k in r.args:
        if k in ('a', 'b0', 'b1', 'c', 'p16', 'p16s'):
            esz = 2 if k.startswith('p16') else 4
            o = P.array({'a': 'the array', 'c': 'the destination', 'b0': 'the first operand', 'b1': 'the second operand'}.get(k, 'the table'),
                        [TOK] * nmax, esz, const=k[0] in 'bp')
            if k == 'c':
                o.cells.clear()
            if type(n) is Z:
                P.sym[id(o)] = (o, n.e * esz)
            A.append(Ptr(o, 0))
        elif k == 'n':
            A.append(n)
        elif k == 's':
            A.append(TOK)
        elif k == 'q':
            A.append(Q)
    return A


def report(chk, r, n, why):
    w = confirm(chk, r, n)
    if w is None and r.asm:
        w = abi_confirm(chk, r, n)
    if w:
        return violated('%s n=%d: %s (%s)' % (r.name, n, w['what'], why), dict(kind='confine', module='confine', key=r.key, how=w))
    return None


def size_goal(chk, key):
    """symbolic size"""
    r = RT[key]
    lo, hi = r.sym
    C = OCtx()
    P, M = setup(chk, r, C)
    pw = 'p16' in r.args and r.data == 'small' or r.data == 'small' or r.name == 'bitrev_shuffle'
    npaths = 0
    why = None
    C.picked = {}

    def run():
        P.begin()
        P.sym = {}
        P.new_call()
        n = C.input('n', lo, hi)
        if pw:
            C.assume(z3.Or([n.e == 1 << k for k in range(12) if lo <= 1 << k <= hi]))
        try:
            P.call(r.name, args_of(C, P, r, n, hi))
        except MemError as e:
            return str(e), P.bad or C.model()
        except UB as e:
            return str(e), e.model
        return None
    bad = None
    stale = set()
    try:
        for x in C.paths(run, 4000):
            npaths += 1
            stale |= set(P.stale())
            if x:
                bad = x
                break
    except Unsupported as e:
        why = str(e)
    if bad:
        n = (bad[1] or {}).get('n')
        g = report(chk, r, n, bad[0]) if n else None
        if g:
            return g
        if not bad[0].startswith('signed overflow'):
            return undecided('%s at n=%s (not reproduced on the compiled code)' % (bad[0], n))
    if why:
        return undecided(why)
    g = stale_goal(chk, r, min(hi, 16) if pw else hi - 1, stale, P)
    if g:
        return g
    ms = mutable_statics(chk.S.ir(r.lib), r.name)
    if ms:
        for n in (64, 1024, 16):
            w = hist_search(chk, r, n)
            if w:
                return violated('%s n=%d: %s (static data %s)' % (r.name, n, w['what'], sorted(ms)), dict(kind='confine', module='confine', key=r.key, how=w))
        return undecided('static data %s' % sorted(ms))
    return proved(funcs=dict(P.funcs_run), detail='%d sizes by path, %d queries' % (npaths, C.queries))


def stale_goal(chk, r, n, stale, P):
    stale = [x for x in stale if not x.startswith('asm-data') or x in P.dirty]
    if not stale:
        return None
    w = hist_search(chk, r, n)
    if w:
        return violated('%s n=%d: %s (static data %s)' % (r.name, n, w['what'], stale), dict(kind='confine', module='confine', key=r.key, how=w))
    wr = written_elsewhere(chk, r.lib, [x for x in stale])
    if [x for x in stale if x in P.dirty] or wr:
        return undecided('reads static data that calls may change: %s' % stale)
    return None


def fixed_goal(chk, key, sizes):
    r = RT[key]
    funcs = {}
    why = None
    for n in sizes:
        C = OCtx()
        P, M = setup(chk, r, C)
        try:
            P.new_call()
            P.call(r.name, args_of(C, P, r, n, n))
            funcs.update(P.funcs_run)
            if M:
                funcs.update(M.seen)
        except (MemError, AbiError) as e:
            g = report(chk, r, n, '%s: %s' % (type(e).__name__, e))
            if g:
                return g
            why = why or 'n=%d: %s (not reproduced on the compiled code)' % (n, e)
            continue
        except UB as e:
            continue
        except Unsupported as e:
            why = why or 'n=%d: %s' % (n, e)
            continue
        g = stale_goal(chk, r, n, set(P.stale()), P)
        if g:
            return g
    if why:
        return undecided(why)
    return proved(funcs=funcs, detail='sizes %s' % (list(sizes),))


# ---- products and per-size transforms
def nat_wp(so, fn, n, seed, prod, fill=0x5A5A5A5A):
    rng = random.Random(seed)
    f = getattr(ctypes.CDLL(so), fn)
    f.restype = None
    xs = [guarded([rng.randint(0, Q - 1) for _ in range(n)]) for _ in range(2 if prod else 1)]
    if prod:
        xs.insert(0, guarded([fill] * n))
    pre = [x[1].copy() for x in xs]
    f(*[vp(x[2]) for x in xs])
    why = None
    if GMODE['mode'] == 'words':
        for x, p in zip(xs, pre):
            if (x[1][:64] != p[:64]).any() or (x[1][-64:] != p[-64:]).any():
                why = 'writes outside its arrays'
    return [int(v) for v in xs[0][2]], why


def nat_wp_hist(so, n, seq):
    for fn, seed, prod in seq:
        o = nat_wp(so, fn, n, seed, prod)
    return o[0]


def wp_so(chk, lib, n):
    return wrappers.native_w(chk, lib, n)


def wp_confirm(chk, lib, n, fn, prod, fns, hist):
    so = wp_so(chk, lib, n)
    base = None
    for seed in (1, 2):
        st, v = in_child(nat_wp, so, fn, n, seed, prod, timeout=60)
        if st == 'signal':
            return dict(mode='plain', seed=seed, what='killed by signal %d' % v)
        if st == 'ok' and v[1]:
            return dict(mode='plain', seed=seed, what=v[1])
        base = base or (v[0] if st == 'ok' else None)
        m = out_of_bounds(nat_wp, so, fn, n, seed, prod)
        if m:
            return dict(mode='guard', seed=seed, what='accesses memory outside its arrays (inaccessible page at the %s)' % m)
        if prod:
            st2, v2 = in_child(nat_wp, so, fn, n, seed, prod, 0x0badf00d, timeout=60)
            if st == 'ok' and st2 == 'ok' and v[0] != v2[0]:
                return dict(mode='fill', seed=seed, what='the result depends on the previous contents of the destination')
    if hist and base is not None:
        rng = random.Random(SEED)
        seqs = [[(fn, 2, prod)], [(fn, 1, prod)]] + [[(g, 2, p)] for g, p in fns] + \
               [[(lambda gp: (gp[0], rng.randint(1, 5), gp[1]))(rng.choice(fns + [(fn, prod)] * len(fns))) for _ in range(rng.choice((3, 10, 60)))] for _ in range(8)]
        for s in seqs:
            st, v = in_child(nat_wp_hist, so, n, s + [(fn, 1, prod)], timeout=60)
            if st == 'signal' or st == 'ok' and v != base:
                return dict(mode='history', seq=s + [(fn, 1, prod)], what='the result depends on earlier calls')
    return None


def wp_goal(chk, lib, n):
    """products and transforms of one implementation and size"""
    fns = [(products.fname(lib, n, k), True) for k in range(1, 6)] + [('w_' + w.replace(':', '_'), False) for w in wrappers.W]
    funcs, why = {}, None
    so = wp_so(chk, lib, n)
    files = list(LIBS[lib]['files'](n)) + [wrappers.wrapper_src(chk, lib, n)]
    for fn, prod in fns:
        C = OCtx()
        P = OProgram(C)
        for f in files:
            P.add_module(chk.S.ir(f), f)
        M = products.link_asm(chk, P) if lib == 'avx2' else None
        bad, stale = None, []
        try:
            xs = [P.array(x, [TOK] * n, 4) for x in ('a', 'b')]
            c = Obj('c', 4 * n)
            P.new_call()
            P.call(fn, [Ptr(o, 0) for o in ([c] + xs if prod else xs[:1])])
            if prod:
                P.read_array(c, n)
            funcs.update(P.funcs_run)
            if M:
                funcs.update(M.seen)
        except (MemError, AbiError) as e:
            bad = '%s: %s' % (type(e).__name__, e)
        except UB:
            pass
        except Unsupported as e:
            why = why or '%s: %s' % (fn, e)
        stale = [x for x in P.stale() if not x.startswith('asm-data') or x in P.dirty]
        if bad or stale:
            w = wp_confirm(chk, lib, n, fn, prod, fns, bool(stale))
            if w:
                return violated('%s (%s, size %d): %s (%s)' % (fn, lib, n, w['what'], bad or 'static data %s' % stale), dict(kind='confine', module='confine', lib=lib, n=n, fn=fn, prod=prod, how=w))
            if bad:
                why = why or '%s: %s (not reproduced on the compiled code)' % (fn, bad)
            elif [x for x in stale if x in P.dirty] or any(written_elsewhere(chk, f, stale) for f in files):
                why = why or '%s: reads static data that calls may change: %s' % (fn, stale)
    if why:
        return undecided(why)
    return proved(funcs=funcs, detail='%d routines' % len(fns))


def abi_goal(chk, key):
    """sentinels in the callee-saved registers, one native call (cross-check of the machine model)"""
    r = RT[key]
    w = abi_confirm(chk, r, r.sizes[0])
    if w:
        return violated('%s n=%d: %s' % (r.name, r.sizes[0], w['what']), dict(kind='confine', module='confine', key=key, how=w))
    return fixed_goal(chk, key, r.sizes)


def replay(d):
    chk = Check(d['property'], 'replay')
    h = d['how']
    if 'lib' in d:
        w = wp_confirm(chk, d['lib'], d['n'], d['fn'], d['prod'], [(products.fname(d['lib'], d['n'], k), True) for k in range(1, 6)] + [('w_' + w.replace(':', '_'), False) for w in wrappers.W], h['mode'] == 'history')
        return w and w['what']
    r = RT[d['key']]
    if h['mode'] == 'history':
        so = sofile(chk, r)
        a = in_child(nat_hist, so, r, [(r.key, h['n'], 1)])
        b = in_child(nat_hist, so, r, [tuple(x) for x in h['seq']])
        return h['what'] if a != b else None
    if h['mode'] == 'abi':
        w = abi_confirm(chk, r, h['n'])
    else:
        w = confirm(chk, r, h['n'])
    return w and w['what']


def main(pid):
    q = TIER == 'quick'
    chk = Check(pid, 'symbolic execution of the compiled IR and AVX2 object code with opaque array contents: symbolic size (z3 decides every array bound), exact-size arrays, unknown callee-saved registers and upper halves')
    chk.bounds = dict(symbolic_sizes={r.name: list(r.sym) for r in RT.values() if r.sym}, fixed_sizes={r.name: list(r.sizes) for r in RT.values()},
                      products='5 products and 12 transforms, 4 implementations, sizes 16, 256, 512, 1024', contents='all')
    chk.assumptions = ['power-of-two sizes for transforms and shuffles, positive multiples of 16 for AVX2 routines', 'arrays do not overlap']
    chk.trusted = ['clang front end', 'objdump disassembly', 'z3', 'engine/*.py']
    for f in ('ntt.c', 'naive_ntt.c', 'ntt_red.c'):
        chk.S.ir(f)
    chk.asm()
    for r in RT.values():
        sofile(chk, r)
    tramp(chk)
    for r in RT.values():
        if r.asm:
            chk.goal('%s registers and sizes' % r.key, abi_goal, weight=20, key=r.key)
        else:
            chk.goal('%s symbolic size' % r.key, size_goal, weight=5, key=r.key)
            chk.goal('%s sizes' % r.key, fixed_goal, weight=30, key=r.key, sizes=r.sizes)
    for lib in LIBS:
        for n in SIZES:
            for f in list(LIBS[lib]['files'](n)) + [wrappers.wrapper_src(chk, lib, n)]:
                chk.S.ir(f)
            chk.goal('products and transforms %s %d' % (lib, n), wp_goal, weight=n, lib=lib, n=n)
    return chk.run()
