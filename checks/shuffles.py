"""C13: bit-reversal shuffles."""
from common import *
import elementwise, history
from rings import PolyRing
from reach import Reach
import subprocess, re, shutil

I32 = (-(1 << 31), (1 << 31) - 1)


def rev(i, k):
    r = 0
    for _ in range(k):
        r = r << 1 | i & 1
        i >>= 1
    return r


def gen_table(chk, n):
    """the table as make_bitrev_table prints it, run for this size in the scratch directory"""
    d = os.path.join(chk.S.dir, 'rev%d' % n)
    if os.path.isdir(d):
        return d, None
    os.makedirs(d)
    r = subprocess.run([os.path.join(chk.S.src, 'make_bitrev_table'), str(n)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if r.returncode:
        return None, 'make_bitrev_table %d fails: %s' % (n, r.stdout.decode()[-200:])
    return d, None


def tables(chk, n, kind):
    """[(name, IR)] with the symbols bitrev<n> and the number of pairs as seen by a C program"""
    src = chk.S.src
    if kind == 'gen':
        d, w = gen_table(chk, n)
        if w:
            raise MemError(w)
        src = d
    p = os.path.join(chk.S.dir, 'revw_%s_%d.c' % (kind, n))
    if not os.path.exists(p):
        with open(p + '.tmp', 'w') as f:
            f.write('#include <stdint.h>\n#include "%s/bitrev%d_table.h"\n' % (src, n))
            f.write('const uint32_t revw_pairs = BITREV%d_NPAIRS;\n' % n)
            f.write('extern void shuffle_with_table(int32_t *a, const uint16_t p[][2], uint32_t n);\n')
            f.write('void revw(int32_t *a) { shuffle_with_table(a, bitrev%d, BITREV%d_NPAIRS); }\n' % (n, n))
        os.rename(p + '.tmp', p)
    return [p, os.path.join(src, 'bitrev%d_table.c' % n)]


def native(chk, lib, n, kind):
    files = [lib] + (tables(chk, n, kind) if kind != 'plain' else [])
    return chk.native(files, 'shuf_%s_%d_%s' % (lib.split('.')[0], n, kind))


def run_native(so, kind, n, a):
    L = ctypes.CDLL(so)
    f = L.bitrev_shuffle if kind == 'plain' else L.revw
    f.restype = None
    r, w, v = guarded(a)
    pre = w.copy()
    if kind == 'plain':
        f(vp(v), ctypes.c_uint32(n))
    else:
        f(vp(v))
    if (w[:64] != pre[:64]).any() or (w[-64:] != pre[-64:]).any():
        return None
    return v.copy()


def bad(so, kind, n, a):
    out = run_native(so, kind, n, a)
    if out is None:
        return 'writes outside the array'
    k = n.bit_length() - 1
    for i in range(n):
        if int(out[rev(i, k)]) != a[i]:
            return 'length %d: index %d holds %d, expected %d (element %d)' % (n, rev(i, k), out[rev(i, k)], a[i], i)
    return None


def first(so, kind, n, cands):
    for a in cands:
        w = bad(so, kind, n, a)
        if w:
            return a, w
    return None


def shuffle_goal(chk, lib, kind, n):
    why = None
    C = P = None
    funcs = {}
    models = []
    k = n.bit_length() - 1
    try:
        ring = PolyRing()
        C = Ctx(ring, seed=SEED, round_bits=16)
        P = chk.program(C, [lib])
        if kind != 'plain':
            for f in tables(chk, n, kind):
                P.add_module(chk.S.ir(f), f)
        a = [C.input('a%d' % i, *I32) for i in range(n)]
        A = P.array('a', a, 4)
        for rnd in (1, 2):
            P.new_call()
            P.call('bitrev_shuffle' if kind == 'plain' else 'revw', [Ptr(A, 0), n] if kind == 'plain' else [Ptr(A, 0)])
            out = [C.sval(force(x), 32) for x in P.read_array(A, n)]
            import z3
            zs, cons = {}, []
            neq = z3.Or([C.z3_form(out[rev(i, k)] if rnd == 1 else out[i], zs, cons) != C.z3_form(a[i], zs, cons) for i in range(n)])
            if C.query(cons + [neq], 'lia')[0] == 'unsat':
                continue
            for i in range(n):
                o = out[rev(i, k)] if rnd == 1 else out[i]
                if type(o) is Form and o.c == 0 and o.t == a[i].t:
                    continue
                ms = elementwise.same(C, o, a[i])
                if ms is not None:
                    why = why or 'application %d: element %d is not at its place' % (rnd, i)
                    models += [{C.atoms[j].name: v for j, v in m.items() if C.atoms[j].kind == 'in'} for m in ms]
                    break
            if why:
                break
        funcs = dict(P.funcs_run)
    except (MemError, Unsupported, RingError, BuildError) as e:
        why = '%s: %s' % (type(e).__name__, e)
    if why is None and not history.trigger(P):
        so = native(chk, lib, n, kind)
        rng = random.Random(n)
        st, v = in_child(bad, so, kind, n, [rng.randint(*I32) for _ in range(n)])
        if st != 'ok' or v:
            return undecided('encoding proves the property but the compiled code disagrees: %s' % v)
        return proved(funcs=funcs, detail='%d IR steps' % P.steps)
    why = why or 'reads static data %s left by earlier calls' % history.trigger(P)
    rng = random.Random(SEED + n)
    try:
        so = native(chk, lib, n, kind)
    except (BuildError, MemError) as e:
        return violated('%s n=%d: %s' % (lib, n, str(e)[-300:]), dict(kind='shuffle', module='shuffles', lib=lib, tab=kind, n=n, a=[]))
    cands = [[i + 1 for i in range(n)], [rng.randint(*I32) for _ in range(n)]]
    for m in models[:40]:
        for fill in (0, 1, None):
            cands.append([m.get('a%d' % i, rng.randint(*I32) if fill is None else fill) for i in range(n)])
    if C is not None and P is not None:
        for g in history.conds(P):
            r = Reach(C, rng, time.time() + 2).solve(g)
            if r:
                cands.append([r.get('a%d' % i, rng.randint(*I32)) for i in range(n)])
    cands += [[rng.choice((0, 1, -1, I32[0], I32[1])) for _ in range(n)] for _ in range(50)]
    cands += [[rng.randint(*I32) for _ in range(n)] for _ in range(50)]
    st, v = in_child(first, so, kind, n, cands, timeout=100)
    if st == 'ok' and v:
        return violated('%s %s: %s (%s)' % (lib, kind, v[1], why), dict(kind='shuffle', module='shuffles', lib=lib, tab=kind, n=n, a=[int(x) for x in v[0]]))
    if st in ('signal', 'timeout'):
        return violated('%s %s n=%d: %s (%s)' % (lib, kind, n, st, why), dict(kind='shuffle', module='shuffles', lib=lib, tab=kind, n=n, a=cands[0]))
    if why.startswith('MemError'):
        g = out_of_bounds(bad, so, kind, n, cands[0])
        if g:
            return violated('%s %s n=%d accesses memory outside the array (%s)' % (lib, kind, n, why), dict(kind='shuffle', module='shuffles', lib=lib, tab=kind, n=n, a=cands[0], guard=g))
    if why.startswith('reads static'):
        return proved(funcs=funcs, detail='bounded to two calls')
    return undecided(why)


def replay(d):
    chk = Check(d['property'], 'replay')
    try:
        so = native(chk, d['lib'], d['n'], d['tab'])
    except (BuildError, MemError) as e:
        return str(e)
    st, v = in_child(bad, so, d['tab'], d['n'], d['a'])
    return v if st == 'ok' else st


def main(pid):
    chk = Check(pid, 'symbolic execution of the compiled IR with symbolic array contents; each output must equal the input atom at the bit-reversed index (SMT equality where the code mixes values)')
    top = 131072 if TIER == 'quick' else 1048576
    sizes = [1 << i for i in range(0, top.bit_length())]
    chk.bounds = dict(lengths=sizes, generated_tables=[n for n in sizes if 2 <= n <= 32768], tracked_tables=list(SIZES), contents='all 32-bit values')
    chk.assumptions = ['clang -O0 IR and gcc -O3 code agree on code without undefined behaviour',
                       'tables: as printed by the make_bitrev_table of this tree and, for 16, 256, 512, 1024, as tracked in src/']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py']
    libs = ('ntt.c', 'naive_ntt.c')
    for f in libs:
        chk.S.ir(f)
    for n in sizes:
        if 2 <= n <= 32768:
            gen_table(chk, n)
            try:
                tables(chk, n, 'gen')
            except MemError:
                pass
    for lib in libs:
        for n in sizes:
            chk.goal('%s bitrev_shuffle n=%d' % (lib, n), shuffle_goal, weight=n, lib=lib, kind='plain', n=n)
            if 2 <= n <= 32768:
                chk.goal('%s shuffle_with_table generated n=%d' % (lib, n), shuffle_goal, weight=n // 2, lib=lib, kind='gen', n=n)
        for n in SIZES:
            chk.goal('%s shuffle_with_table tracked table n=%d' % (lib, n), shuffle_goal, weight=n, lib=lib, kind='built', n=n)
    return chk.run()
