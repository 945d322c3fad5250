"""C21: the generator of the bit-reversal tables, for every argument.

main() is executed on its IR: with a symbolic 64-bit size that is not valid (every path must fail and write nothing), and for each
valid size with recorded files; z3 decides that the printed pairs are exactly the pairs (i, reverse i) with i < reverse i."""
from common import *
from zpath import ZCtx, Z, UB, Leave
from generators import GProgram, RCtx, nat_run, nat_fault, brev, exe
from term import STATS
import z3, re

GEN = 'make_bitrev_table'
OK = [1 << k for k in range(1, 16)]


def prog(chk):
    P = GProgram(RCtx(20000))
    P.add_module(chk.S.ir(GEN + '.c'), GEN + '.c')
    return P


def call(P, vals):
    P.code = None
    try:
        return P.call('main', P.start(1 + len(vals), vals))
    except Leave as e:
        return P.code if e.kind == 'exit' else 134


def pairs_of(n, files):
    """(pairs, problem)"""
    h, c = 'bitrev%d_table.h' % n, 'bitrev%d_table.c' % n
    if sorted(files) != sorted([h, c]):
        return None, 'files written: %s' % sorted(files)
    H, T = [re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', ' ', files[x], flags=re.S)) for x in (h, c)]
    m = re.search(r'#define\s+BITREV%d_NPAIRS\s+(\d+)\b' % n, H)
    if not m:
        return None, 'no number of pairs in the header'
    if not re.search(r'extern\s+const\s+uint16_t\s+bitrev%d\s*\[\s*BITREV%d_NPAIRS\s*\]\s*\[\s*2\s*\]\s*;' % (n, n), H):
        return None, 'no declaration in the header'
    t = re.search(r'const\s+uint16_t\s+bitrev%d\s*\[\s*BITREV%d_NPAIRS\s*\]\s*\[\s*2\s*\]\s*=\s*\{(.*)\}\s*;' % (n, n), T, re.S)
    if not t or not re.search(r'#include\s+"bitrev%d_table.h"' % n, T):
        return None, 'no table'
    body = t.group(1)
    p = [(int(a), int(b)) for a, b in re.findall(r'\{\s*(\d+)\s*,\s*(\d+)\s*\}', body)]
    if re.sub(r'[\s,]', '', re.sub(r'\{\s*\d+\s*,\s*\d+\s*\}', '', body)):
        return None, 'text between the pairs'
    if len(p) != int(m.group(1)):
        return None, '%d pairs, %s announced' % (len(p), m.group(1))
    return p, None


def nat_bad(chk, n):
    rc, files = nat_run(chk, GEN, (n,))
    if n not in OK:
        if rc == 0 or rc == 'timeout' or rc < 0:
            return '%s %d is accepted (status %s)' % (GEN, n, rc)
        return '%s %d writes %s' % (GEN, n, sorted(files)) if files else None
    if rc != 0:
        return '%s %d fails with status %s' % (GEN, n, rc)
    p, w = pairs_of(n, files)
    if w:
        return '%s %d: %s' % (GEN, n, w)
    k = n.bit_length() - 1
    want = [(i, brev(i, k)) for i in range(n) if i < brev(i, k)]
    if sorted((min(x), max(x)) for x in p) != want:
        return '%s %d: the pairs are not those of the bit reversal' % (GEN, n)
    return None


def hit(chk, n, why):
    w = nat_bad(chk, n)
    return violated(w, dict(kind='bitrev', module='bitrevgen', n=n)) if w else undecided(why)


def size_goal(chk, n):
    P = prog(chk)
    P.begin()
    P.new_call()
    try:
        rc = call(P, [n])
    except (MemError, UB, Unsupported) as e:
        return hit(chk, n, str(e))
    if type(rc) is not int or rc & 255 or P.fid:
        return hit(chk, n, 'status %s' % rc)
    p, w = pairs_of(n, P.files)
    if w:
        return hit(chk, n, w)
    k = n.bit_length() - 1
    if any(max(x) >= n for x in p) or len({min(x) for x in p}) != len(p):
        return hit(chk, n, 'pairs outside the table or repeated')
    # for every i: i is the smaller member of a pair exactly when i < reverse i, and its partner is then reverse i
    i = z3.BitVec('i', k + 1)
    rev = z3.Concat(z3.BitVecVal(0, 1), *[z3.Extract(j, j, i) for j in range(k)])
    s = z3.Solver()
    s.set('timeout', 120000)
    F = z3.BitVecVal(n, k + 1)          # n: no pair

    def tree(lo, hi, d):
        if hi - lo == 1:
            return z3.BitVecVal(d.get(lo, n), k + 1)
        mid = (lo + hi) // 2
        l, h = tree(lo, mid, d), tree(mid, hi, d)
        b = (hi - lo).bit_length() - 2
        return l if l.eq(h) else z3.If(z3.Extract(b, b, i) == 0, l, h)
    part = tree(0, n, {min(x): max(x) for x in p})
    s.add(z3.ULT(i, n), part != z3.If(z3.ULT(i, rev), rev, F))
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    setattr(STATS, str(r), getattr(STATS, str(r)) + 1)
    if r == z3.unsat:
        return proved(funcs=dict(P.funcs_run), detail='%d pairs, for every index' % len(p))
    if r == z3.sat:
        return hit(chk, n, 'partner of %s' % s.model()[i])
    return undecided('partner function not decided')


def reject_goal(chk):
    P = prog(chk)
    C = P.ctx
    C.portfolio = lambda cs, secs=60: z3.unknown
    st = dict(paths=0)

    def run():
        P.begin()
        P.new_call()
        x = C.input('x', -(1 << 63), (1 << 63) - 1)
        C.assume(z3.And([x.e != v for v in OK]))

        def m():
            mm = C.model()
            return mm and mm.get('x')
        try:
            rc = call(P, [x])
        except (MemError, UB) as e:
            return str(e), m()
        except Unsupported as e:
            return 'not decided: %s' % e, m()
        st['paths'] += 1
        if type(rc) is not int or not rc & 255 or P.files:
            return 'accepts an invalid size', m()
        return None
    why, t0 = None, time.time()
    try:
        for x in C.paths(run, 400):
            if x:
                for v in ([x[1]] if x[1] is not None else []) + [65536, 65535, 131072, (1 << 32) + 16, (1 << 32) + 1, -16, 0, 1, 24, 1 << 16 | 16, 1 << 40]:
                    w = v not in OK and nat_bad(chk, v)
                    if w:
                        return violated(w, dict(kind='bitrev', module='bitrevgen', n=v))
                why = why or '%s %s' % x
                if time.time() - t0 > 120:
                    break
    except Unsupported as e:
        why = why or str(e)
    return undecided(why) if why else proved(funcs=dict(P.funcs_run), detail='%d paths' % st['paths'])


def argc_goal(chk):
    for k in (0, 2):
        P = prog(chk)
        P.begin()
        P.new_call()
        try:
            rc = call(P, [16, 16][:k])
        except (MemError, Unsupported, UB):
            rc = None
        if not rc or P.files:
            r = nat_run(chk, GEN, [16, 16][:k])
            if r[0] == 0 or r[0] == 'timeout' or r[0] < 0 or r[1]:
                return violated('%s with %d arguments: status %s, files %s' % (GEN, k, r[0], sorted(r[1])), dict(kind='bitrev', module='bitrevgen', argc=k))
            return undecided('%d arguments: %s' % (k, rc))
    return proved(funcs=dict(P.funcs_run))


def fault_goal(chk, k, n):
    P = prog(chk)
    P.begin()
    P.fault = ('fopen', k)
    P.new_call()
    try:
        rc = call(P, [n])
    except (MemError, UB) as e:
        rc = None
    except Unsupported as e:
        return undecided(str(e))
    if P.cnt.get('fopen', 0) >= k and not (type(rc) is int and rc & 255):
        w = nat_fault(chk, GEN, ('fopen', k), n, None)
        return violated(w, dict(kind='bitrev', module='bitrevgen', n=n, fault=k)) if w else undecided('success although fopen %d fails' % k)
    return proved(funcs=dict(P.funcs_run))


def replay(d):
    chk = Check(d['property'], 'replay', tables=False)
    if 'fault' in d:
        return nat_fault(chk, GEN, ('fopen', d['fault']), d['n'], None)
    if 'argc' in d:
        r = nat_run(chk, GEN, [16, 16][:d['argc']])
        return 'status %s' % r[0] if r[0] == 0 or r[0] == 'timeout' or r[0] < 0 or r[1] else None
    return nat_bad(chk, d['n'])


def main(pid):
    chk = Check(pid, 'symbolic execution of main() (clang IR), symbolic 64-bit size, failing fopen; z3 decides the paths and, per valid size, the partner of every index', tables=False)
    chk.bounds = dict(sizes='all 64-bit integers; table contents for each of the 15 valid sizes', faults='each single failing fopen')
    chk.assumptions = ['the argument is a decimal number that fits a long', 'writes to an open file succeed']
    chk.trusted = ['clang front end', 'z3', 'engine/*.py']
    chk.S.ir(GEN + '.c')
    exe(chk, GEN)
    for n in OK:
        chk.goal('table n=%d' % n, size_goal, weight=n, n=n)
    chk.goal('invalid sizes', reject_goal, weight=20000)
    chk.goal('number of arguments', argc_goal, weight=1)
    for k in (1, 2):
        for n in (2, 16, 1024):
            chk.goal('failing fopen %d n=%d' % (k, n), fault_goal, weight=2, k=k, n=n)
    return chk.run()
