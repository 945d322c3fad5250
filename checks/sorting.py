"""C18: the sort routine returns the sorted permutation."""
import re
from common import *
from zpath import *
import bmc
import z3

U64 = (0, 2 ** 64 - 1)


def setup(chk):
    C = ZCtx()
    P = ZProgram(C)
    P.add_module(chk.S.ir('sort.c'), 'sort.c')
    return C, P


# ------------------------------------------------------------------ native
def run_native(so, vals, pre=()):
    L = ctypes.CDLL(so)
    for p in pre:
        raw, whole, v = guarded([x - (1 << 64) if x >> 63 else x for x in p], np.int64)
        L.sort(vp(v), ctypes.c_uint32(len(p)))
    raw, whole, v = guarded([x - (1 << 64) if x >> 63 else x for x in vals], np.int64)
    L.sort(vp(v), ctypes.c_uint32(len(vals)))
    n = len(vals)
    g = False
    if GMODE['mode'] == 'words':
        g = bool((whole[:64].view(np.uint8) != 0xA5).any() or (whole[64 + n:].view(np.uint8) != 0xA5).any())
    return [int(x) & (2 ** 64 - 1) for x in v], g


def judge(so, vals, pre=()):
    vals = [int(x) for x in vals]
    for mode in ('words', 'end', 'start'):
        st, r = in_child(_moded, mode, run_native, so, vals, pre, timeout=20)
        if st != 'ok':
            return 'sort of %s: %s %s%s' % (vals[:40], st, r, '' if mode == 'words' else ' (access outside the array)')
        if r[1]:
            return 'sort of %s writes outside the array' % vals[:40]
        if r[0] != sorted(vals):
            return 'sort of %s gives %s' % (vals[:40], r[0][:40])
    return None


from common import _moded


# ------------------------------------------------------------------ all contents, small lengths
def claim_body(C, P, fn, n, pre=0, stub=None, order=None):
    def body():
        for k in range(pre):
            o = P.array('p', [C.input('p%d' % i, *U64) for i in range(n)], 8)
            P.call(fn, [Ptr(o, 0), n])
        xs = [C.input('x%d' % i, *U64) for i in range(n)]
        if order is not None:
            idx = sorted(range(n), key=lambda i: order[i])
            for i, j in zip(idx, idx[1:]):
                C.s.add(xs[i].e == xs[j].e if order[i] == order[j] else xs[i].e < xs[j].e)
        o = P.array('a', xs, 8)
        v = C.input('v', *U64)
        P.skolem = v
        P.depth = 0
        P.call(fn, [Ptr(o, 0), n], P.mods[0])
        ys = [C.uval(y, 64) for y in P.read_array(o, n, 8)]
        for i in range(n - 1):
            m = C.refute(ex(ys[i]) <= ex(ys[i + 1]))
            if m:
                return ('ret', 'not in order at %d' % i, m)
        if all(any(y is x or (type(y) is Z and z3.eq(y.e, x.e)) for x in xs) for y in ys):
            ids = sorted(y.e.get_id() for y in ys)
            if ids == sorted(x.e.get_id() for x in xs):
                return None          # syntactically a permutation
        cnt = lambda zs: z3.Sum([z3.If(ex(z) == v.e, z3.IntVal(1), z3.IntVal(0)) for z in zs]) if zs else z3.IntVal(0)
        m = C.refute(cnt(ys) == cnt(xs))
        return ('ret', 'not a permutation', m) if m else None
    return body


def explore(C, P, body, max_paths=60000, limit=4):
    bad, n = [], 0

    def run():
        P.begin()
        P.new_call()
        try:
            return body()
        except Leave as e:
            return ('leave', e.kind, C.model())
        except UB as e:
            return ('ub', str(e), e.model)
        except MemError as e:
            return ('mem', str(e), C.model())
    for r in C.paths(run, max_paths):
        n += 1
        if r is not None:
            bad.append(r)
            if len(bad) >= limit:
                break
    return n, bad


def answer(chk, C, P, n, npaths, bad, note=''):
    if not bad:
        return proved(funcs=dict(P.funcs_run), detail='%d paths, %d queries%s' % (npaths, C.queries, note))
    so = native(chk)
    rng = random.Random(SEED)
    for b in bad:
        if b[2] in (None, 'unknown'):
            continue
        vals = [b[2].get('x%d' % i, 0) for i in range(n)]
        pre = [[b[2]['p%d' % i] for i in range(n)]] if 'p0' in b[2] else []
        w = judge(so, vals, pre)
        if w:
            return violated('%s (%s)' % (w, b[1]), dict(kind='sort', module='sorting', vals=vals, pre=pre))
    # the counterexample of a part (recursive call replaced by its specification): complete it by searching around
    for b in bad:
        if b[2] in (None, 'unknown'):
            continue
        base = [b[2].get('x%d' % i, 0) for i in range(n)]
        for rep in range(400):
            m = rng.choice((n, n + 1, n + 3, 2 * n, 3 * n))
            vals = [rng.choice(base) if base else 0 for _ in range(m)]
            w = judge_fast(so, vals)
            if w:
                return violated('%s (%s)' % (w, b[1]), dict(kind='sort', module='sorting', vals=vals, pre=[]))
    return undecided('%s: %s %s (not reproduced)' % bad[0])


def judge_fast(so, vals):
    st, r = in_child(run_native, so, vals, timeout=20)
    if st != 'ok' or r[1] or r[0] != sorted(vals):
        return judge(so, vals)
    return None


def all_goal(chk, n):
    C, P = setup(chk)
    np_, bad = explore(C, P, claim_body(C, P, 'sort', n))
    if P.stale() and n:
        k, b2 = explore(C, P, claim_body(C, P, 'sort', n, pre=1))
        np_ += k
        bad += b2
    return answer(chk, C, P, n, np_, bad)


# ------------------------------------------------------------------ one level of recursion, recursive calls by their specification
class SortP(ZProgram):
    def run(self, f, args):
        if f.name in self.rec and self.depth and len(args) == 2 and type(args[1]) is int and type(args[0]) is Ptr and args[1] < self.top:
            return self.spec(f.name, args[0], args[1])
        self.depth += 1
        r = ZProgram.run(self, f, args)
        self.depth -= 1
        return r

    def spec(self, name, p, m):
        C = self.ctx
        self.used.add('%s/%d' % (name, m))
        if m == 0:
            return None
        self.check(p, 8 * m, True)
        xs = [C.uval(x, 64) for x in self.read_array(p.o, m, 8, p.off)]
        ys = [C.fresh(*U64) for _ in range(m)]
        for a, b in zip(ys, ys[1:]):
            C.s.add(a.e <= b.e)
        for y in ys:
            C.s.add(z3.Or(*[y.e == ex(x) for x in xs]))
        v = self.skolem
        one, zero = z3.IntVal(1), z3.IntVal(0)
        C.s.add(z3.Sum([z3.If(y.e == v.e, one, zero) for y in ys]) == z3.Sum([z3.If(ex(x) == v.e, one, zero) for x in xs]))
        for i, y in enumerate(ys):
            self.store(Ptr(p.o, p.off + 8 * i), 8, y)
        return None


def recursive_functions(P):
    """functions of type void(ptr, i32) that lie on a cycle of the call graph"""
    m = P.mods[0]
    calls = {}
    for f in m.funcs.values():
        calls[f.name] = set()
        for b in f.order:
            for s in f.blocks[b]:
                k = re.search(r'call .*?@([\w.$-]+)\(', s)
                if k and k.group(1) in m.funcs:
                    calls[f.name].add(k.group(1))
    out = set()
    for f in calls:
        seen, todo = set(), list(calls[f])
        while todo:
            g = todo.pop()
            if g not in seen:
                seen.add(g)
                todo += calls[g]
        if f in seen and len(m.funcs[f].params) == 2 and m.funcs[f].rett[0] == 'v':
            out.add(f)
    return out


class SortCheck(Check):
    def post(self, res):
        """a recursive routine need not be correct on lengths with which it is never called"""
        uses = set(u for r in res for u in r.get('uses', ()))
        return [r for r in res if not (r['status'] == 'undecided' and r.get('part') and r['part'] not in uses)]


def level_goal(chk, fn, n):
    C = ZCtx()
    P = SortP(C)
    P.add_module(chk.S.ir('sort.c'), 'sort.c')
    P.rec = recursive_functions(P)
    P.used = set()
    P.top = n
    P.depth = 0
    np_, bad = explore(C, P, claim_body(C, P, fn, n))
    if not bad and P.stale():
        return undecided('static data in a recursive routine')
    r = answer(chk, C, P, n, np_, bad, ', recursive calls replaced by the specification (proved for the smaller lengths)')
    r['uses'] = sorted(P.used)
    if fn != 'sort':
        r['part'] = '%s/%d' % (fn, n)
    return r


# ------------------------------------------------------------------ fixed order types, symbolic values, long arrays
def order_goal(chk, n, kind):
    rng = random.Random('%d %d %s' % (SEED, n, kind))
    order = {'up': list(range(n)), 'down': list(range(n))[::-1], 'equal': [0] * n, 'organ': [min(i, n - i) for i in range(n)],
             'two': [i & 1 for i in range(n)], 'rand': rng.sample(range(n), n), 'dup': [rng.randrange(max(1, n // 4)) for _ in range(n)],
             'few': [rng.randrange(3) for _ in range(n)], 'midmax': [n if i == n // 2 else i for i in range(n)], 'midmin': [-1 if i == n // 2 else i for i in range(n)]}[kind]
    C, P = setup(chk)
    np_, bad = explore(C, P, claim_body(C, P, 'sort', n, order=order))
    return answer(chk, C, P, n, np_, bad)


# ------------------------------------------------------------------ long arrays: every key anywhere in a slot of its own
def slot_goal(chk, n, kind):
    """lengths beyond 8- and 16-bit counters: the slots are disjoint, so one path covers all values in them"""
    rng = random.Random('%d %d %s' % (SEED, n, kind))
    order = {'up': list(range(n)), 'down': list(range(n))[::-1], 'rand': rng.sample(range(n), n)}[kind]
    C, P = setup(chk)
    W = 2 ** 64 // n
    P.max_steps = 60_000_000
    so = native(chk)
    why = None
    P.begin()
    P.new_call()
    C.reset()
    C.prefix = []
    xs = [Z(z3.Int('x%d' % i), k * W, k * W + W - 1) for i, k in enumerate(order)]
    pos = {id(x): k for x, k in zip(xs, order)}
    o = P.array('a', xs, 8)
    try:
        P.call('sort', [Ptr(o, 0), n], P.mods[0])
        ys = P.read_array(o, n, 8)
        for i, y in enumerate(ys):
            if pos.get(id(y)) != i:
                why = 'element %d of the result is not the input of rank %d' % (i, i)
                break
    except (MemError, UB, Leave) as e:
        why = str(e)
    except Unsupported as e:
        why = 'Unsupported: %s' % e
    except RecursionError:
        why = 'recursion too deep'
    if why is None:
        return proved(funcs=dict(P.funcs_run), detail='%d steps, one path' % P.steps)
    for vals in ([k * W for k in order], [k * W + W - 1 for k in order], [k * W + rng.randrange(W) for k in order]):
        w = judge(so, vals)
        if w:
            return violated('%s (%s)' % (w[:300], why), dict(kind='sort', module='sorting', vals=vals, pre=[]))
    return undecided(why)


# ------------------------------------------------------------------ medium lengths with CBMC
def data_independent(chk):
    """array elements are only moved and compared (unsigned, 64 bits)"""
    C, P = setup(chk)
    m = P.mods[0]
    taint = {}
    params, rets = set(), set()
    while True:
        size = (sum(map(len, taint.values())), len(params), len(rets))
        for f in m.funcs.values():
            T = taint.setdefault(f.name, set())
            for i, (t, nm) in enumerate(f.params):
                if (f.name, i) in params:
                    T.add(nm)
            for b in f.order:
                for s in f.blocks[b]:
                    k = re.match(r'(%[\w.$"-]+) = (.*)$', s)
                    dst, body = (k.group(1), k.group(2)) if k else (None, s)
                    ops = set(re.findall(r'%[\w.$-]+', body)) & T
                    op = body.split()[0]
                    if op in ('tail', 'musttail', 'notail'):
                        op = 'call'
                    if op == 'load' and re.match(r'load (volatile )?i64', body):
                        T.add(dst)
                        continue
                    if not ops:
                        if op == 'call':
                            c = re.search(r'@([\w.$-]+)\(', body)
                            if c and c.group(1) in rets and dst:
                                T.add(dst)
                        continue
                    if op == 'icmp':
                        if not re.match(r'icmp (u\w\w|eq|ne) i64', body):
                            return False
                    elif op in ('phi', 'select', 'freeze'):
                        T.add(dst)
                    elif op == 'store':
                        if not re.match(r'store (volatile )?i64 %', body):
                            return False
                    elif op == 'ret':
                        rets.add(f.name)
                    elif op == 'call':
                        c = re.search(r'@([\w.$-]+)\((.*)\)', body)
                        if not c or c.group(1) not in m.funcs:
                            return False
                        from llir import tokenize_types
                        for i, a in enumerate(tokenize_types(c.group(2))):
                            if set(re.findall(r'%[\w.$-]+', a)) & T:
                                params.add((c.group(1), i))
                        if c.group(1) in rets and dst:
                            T.add(dst)
                    else:
                        return False
        if size == (sum(map(len, taint.values())), len(params), len(rets)):
            return True


HARNESS = '''
#include <stdint.h>
#include "sort.c"
unsigned long nondet_u(void);
int main(void) {
  uint64_t in_a[%(n)d], b[%(n)d], in_v = nondet_u();
  unsigned i, c = 0, d = 0;
  for (i = 0; i < %(n)d; i++) { in_a[i] = nondet_u(); __CPROVER_assume(in_a[i] < %(n)d); b[i] = in_a[i]; }
  sort(b, %(n)d);
  for (i = 0; i + 1 < %(n)d; i++) __CPROVER_assert(b[i] <= b[i + 1], "order");
  for (i = 0; i < %(n)d; i++) { c += in_a[i] == in_v; d += b[i] == in_v; }
  __CPROVER_assert(c == d, "permutation");
  return 0;
}
'''


def cbmc_goal(chk, n):
    if not data_independent(chk):
        return undecided('elements are not only compared and moved: the bounded values do not stand for all values')
    r = bmc.run(chk, 'sort%d' % n, HARNESS % dict(n=n), unwind=n + 2, timeout=500 if TIER == 'quick' else 3000, extra=['--sat-solver', 'cadical'] if has_cadical() else [])
    if r.status == 'ok':
        return proved(funcs={'sort': 1}, detail='CBMC: %d properties, %d VCCs, %.1f s' % (r.props, r.vccs, r.wall))
    if r.status == 'fail':
        so = native(chk)
        for p, desc, m in r.failed:
            vals = bmc.arr(m, 'in_a', n)
            w = judge(so, vals)
            if w:
                return violated('%s (%s)' % (w, desc), dict(kind='sort', module='sorting', vals=vals, pre=[]))
        return undecided('CBMC: %s (not reproduced)' % (r.failed[0][:2],))
    return undecided('CBMC: ' + r.text)


def has_cadical():
    import subprocess
    return b'sat-solver' in subprocess.run(['cbmc', '--help'], stdout=subprocess.PIPE).stdout


def native(chk):
    return chk.native(['sort.c'], 'sort')


def replay(d):
    chk = Check(d['property'], 'replay', tables=False)
    return judge(native(chk), d['vals'], d.get('pre') or ())


def main(pid):
    q = TIER == 'quick'
    chk = SortCheck(pid, 'path-exhaustive symbolic execution of the compiled IR with symbolic 64-bit contents (z3), CBMC for medium lengths', tables=False)
    top = 13 if q else 15
    C, P = setup(chk)
    rec = sorted(recursive_functions(P))
    full = 7 if q else 8
    bm = (8, 9)
    orders = (16, 33, 100) if q else (16, 33, 64, 100, 256, 600)
    chk.bounds = dict(all_contents='lengths 0..%d: all 64-bit contents; 8..9: all order types (elements are only compared and moved); 10..%d: all contents, recursive calls replaced by the property for the smaller lengths' % (full, top),
                      recursive_functions=rec, order_types='lengths %s: ten order types, all values of that order' % (orders,), long_arrays='lengths 300, 1000 and 66000: keys in disjoint slots (every value of each slot), three orders')
    chk.assumptions = ['clang -O0 IR and gcc -O3 code agree on code without undefined behaviour']
    chk.trusted = ['clang front end', 'z3', 'CBMC', 'engine/llir.py', 'engine/zpath.py']
    native(chk)
    for n in range(0, full + 1):
        chk.goal('all contents n=%d' % n, all_goal, weight=2 ** n, n=n)
    for n in bm:
        chk.goal('all order types n=%d' % n, cbmc_goal, weight=4 ** n, n=n)
    for n in range(10, top + 1):
        chk.goal('one level n=%d' % n, level_goal, weight=2 ** n, fn='sort', n=n)
    # the functions that are called recursively satisfy the specification on all smaller lengths too
    for f in rec:
        for n in range(0, top):
            if n <= 6 or n >= 10:
                chk.goal('one level %s n=%d' % (f, n), level_goal, weight=2 ** n, fn=f, n=n)
    for n in orders:
        for k in ('up', 'down', 'equal', 'organ', 'two', 'rand', 'dup', 'few', 'midmax', 'midmin'):
            chk.goal('order %s n=%d' % (k, n), order_goal, weight=n, n=n, kind=k)
    for n in (300, 1000, 66000) if q else (300, 1000, 10000, 66000, 140000):
        for k in ('up', 'down', 'rand'):
            chk.goal('slots %s n=%d' % (k, n), slot_goal, weight=n, n=n, kind=k)
    return chk.run()
