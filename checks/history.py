"""Call histories: when a routine reads mutable static data it has not written in the same call,
its result is checked again after every bounded sequence of earlier calls (all inputs symbolic)."""
from common import *
from reach import Reach


def trigger(P):
    """static objects through which an earlier call could influence this one"""
    return [x for x in P.stale() if not x.startswith('asm-data') or x in P.dirty]


class Family:
    """adaptor: keys = routines that share state
    program(C) -> Program; ring(k) -> ring for k calls; call(C, P, ring, key, j, k) runs call j of k
    (j = k-1 is the last, judged one) with inputs named 'j<j>_...'; judge(C, ring, state) -> None or why
    native(seq) -> None or what failed, for seq = [(key, inputs dict)];  fill(key, partial, rng) -> inputs"""


def conds(P, limit=60):
    out, seen = [], set()
    for pcs, c in P.forklog:
        k = (tuple((id(x), b) for x, b in pcs), id(c))
        if k in seen:
            continue
        seen.add(k)
        for b in (1, 0):
            out.append(list(pcs) + [(c, b)])
    return out[:limit]


class NotLinear(Exception):
    pass


def linear_inputs(C, g, rng, free=8, timeout=4000):
    """inputs that satisfy the branch conditions g jointly: exact SMT encoding when the conditions are
    (nested) comparisons of linear functions of the inputs; most inputs are fixed at random values first"""
    import z3
    memo, ins = {}, {}

    def atom(i):
        if i in memo:
            return memo[i]
        if len(memo) > 20000:
            raise NotLinear
        a = C.atoms[i]
        if a.kind == 'in':
            r = z3.Int(a.name)
            ins[a.name] = (r, a.lo, a.hi)
        elif a.kind == 'lt0':
            r = z3.If(form(C.form_by_id(a.a[0])) < 0, z3.IntVal(1), z3.IntVal(0))
        elif a.kind == 'eq0':
            r = z3.If(form(C.form_by_id(a.a[0])) == 0, z3.IntVal(1), z3.IntVal(0))
        elif a.kind == 'sel':
            r = z3.If(atom(a.a[0]) == 1, form(C.form_by_id(a.a[1])), z3.IntVal(0))
        elif a.kind == 'div':
            r = form(C.form_by_id(a.a[0])) / a.a[1]
        else:
            raise NotLinear
        memo[i] = r
        return r

    def form(f):
        if type(f) is int:
            return z3.IntVal(f)
        return z3.Sum([z3.IntVal(f.c)] + [k * atom(i) for i, k in f.t.items()])

    try:
        cons = [form(c) == b for c, b in g]
    except NotLinear:
        return None
    s = z3.Solver()
    s.set('timeout', timeout)
    for v, l, h in ins.values():
        s.add(v >= l, v <= h)
    s.add(*cons)
    names = sorted(ins)
    STATS.queries += 1
    # same random values in every call of a history, so that equality conditions stay satisfiable
    base = {}
    for k in (free, 4 * free, None):
        s.push()
        if k is not None:
            rng.shuffle(names)
            for nm in names[k:]:
                key = nm.split('_', 1)[-1]
                v, l, h = ins[nm]
                s.add(v == base.setdefault(key, rng.randint(l, h)))
        st = s.check()
        if st == z3.sat:
            m = s.model()
            r = {nm: m.eval(v, model_completion=True).as_long() for nm, (v, l, h) in ins.items()}
            s.pop()
            STATS.sat += 1
            return r
        s.pop()
        if st == z3.unknown:
            break
    return None


def branch_inputs(C, P, rng, deadline, reps=4, limit=120):
    """input assignments that drive the execution into each side of the data-dependent branches"""
    if C is None or P is None:
        return
    cs = conds(P, limit)
    for rep in range(reps):
        for g in cs:
            if time.time() > deadline:
                return
            try:
                r = linear_inputs(C, g, rng) or Reach(C, rng, min(deadline, time.time() + 3)).solve(list(g))
            except (Unsupported, RingError):
                r = None
            if r is not None:
                yield r


def split(env):
    d = {}
    for k, v in env.items():
        if k[0] != 'j' or '_' not in k:
            continue
        j, nm = k.split('_', 1)
        d.setdefault(int(j[1:]), {})[nm] = v
    return d


def candidates(fam, C, P, seq, rng, deadline):
    cs = conds(P) if P is not None else []
    for rep in range(6):
        for g in cs[::-1]:
            if time.time() > deadline:
                return
            r = linear_inputs(C, g, rng) or Reach(C, rng, min(deadline, time.time() + 5)).solve(list(g))
            if r is None:
                continue
            d = split(r)
            yield [(k, fam.fill(k, d.get(j, {}), rng)) for j, k in enumerate(seq)]
    for rep in range(30):
        base = fam.fill(seq[0], {}, rng)
        s = []
        for k in seq:
            x = {nm: (list(v) if isinstance(v, list) else v) for nm, v in base.items()} if fam.compatible(seq[0], k) else fam.fill(k, {}, rng)
            nm = rng.choice(sorted(x))
            if rep and isinstance(x[nm], list):
                y = fam.fill(k, {}, rng)[nm]
                m = rep % 4
                lo, hi = {0: (0, len(y)), 1: (1, len(y)), 2: (0, len(y) - 1), 3: (len(y) // 2, len(y))}[m]
                x[nm][lo:hi] = y[lo:hi]
            s.append((k, x))
        yield s
    for rep in range(10):
        yield [(k, fam.fill(k, {}, rng)) for k in seq]


def first_bad(fam, cands, limit):
    t0 = time.time()
    for s in cands:
        w = fam.native(s)
        if w:
            return s, w
        if time.time() - t0 > limit:
            return None
    return None


def explore(fam, key, seqs, funcs):
    """returns None when all sequences ending in key are fine, or a goal result"""
    rng = random.Random(SEED * 5 + 3)
    done = 0
    for seq in seqs:
        k = len(seq)
        C = P = None
        why = None
        try:
            ring = fam.ring(k)
            C = Ctx(ring, seed=SEED, round_bits=4)
            C.max_opaque = 40
            P = fam.program(C)
            st = None
            for j, kk in enumerate(seq):
                P.new_call()
                st = fam.call(C, P, ring, kk, j, k)
            why = fam.judge(C, ring, seq[-1], st)
            if why is None and C.obligations:
                why = 'possible overflow'
            for f, c in P.funcs_run.items():
                funcs[f] = funcs.get(f, 0) + c
        except (MemError, AbiError, Unsupported, RingError) as e:
            why = '%s: %s' % (type(e).__name__, e)
        if why is None:
            done += 1
            continue
        cands = list(candidates(fam, C, P, seq, rng, time.time() + 60))
        st, v = in_child(first_bad, fam, cands, 60, timeout=150)
        if st == 'ok' and v:
            s, w = v
            return violated('after %d earlier call(s) %s: %s (%s)' % (len(seq) - 1, [str(x) for x in seq[:-1]], w, why),
                            dict(fam.replay(), kind='history', seq=[[k, x] for k, x in s]))
        if st in ('signal', 'timeout'):
            for s in cands[:60]:
                st, v = in_child(fam.native, s, timeout=30)
                if st != 'ok' or v:
                    return violated('after earlier calls: %s' % (v if st == 'ok' else st), dict(fam.replay(), kind='history', seq=[[k, x] for k, x in s]))
        return undecided('history %s: %s' % (seq, why))
    # long concrete histories (counters): random calls only widen the search for counterexamples
    cands = [[(key, fam.fill(key, {}, rng)) for _ in range(60)] for _ in range(2)]
    st, v = in_child(first_bad, fam, cands, 30, timeout=60)
    if st == 'ok' and v:
        s, w = v
        return violated('after earlier calls: %s' % w, dict(fam.replay(), kind='history', seq=[[k, x] for k, x in s]))
    return None
