"""Backward concretisation: finds program inputs for which given intermediate values take given
exact values, by inverting the definitions one at a time with the SMT solver."""
import z3
from common import *


class Dead(Exception):
    pass


class Reach:
    def __init__(self, C, rng, deadline):
        self.C, self.rng, self.deadline = C, rng, deadline
        self.inv = {}

    # ---- base values for which shape = u
    def invert(self, shape, rg, u, pref):
        key = (shape, rg, u, pref)
        if key in self.inv:
            return self.inv[key]
        vs = [z3.Int('v%d' % i) for i in range(len(rg))]
        s = z3.Solver()
        s.set('timeout', 2000)
        f = self.C.z3_shape(shape, vs)
        s.add(f == u)
        for v, (l, h) in zip(vs, rg):
            s.add(v >= l, v <= h)
        r = None
        for k in ((pref, None) if pref is not None else (None,)):
            s.push()
            if k is not None:
                for v, (l, h) in zip(vs, rg):
                    w = (h - l) // 8 + 1
                    c = l + (h - l) * k // 8
                    s.add(v >= c - w, v <= c + w)
            st = s.check()
            STATS.queries += 1
            if st == z3.sat:
                m = s.model()
                r = tuple(m.eval(v, model_completion=True).as_long() for v in vs)
            s.pop()
            if r is not None:
                break
        self.inv[key] = r
        return r

    def solve(self, goals):
        """goals: [(form, value)]; returns {input name: value} or None"""
        C, rng = self.C, self.rng
        val = {}

        def setatom(i, v, work):
            o = val.get(i)
            if o is not None:
                if o != v:
                    raise Dead
                return
            a = C.atoms[i]
            if not a.lo <= v <= a.hi:
                raise Dead
            dom = getattr(a, 'dom', None)
            if dom and v not in dom:
                raise Dead
            val[i] = v
            if a.kind == 'in':
                return
            if a.kind == 'def':
                bases = [C.form_by_id(b) for b in a.a[1]]
                sub = []
                for b in bases:
                    sub.append(b)
                rg = tuple((b.lo, b.hi) for b in bases)
                p = self.invert(a.a[0], rg, v, rng.choice((None, 1, 3, 4, 5, 7)))
                if p is None:
                    raise Dead
                for b, x in zip(bases, p):
                    work.append((b, x))
            elif a.kind == 'prod':
                f, g = C.form_by_id(a.a[0]), C.form_by_id(a.a[1])
                import cex
                fs = cex.factorings(C, a, v, rng, 4)
                if not fs:
                    raise Dead
                work.extend(rng.choice(fs))
            elif a.kind == 'div':
                f = C.form_by_id(a.a[0])
                lo, hi = max(f.lo, v * a.a[1]), min(f.hi, v * a.a[1] + a.a[1] - 1)
                if lo > hi:
                    raise Dead
                work.append((f, rng.randint(lo, hi)))
            elif a.kind == 'eq0':
                f = C.form_by_id(a.a[0])
                if v:
                    work.append((f, 0))
                else:
                    x = rng.choice((1, -1, rng.randint(f.lo, f.hi) or 1))
                    work.append((f, x if f.lo <= x <= f.hi else -x))
            elif a.kind == 'lt0':
                f = C.form_by_id(a.a[0])
                lo, hi = (f.lo, min(f.hi, -1)) if v else (max(f.lo, 0), f.hi)
                if lo > hi:
                    raise Dead
                work.append((f, rng.randint(lo, hi)))
            else:
                raise Dead

        try:
            work = list(goals)
            while work:
                if time.time() > self.deadline:
                    return None
                f, v = work.pop()
                if type(f) is int:
                    if f != v:
                        raise Dead
                    continue
                v -= f.c
                unk = []
                for i, k in f.t.items():
                    if i in val:
                        v -= k * val[i]
                    else:
                        unk.append((i, k))
                if not unk:
                    if v:
                        raise Dead
                    continue
                if len(unk) == 1:
                    i, k = unk[0]
                    if v % k:
                        raise Dead
                    setatom(i, v // k, work)
                    continue
                rng.shuffle(unk)
                # proportional choice for all but the last atoms; the last must have coefficient +-1
                unk.sort(key=lambda x: abs(x[1]) == 1)
                lo = sum(min(k * C.atoms[i].lo, k * C.atoms[i].hi) for i, k in unk)
                hi = sum(max(k * C.atoms[i].lo, k * C.atoms[i].hi) for i, k in unk)
                if not lo <= v <= hi:
                    raise Dead
                tot = hi - lo
                for n, (i, k) in enumerate(unk):
                    a = C.atoms[i]
                    l, h = min(k * a.lo, k * a.hi), max(k * a.lo, k * a.hi)
                    lo -= l
                    hi -= h
                    if n == len(unk) - 1:
                        if v % k:
                            raise Dead
                        x = v // k
                    else:
                        # remaining atoms must be able to absorb the rest: lo <= v-kx <= hi
                        c = l + (h - l) * (v - lo - l) // max(1, hi + h - lo - l)
                        j = max(1, (h - l) >> rng.choice((3, 5, 8)))
                        c += rng.randint(-j, j)
                        c = max(l, min(h, c))
                        c = max(v - hi, min(v - lo, c))
                        x = c // k
                        if k != 1 and not a.lo <= x <= a.hi:
                            x = max(a.lo, min(a.hi, x))
                    setatom(i, x, work)
                    v -= k * x
        except Dead:
            return None
        return {C.atoms[i].name: v for i, v in val.items() if C.atoms[i].kind == 'in'}
