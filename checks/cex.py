"""Turning solver models about intermediate values into concrete program inputs."""
import random
import numpy as np
from common import *


def inv(x):
    return pow(int(x) % Q, -1, Q)


class Lin:
    """incremental linear system over GF(Q)"""

    def __init__(self, n):
        self.n = n
        self.rows = {}     # pivot -> (row, rhs)

    def copy(self):
        c = Lin(self.n)
        c.rows = dict(self.rows)
        return c

    def add(self, row, rhs):
        row = np.array(row, dtype=np.int64) % Q
        rhs = int(rhs) % Q
        for p, (r, y) in self.rows.items():
            k = int(row[p])
            if k:
                row = (row - k * r) % Q
                rhs = (rhs - k * y) % Q
        nz = np.nonzero(row)[0]
        if len(nz) == 0:
            return rhs == 0
        p = int(nz[0])
        k = inv(row[p])
        row = row * k % Q
        rhs = rhs * k % Q
        for q in list(self.rows):
            r, y = self.rows[q]
            m = int(r[p])
            if m:
                self.rows[q] = ((r - m * row) % Q, (y - m * rhs) % Q)
        self.rows[p] = (row, rhs)
        return True

    def solve(self, rng, style=0):
        if style == 0:
            x = np.array([rng.randrange(Q) for _ in range(self.n)], dtype=np.int64)
        elif style == 1:
            x = np.zeros(self.n, dtype=np.int64)
        elif style == 2:
            x = np.array([rng.choice((0, Q - 1)) for _ in range(self.n)], dtype=np.int64)
        else:
            x = np.array([rng.choice((0, 1, Q - 1, 6144, 6145)) for _ in range(self.n)], dtype=np.int64)
        x0 = x.copy()
        for p in self.rows:
            x0[p] = 0
        for p, (r, y) in self.rows.items():
            x[p] = (y - int(np.dot(r, x0) - r[p] * x0[p])) % Q
        return x


def inputs_for(ring, n, cons, rng, style=0):
    """cons: list of (VecRing element, target). Returns (a, b) residues or None."""
    l0 = [(e, t) for e, t in cons if type(e) is not int and e[0] == 0]
    l1 = [(e, t) for e, t in cons if type(e) is not int and e[0] == 1]
    L = Lin(2 * n)
    for e, t in l0:
        if not L.add(e[2], t - e[1]):
            return None
    if not l1:
        x = L.solve(rng, style)
        return x[:n], x[n:]
    x = L.solve(rng, style)
    # fix a, the products become linear in b
    La = L.copy()
    for i in range(n):
        u = np.zeros(2 * n, dtype=np.int64)
        u[i] = 1
        La.add(u, x[i])
    for e, t in l1:
        row = np.zeros(2 * n, dtype=np.int64)
        c = e[1]
        for k in np.nonzero(e[2])[0]:
            m = int(e[2][k])
            pa, pb = ring.prods[k]
            if type(pa) is int or type(pb) is int:
                return None
            va = np.array(pa[2], dtype=np.int64)
            vb = np.array(pb[2], dtype=np.int64)
            if va[n:].any() and not va[:n].any():
                pa, pb, va, vb = pb, pa, vb, va
            if va[n:].any() or vb[:n].any():
                return None
            av = (int(np.dot(va[:n], x[:n])) + pa[1]) % Q
            row = (row + m * av * vb) % Q
            c = (c + m * av * pb[1]) % Q
        if not La.add(row, t - c):
            return None
    y = La.solve(rng, style)
    return y[:n], y[n:]


def leaf_constraints(C, zs_vals, cut):
    """constraints (ring element, value) for the unexpanded atoms of a model"""
    out = []
    for i, v in zs_vals.items():
        a = C.atoms[i]
        if a.kind in ('def', 'in', 'prod') and i in cut:
            try:
                out.append((C.res(C.atom_form(a)), v))
            except Exception:
                pass
    return out


def models(C, form, lo, hi, expands=(0, 1, 2, 3)):
    """solver models in which form leaves [lo,hi]; yields constraint lists"""
    import z3
    for ex in expands:
        zs, cons = {}, []
        f = C.z3_form(form, zs, cons, ex)
        for side in (f < lo, f > hi):
            block = []
            for rep in range(3):
                st, m = C.query(cons + [side] + block, 'lia')
                if st != 'sat':
                    break
                leaves = [i for i, v in zs.items() if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]
                vals = {i: m.eval(zs[i], model_completion=True).as_long() for i in leaves}
                cl = []
                for i in leaves:
                    try:
                        cl.append((C.res(C.atom_form(C.atoms[i])), vals[i], C.atom_form(C.atoms[i])))
                    except Exception:
                        pass
                yield cl
                block.append(z3.Or([zs[i] != vals[i] for i in leaves]) if leaves else z3.BoolVal(False))


def factorings(C, a, v, rng, limit=12):
    """constraint lists making the product atom a equal to v"""
    f, g = C.form_by_id(a.a[0]), C.form_by_id(a.a[1])
    out = []
    if v == 0:
        for h in (f, g):
            if h.lo <= 0 <= h.hi:
                out.append([(h, 0)])
        return out
    d = 1
    av = abs(v)
    while d * d <= av:
        if av % d == 0:
            for x in {d, -d, av // d, -(av // d)}:
                if v % x == 0 and f.lo <= x <= f.hi and g.lo <= v // x <= g.hi:
                    out.append([(f, x), (g, v // x)])
        d += 1
    rng.shuffle(out)
    return out[:limit]


def canonical(a):
    return a.hi - a.lo < Q or a.kind == 'in'


def concretise(C, ring, n, goals, rng, deadline, depth=3):
    """goals: list of (form, exact value).  Yields candidate inputs (a, b): solver models of the
    definitions between the goals and canonical values, completed by linear algebra mod Q."""
    import z3
    for ex in range(depth):
        if time.time() > deadline:
            return
        zs, cons = {}, []
        eqs = [C.z3_form(f, zs, cons, ex) == v for f, v in goals]
        leaves = [i for i, v in zs.items() if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        if not leaves or len(leaves) > 64:
            continue
        block = []
        fails = 0
        for rep in range(24):
            if time.time() > deadline or fails > 12:
                return
            old = C.timeout_ms
            C.timeout_ms = 3000
            st, m = C.query(cons + eqs + block, 'lia')
            C.timeout_ms = old
            if st != 'sat':
                break
            vals = {i: m.eval(zs[i], model_completion=True).as_long() for i in leaves}
            block.append(z3.Or([zs[i] != vals[i] for i in leaves]))
            base, prods, ok = [], [], True
            for i in leaves:
                a = C.atoms[i]
                if a.kind == 'prod':
                    fs = factorings(C, a, vals[i], rng)
                    if not fs:
                        ok = False
                        break
                    prods.append(fs)
                else:
                    base.append((C.atom_form(a), vals[i]))
            if not ok:
                fails += 0.3
                continue
            import itertools
            for combo in itertools.islice(itertools.product(*prods), 12):
                cl = list(base)
                for c in combo:
                    cl += c
                try:
                    rl = [(C.res(f) if type(f) is Form else f % Q, v) for f, v in cl]
                except Exception:
                    fails += 1
                    continue
                if any(type(e) is int and (e - v) % Q for e, v in rl):
                    continue
                hit = False
                for style in (0, 1, 2):
                    r = inputs_for(ring, n, rl, rng, style)
                    if r is not None:
                        hit = True
                        yield r
                if not hit:
                    fails += 1
