"""Shared infrastructure of the checks: goals, parallel execution, evidence, replay."""
import os, sys, json, time, random, traceback, hashlib, ctypes, signal, select, pickle
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import numpy as np
import build
from build import Scratch, BuildError
from term import Ctx, Form, STATS, Unsupported, Lawless, Q, solve_mod
from rings import VecRing, MonoRing, RingError
from llir import Program, Ptr, Obj, MemError
from x86 import AsmProg, Machine, AbiError, force

SIZES = (16, 256, 512, 1024)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(VERIF, 'evidence', 'replay')


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ goals
class Goal:
    """one proof goal: fn(check, **kw) -> dict(status='proved'|'violated'|'undecided', ...)"""

    def __init__(self, name, fn, weight=1, /, **kw):
        self.name, self.fn, self.kw, self.weight = name, fn, kw, weight


def proved(**kw):
    return dict(status='proved', **kw)


def undecided(why, **kw):
    return dict(status='undecided', why=why, **kw)


def violated(what, replay, **kw):
    """replay: dict(kind=..., ...) that checks/replay.py can re-execute"""
    return dict(status='violated', what=what, replay=replay, **kw)


def _run_goal(args):
    check, i, tmo = args
    g = check.goals[i]
    STATS.__init__()
    t0 = time.time()

    def alarm(sig, frm):
        raise TimeoutError('goal timeout')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(tmo))
    try:
        r = g.fn(check, **g.kw)
    except TimeoutError as e:
        r = undecided('timeout after %ds' % tmo)
    except (Unsupported, RingError) as e:
        r = undecided('%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])
    except Exception as e:
        r = undecided('%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
    signal.alarm(0)
    r['goal'] = g.name
    r['wall_s'] = round(time.time() - t0, 2)
    st = STATS.asdict()
    for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'lemmas'):
        r.setdefault('smt', {})[k] = r.get('smt', {}).get(k, 0) + st.get(k, 0)
    lem = list(STATS.lemmas)
    r['lemma_samples'] = lem[:3]
    return r


def spawn(fn, *args):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            d = pickle.dumps(fn(*args))
            with os.fdopen(w, 'wb') as f:
                f.write(d)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def reap(pid, fd):
    os.close(fd)
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)


class Check:
    def __init__(self, pid, technique, level='other', tables=True):
        self.pid = pid
        self.technique = technique
        self.level = level
        self.t0 = time.time()
        self.goals = []
        self.bounds = {}
        self.assumptions = []
        self.trusted = []
        self.notes = []
        self.S = Scratch(tables=tables)
        self._native = {}
        self._asm = None
        self.last = (None, None)

    def goal(self, name, fn, /, weight=1, **kw):
        self.goals.append(Goal(name, fn, weight, **kw))

    # -------------------------------------------------- sources
    def ir(self, *files, flags=()):
        return [(f, self.S.ir(f, flags)) for f in files]

    def program(self, ctx, files, flags=()):
        P = Program(ctx)
        self.last = (ctx, P)
        for f in files:
            P.add_module(self.S.ir(f, flags), f)
        return P

    def asm(self):
        if self._asm is None:
            self._asm = AsmProg(self.S.asm_obj(), os.path.join(self.S.dir, 'asm.elf'))
        return self._asm

    def native(self, files, name='lib', flags=('-O3',)):
        """path of a shared library built from the sources under /repo"""
        key = (tuple(files), name, tuple(flags))
        if key not in self._native:
            self._native[key] = self.S.native(files, name, flags)
        return self._native[key]

    # -------------------------------------------------- run
    def run(self, jobs=None, goal_timeout=None):
        jobs = jobs or min(8, os.cpu_count() or 1)
        goal_timeout = goal_timeout or (330 if TIER == 'quick' else 3000)
        known = load_known(self.pid)
        # two cheapest goals first (early counterexamples), then the expensive ones
        order = sorted(range(len(self.goals)), key=lambda i: self.goals[i].weight)
        order = order[:4] + order[4:][::-1]
        res = []
        budget = 820 if TIER == 'quick' else 36000
        # one forked process (group) per goal and a pipe each: nothing is shared, so native code that goes wild in
        # a replay cannot disturb the others
        live = {}
        try:
            while order or live:
                while order and len(live) < jobs and time.time() - self.t0 < budget:
                    i = order.pop(0)
                    pid, fd = spawn(_run_goal, (self, i, goal_timeout))
                    live[fd] = [pid, i, b'', time.time()]
                late = time.time() - self.t0 >= budget
                for fd in (select.select(list(live), [], [], 0.2)[0] if live and not late else []):
                    d = os.read(fd, 1 << 20)
                    if d:
                        live[fd][2] += d
                        continue
                    pid, i, data, _ = live.pop(fd)
                    reap(pid, fd)
                    try:
                        r = pickle.loads(data)
                    except Exception as e:
                        r = dict(undecided('worker died'), goal=self.goals[i].name, wall_s=0, smt={})
                    res.append(r)
                    if r['status'] == 'violated' and not match_known(known, r):
                        order = []      # one confirmed counterexample decides the check
                        raise StopIteration
                for fd, (pid, i, _, t) in list(live.items()):
                    if late or time.time() - t > goal_timeout + 40:
                        live.pop(fd)
                        reap(pid, fd)
                        res.append(dict(undecided('time budget exhausted'), goal=self.goals[i].name, wall_s=round(time.time() - t, 1), smt={}))
                if late:
                    res += [dict(undecided('time budget of the check exhausted'), goal=self.goals[i].name, wall_s=0, smt={}) for i in order]
                    order = []
        except StopIteration:
            pass
        for fd, x in live.items():
            reap(x[0], fd)
        return self.finish(self.post(res), known)

    def post(self, res):
        return res

    def finish(self, res, known):
        viol, und, kf = [], [], []
        for r in res:
            if r['status'] == 'violated':
                k = match_known(known, r)
                if k:
                    kf.append((k, r))
                else:
                    viol.append(r)
            elif r['status'] == 'undecided':
                und.append(r)
        smt = {}
        for r in res:
            for k, v in (r.get('smt') or {}).items():
                smt[k] = round(smt.get(k, 0) + v, 3)
        funcs = {}
        for r in res:
            for f, c in (r.get('funcs') or {}).items():
                funcs[f] = funcs.get(f, 0) + c
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level,
                  coverage=dict(
                      explanation='%s: %d of %d goals decided by the solver over the stated bounds; %d violated, %d undecided' % (
                          self.technique, sum(r['status'] == 'proved' for r in res), len(res), len(viol) + len(kf), len(und)),
                      obligations=len(res), discharged=sum(r['status'] == 'proved' for r in res),
                      bounds=self.bounds,
                      functions_encoded=funcs, queries=smt.get('queries', 0), queries_unsat=smt.get('unsat', 0),
                      queries_sat=smt.get('sat', 0), queries_unknown=smt.get('unknown', 0),
                      solver_s=smt.get('solver_s', 0), lemmas=smt.get('lemmas', 0),
                      checker_cmd='python3-vt run.py %s' % self.pid, trusted_base=self.trusted,
                      samples=[x for r in res for x in r.get('lemma_samples', [])][:12],
                      goals=[{k: v for k, v in r.items() if k in ('goal', 'status', 'wall_s', 'why', 'what', 'detail')} for r in res],
                      notes=self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(viol))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for r in res:
            if r['status'] != 'proved':
                log('  %-40s %s %s' % (r['goal'], r['status'], r.get('why') or r.get('what')))
                if os.environ.get('VERIF_DEBUG') and r.get('tb'):
                    log(r['tb'])
        log('%s: %d goals, %d proved, %d violated, %d known, %d undecided, %d queries, %.1f s solver, %.1f s' % (
            self.pid, len(res), ev['coverage']['discharged'], len(viol), len(kf), len(und), smt.get('queries', 0),
            smt.get('solver_s', 0), time.time() - self.t0))
        for k, r in kf:
            log('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if viol:
            os.makedirs(REPLAY, exist_ok=True)
            done = set()
            for r in viol[:5]:
                rp = r['replay']
                rp.update(property=self.pid, goal=r['goal'], what=r['what'])
                txt = json.dumps(rp, indent=1, default=str)
                p = os.path.join(REPLAY, '%s-%s.json' % (self.pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
                with open(p, 'w') as f:
                    f.write(txt)
                log('VIOLATION property=%s replay=%s' % (self.pid, p))
                log('   %s: %s' % (r['goal'], r['what']))
            return 1
        if und:
            # goals the engine could not decide are outside what this run explored; they are reported here and in the
            # evidence.  A run that decided nothing at all gives no answer.
            for r in und:
                log('UNDECIDED property=%s goal=%s' % (self.pid, r['goal']))
            return 0 if ev['coverage']['discharged'] else 2
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def match_known(known, r):
    for k in known:
        if k.get('goal') == r['goal'] and k.get('signature') == r.get('signature'):
            return k
    return None


# ------------------------------------------------------------------ native execution
def in_child(fn, *args, timeout=120):
    """run fn in a forked child; returns ('ok', value) | ('signal', n) | ('timeout', None) | ('error', text)"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                v = ('ok', fn(*args))
            except BaseException as e:
                v = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2000:]))
            d = pickle.dumps(v)
            with os.fdopen(w, 'wb') as f:
                f.write(d)
        finally:
            os._exit(0)
    os.close(w)
    import select
    data = b''
    t0 = time.time()
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ('timeout', None)
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        return ('signal', st & 127)
    return pickle.loads(data)


GMODE = {'mode': 'words'}
KEEP = []


def _moded(mode, fn, *args):
    GMODE['mode'] = mode
    return fn(*args)


def out_of_bounds(fn, *args, modes=('end', 'start')):
    """runs fn natively with inaccessible pages around every array: the mode that faults, or None"""
    for mode in modes:
        st, v = in_child(_moded, mode, fn, *args, timeout=60)
        if st == 'signal' and v in (7, 11):
            return mode
    return None


I32P = ctypes.POINTER(ctypes.c_int32)


def guarded(vals, dtype=np.int32, guard=64, aligned=True):
    """array with guard words around; returns (whole, view)"""
    dt = np.dtype(dtype)
    n = len(vals)
    if GMODE['mode'] != 'words' and n:
        # an inaccessible page directly after (end) or before (start) the array
        import mmap
        pg = mmap.PAGESIZE
        size = n * dt.itemsize
        body = (size + pg - 1) // pg * pg
        m = mmap.mmap(-1, body + 2 * pg)
        base = ctypes.addressof(ctypes.c_char.from_buffer(m))
        libc = ctypes.CDLL(None, use_errno=True)
        for at in (base, base + pg + body):
            if libc.mprotect(ctypes.c_void_p(at), ctypes.c_size_t(pg), 0):
                raise OSError('mprotect')
        off = pg + (body - size if GMODE['mode'] == 'end' else 0)
        v = np.frombuffer(m, dtype=dt, count=n, offset=off)
        v[:] = np.asarray(vals, dtype=np.int64).astype(dt)
        KEEP.append(m)
        return m, np.zeros(2 * guard, dtype=dt), v
    raw = np.full((n + 2 * guard) * dt.itemsize + 64, 0xA5, dtype=np.uint8)
    off = (-raw.ctypes.data) % 64
    whole = raw[off:off + (n + 2 * guard) * dt.itemsize].view(dt)
    whole[guard:guard + n] = np.asarray(vals, dtype=np.int64).astype(dt)
    return raw, whole, whole[guard:guard + n]


def vp(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def negacyclic(a, b):
    n = len(a)
    a = np.asarray(a, dtype=np.int64) % Q
    b = np.asarray(b, dtype=np.int64) % Q
    c = np.zeros(2 * n, dtype=np.int64)
    # exact: block sums stay below 2^53 / use integer convolution
    c[:2 * n - 1] = np.convolve(a, b)
    return (c[:n] - c[n:]) % Q


def modinv_rows(*a):
    raise NotImplementedError


def mat_mod(A, B):
    """exact (A @ B) mod Q for int matrices with entries in [0,Q) via float64 BLAS"""
    k = A.shape[-1]
    assert k * (Q - 1) ** 2 < 2 ** 53
    return np.rint(np.matmul(A.astype(np.float64), B.astype(np.float64)) % Q).astype(np.int64) % Q
