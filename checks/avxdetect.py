"""C19: avx2_supported, for all CPUID and XGETBV results."""
from common import *
import z3, subprocess, struct
from x86 import REGS

R64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15']
CALLEE = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
TOP = 0x7fff0000
RET = 0x1122334455667788


def bv(x, w=64):
    return z3.BitVecVal(x, w)


class St:
    def __init__(s):
        s.r = {x: z3.BitVec('init_' + x, 64) for x in R64}
        s.r['rsp'] = bv(TOP)
        s.fl = {}
        s.mem = {}
        s.pc = None
        s.path = []
        s.log = []

    def copy(s):
        t = St.__new__(St)
        t.r, t.fl, t.mem, t.pc, t.path, t.log = dict(s.r), dict(s.fl), dict(s.mem), s.pc, list(s.path), list(s.log)
        return t


class Explorer:
    def __init__(self, asm):
        self.asm = asm
        self.data = {}
        for addr, size, data, wr, al in asm.sections:
            for i, b in enumerate(data):
                self.data[addr + i] = b
        self.leaf = {}
        self.xcr = {}
        self.q = 0
        self.insns = set()

    def cpuid(self, leaf, sub):
        k = (leaf, sub if leaf in (4, 7, 11, 13, 14) else 0)
        if k not in self.leaf:
            self.leaf[k] = {r: z3.BitVec('cpuid_%x_%x_%s' % (k + (r,)), 32) for r in ('eax', 'ebx', 'ecx', 'edx')}
        return self.leaf[k]

    def xgetbv(self, i):
        if i not in self.xcr:
            self.xcr[i] = (z3.BitVec('xcr%d_lo' % i, 32), z3.BitVec('xcr%d_hi' % i, 32))
        return self.xcr[i]

    def feasible(self, conds):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*conds)
        t0 = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t0
        if r == z3.unsat:
            STATS.unsat += 1
        elif r == z3.sat:
            STATS.sat += 1
        return r

    # ---- operands
    def conc(self, x):
        x = z3.simplify(x)
        if not z3.is_bv_value(x):
            raise Unsupported('symbolic address or leaf')
        return x.as_long()

    def ea(self, s, o):
        _, sz, base, idx, sc, disp = o
        a = bv(disp & (2 ** 64 - 1))
        if base:
            a = a + s.r[base]
        if idx:
            a = a + s.r[idx] * sc
        return a

    def byte(self, s, a):
        if a in s.mem:
            return s.mem[a]
        if a in self.data:
            return bv(self.data[a], 8)
        if TOP - 4096 <= a < TOP + 64:
            raise MemError('read of uninitialised stack or of the caller\'s frame')
        raise MemError('read outside the stack and the data section')

    def load(self, s, o, w):
        a = self.conc(self.ea(s, o))
        return z3.Concat(*[self.byte(s, a + i) for i in reversed(range(w // 8))]) if w > 8 else self.byte(s, a)

    def store(self, s, a, v, w):
        for i in range(w // 8):
            x = a + i
            if not (TOP - 4096 <= x < TOP or x in self.data):
                raise MemError('store outside the stack frame and the data section')
            s.mem[x] = z3.Extract(8 * i + 7, 8 * i, v)

    def width(self, ops):
        for o in ops:
            if o[0] == 'r':
                return o[2]
        for o in ops:
            if o[0] == 'm' and o[1]:
                return 8 * o[1]
        raise Unsupported('operand size')

    def get(self, s, o, w):
        if o[0] == 'i':
            return bv(o[1] & (2 ** w - 1), w)
        if o[0] == 'r':
            return z3.Extract(w - 1, 0, s.r[o[1]])
        if o[0] == 'm':
            return self.load(s, o, w)
        raise Unsupported('operand')

    def put(self, s, o, v, w):
        if o[0] == 'r':
            if w == 64:
                s.r[o[1]] = v
            elif w == 32:
                s.r[o[1]] = z3.ZeroExt(32, v)
            else:
                s.r[o[1]] = z3.Concat(z3.Extract(63, w, s.r[o[1]]), v)
        else:
            self.store(s, self.conc(self.ea(s, o)), v, w)

    def logic(self, s, r, w):
        s.fl = dict(z=r == 0, s=z3.Extract(w - 1, w - 1, r) == 1, c=z3.BoolVal(False), o=z3.BoolVal(False))

    def subfl(self, s, a, b, w):
        r = a - b
        sg = lambda x: z3.Extract(w - 1, w - 1, x) == 1
        s.fl = dict(z=r == 0, s=sg(r), c=z3.ULT(a, b), o=z3.And(sg(a) != sg(b), sg(r) != sg(a)))
        return r

    def cc(self, s, c):
        f = s.fl
        g = lambda k: f[k] if k in f else (_ for _ in ()).throw(Unsupported('undefined flag'))
        neg = {'ne': 'e', 'nz': 'z', 'ae': 'b', 'nc': 'c', 'nb': 'b', 'a': 'be', 'ge': 'l', 'g': 'le', 'ns': 's', 'no': 'o', 'nbe': 'be', 'nl': 'l', 'nle': 'le'}
        if c in neg:
            return z3.Not(self.cc(s, neg[c]))
        if c in ('e', 'z'):
            return g('z')
        if c in ('b', 'c', 'nae'):
            return g('c')
        if c in ('be', 'na'):
            return z3.Or(g('c'), g('z'))
        if c in ('l', 'nge'):
            return g('s') != g('o')
        if c in ('le', 'ng'):
            return z3.Or(g('z'), g('s') != g('o'))
        if c == 's':
            return g('s')
        if c == 'o':
            return g('o')
        raise Unsupported('condition ' + c)

    # ---- run: returns list of final states
    def run(self, name, s0, env):
        s0.pc = self.asm.sym[name]
        self.store_ret(s0)
        todo, done = [s0], []
        steps = 0
        while todo:
            s = todo.pop()
            while True:
                steps += 1
                if steps > 20000:
                    raise Unsupported('step limit')
                op, ops, nxt = self.asm.decode(s.pc)
                self.insns.add(s.pc)
                if op in ('ret', 'repz', 'rep'):
                    a = self.conc(s.r['rsp'])
                    v = z3.simplify(z3.Concat(*[self.byte2(s, a + i) for i in reversed(range(8))]))
                    if not z3.is_bv_value(v):
                        raise AbiError('return address corrupted')
                    s.r['rsp'] = bv(a + 8)
                    if v.as_long() == RET and a == TOP:
                        done.append(s)
                        break
                    if v.as_long() not in self.asm.code:
                        raise AbiError('return to a wrong address')
                    s.pc = v.as_long()
                    continue
                if op == 'jmp':
                    s.pc = ops[0][1]
                    continue
                if op[0] == 'j':
                    c = z3.simplify(self.cc(s, op[1:]))
                    if z3.is_true(c):
                        s.pc = ops[0][1]
                    elif z3.is_false(c):
                        s.pc = nxt
                    else:
                        t = s.copy()
                        t.path.append(c)
                        t.pc = ops[0][1]
                        s.path.append(z3.Not(c))
                        s.pc = nxt
                        if self.feasible(env(self) + t.path) != z3.unsat:
                            todo.append(t)
                        if self.feasible(env(self) + s.path) == z3.unsat:
                            break
                    continue
                self.step(s, op, ops, nxt)
                s.pc = nxt
        return done

    def byte2(self, s, a):
        return s.mem[a] if a in s.mem else self.byte(s, a)

    def store_ret(self, s):
        for i in range(8):
            s.mem[TOP + i] = bv(RET >> 8 * i & 255, 8)

    def step(self, s, op, ops, nxt):
        if op in ('nop', 'endbr64'):
            return
        if op == 'push':
            a = self.conc(s.r['rsp']) - 8
            v = self.get(s, ops[0], 64)
            self.store(s, a, v, 64)
            s.r['rsp'] = bv(a)
            return
        if op == 'pop':
            a = self.conc(s.r['rsp'])
            v = z3.Concat(*[self.byte(s, a + i) for i in reversed(range(8))])
            s.r['rsp'] = bv(a + 8)
            self.put(s, ops[0], v, 64)
            return
        if op == 'call':
            a = self.conc(s.r['rsp']) - 8
            self.store(s, a, bv(nxt), 64)
            s.r['rsp'] = bv(a)
            raise Unsupported('call')
        if op == 'cpuid':
            leaf = self.conc(z3.Extract(31, 0, s.r['rax']))
            sub = None
            if leaf in (4, 7, 11, 13, 14):
                sub = self.conc(z3.Extract(31, 0, s.r['rcx']))
            s.log.append(('cpuid', leaf, sub, list(s.path)))
            d = self.cpuid(leaf, sub or 0)
            for r in ('a', 'b', 'c', 'd'):
                s.r['r%sx' % r] = z3.ZeroExt(32, d['e%sx' % r])
            return
        if op == 'xgetbv':
            i = self.conc(z3.Extract(31, 0, s.r['rcx']))
            s.log.append(('xgetbv', i, None, list(s.path)))
            lo, hi = self.xgetbv(i)
            s.r['rax'], s.r['rdx'] = z3.ZeroExt(32, lo), z3.ZeroExt(32, hi)
            return
        if op[:3] == 'set' and len(ops) == 1:
            self.put(s, ops[0], z3.If(self.cc(s, op[3:]), bv(1, 8), bv(0, 8)), 8)
            return
        w = self.width(ops)
        if op in ('mov', 'movabs'):
            self.put(s, ops[0], self.get(s, ops[1], w), w)
            return
        if op in ('movzx', 'movsx', 'movsxd'):
            sw = ops[1][2] if ops[1][0] == 'r' else 8 * ops[1][1]
            v = self.get(s, ops[1], sw)
            dw = ops[0][2]
            self.put(s, ops[0], (z3.ZeroExt if op == 'movzx' else z3.SignExt)(dw - sw, v), dw)
            return
        if op == 'lea':
            self.put(s, ops[0], z3.Extract(w - 1, 0, self.ea(s, ops[1])), w)
            return
        if op[:4] == 'cmov':
            self.put(s, ops[0], z3.If(self.cc(s, op[4:]), self.get(s, ops[1], w), self.get(s, ops[0], w)), w)
            return
        if op == 'xchg':
            a, b = self.get(s, ops[0], w), self.get(s, ops[1], w)
            self.put(s, ops[0], b, w)
            self.put(s, ops[1], a, w)
            return
        a = self.get(s, ops[0], w)
        if op in ('and', 'or', 'xor', 'test'):
            b = self.get(s, ops[1], w)
            if op == 'xor' and ops[0] == ops[1]:
                r = bv(0, w)
            else:
                r = {'and': lambda: a & b, 'test': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
            self.logic(s, r, w)
            if op != 'test':
                self.put(s, ops[0], r, w)
        elif op in ('cmp', 'sub'):
            r = self.subfl(s, a, self.get(s, ops[1], w), w)
            if op == 'sub':
                self.put(s, ops[0], r, w)
        elif op == 'add':
            b = self.get(s, ops[1], w)
            r = a + b
            sg = lambda x: z3.Extract(w - 1, w - 1, x) == 1
            s.fl = dict(z=r == 0, s=sg(r), c=z3.ULT(r, a), o=z3.And(sg(a) == sg(b), sg(r) != sg(a)))
            self.put(s, ops[0], r, w)
        elif op in ('sbb', 'adc'):
            c = z3.If(self.cc(s, 'c'), bv(1, w), bv(0, w))
            b = self.get(s, ops[1], w)
            r = a - b - c if op == 'sbb' else a + b + c
            s.fl = {}
            self.put(s, ops[0], r, w)
        elif op in ('inc', 'dec'):
            r = a + 1 if op == 'inc' else a - 1
            c = s.fl.get('c')
            s.fl = dict(z=r == 0, s=z3.Extract(w - 1, w - 1, r) == 1)
            if c is not None:
                s.fl['c'] = c
            self.put(s, ops[0], r, w)
        elif op == 'not':
            self.put(s, ops[0], ~a, w)
        elif op == 'neg':
            r = self.subfl(s, bv(0, w), a, w)
            self.put(s, ops[0], r, w)
        elif op in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror'):
            k = (ops[1][1] if len(ops) > 1 and ops[1][0] == 'i' else 1 if len(ops) == 1 else self.conc(z3.Extract(7, 0, s.r['rcx']))) & (63 if w == 64 else 31)
            if k == 0:
                return
            K = bv(k, w)
            r = {'shl': lambda: a << K, 'sal': lambda: a << K, 'shr': lambda: z3.LShR(a, K), 'sar': lambda: a >> K,
                 'rol': lambda: z3.RotateLeft(a, k), 'ror': lambda: z3.RotateRight(a, k)}[op]()
            s.fl = {} if op[0] == 'r' else dict(z=r == 0, s=z3.Extract(w - 1, w - 1, r) == 1)
            if op in ('shr', 'sar'):
                s.fl['c'] = z3.Extract(k - 1, k - 1, a) == 1
            elif op in ('shl', 'sal'):
                s.fl['c'] = z3.Extract(w - k, w - k, a) == 1
            self.put(s, ops[0], r, w)
        elif op in ('bt', 'btr', 'bts'):
            k = self.conc(self.get(s, ops[1], w if ops[1][0] == 'r' else 32)) % w
            s.fl = dict(c=z3.Extract(k, k, a) == 1)
            if op == 'btr':
                self.put(s, ops[0], a & bv(~(1 << k) & (2 ** w - 1), w), w)
            if op == 'bts':
                self.put(s, ops[0], a | bv(1 << k, w), w)
        elif op == 'imul' and len(ops) == 2:
            s.fl = {}
            self.put(s, ops[0], a * self.get(s, ops[1], w), w)
        elif op in ('andn',):
            b, c = self.get(s, ops[1], w), self.get(s, ops[2], w)
            r = ~b & c
            self.logic(s, r, w)
            self.put(s, ops[0], r, w)
        else:
            raise Unsupported('instruction ' + op)


def env(X):
    """the processor implements leaf 7 (maximum basic leaf >= 13 on every processor with XSAVE)"""
    out = []
    if (0, 0) in X.leaf:
        out.append(z3.UGE(X.leaf[(0, 0)]['eax'], 13))
        out.append(z3.ULT(X.leaf[(0, 0)]['eax'], 0x1000))
    if (7, 0) in X.leaf and (0, 0) in X.leaf:
        pass
    return out


def spec(X):
    l1, l7 = X.cpuid(1, 0), X.cpuid(7, 0)
    lo, _ = X.xgetbv(0)
    return z3.And(l1['ecx'] & 0x18000000 == 0x18000000, l7['ebx'] & 0x20 == 0x20, lo & 6 == 6)


STUB = r'''
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
struct leaf { uint32_t leaf, sub, r[4]; } L[64]; int nl; uint32_t xlo, xhi; int osx; int bad;
uint32_t *verif_cpuid_c(uint32_t leaf, uint32_t sub) {
  static uint32_t zero[4];
  int i, s = leaf == 4 || leaf == 7 || leaf == 11 || leaf == 13 || leaf == 14;
  for (i = 0; i < nl; i++) if (L[i].leaf == leaf && (!s || L[i].sub == sub)) return L[i].r;
  return zero;
}
void verif_xgetbv_c(void) { if (!osx) bad = 1; }
extern _Bool avx2_supported(void);
int main(int argc, char **argv) {
  int i, n = atoi(argv[1]), r = -1;
  xlo = strtoul(argv[2], 0, 0); xhi = strtoul(argv[3], 0, 0); osx = atoi(argv[4]);
  for (i = 5; i + 5 < argc; i += 6) {
    L[nl].leaf = strtoul(argv[i], 0, 0); L[nl].sub = strtoul(argv[i+1], 0, 0);
    for (int k = 0; k < 4; k++) L[nl].r[k] = strtoul(argv[i+2+k], 0, 0);
    nl++;
  }
  for (i = 0; i < n; i++) {
    register uint64_t b asm("rbx") = 0x1234567, c asm("r12") = 0x7654321;
    asm volatile("" : "+r"(b), "+r"(c));
    r = avx2_supported();
    asm volatile("" : "+r"(b), "+r"(c));
    if (b != 0x1234567 || c != 0x7654321) { printf("-2 %d\n", bad); return 0; }
  }
  printf("%d %d\n", r, bad);
  return 0;
}
'''
MACROS = r'''
        .intel_syntax noprefix
        .macro cpuid
        call verif_cpuid_s
        .endm
        .macro xgetbv
        call verif_xgetbv_s
        .endm
        .text
verif_cpuid_s:
        push rsi
        push rdi
        push r8
        push r9
        push r10
        push r11
        push rbp
        mov rbp, rsp
        and rsp, -16
        mov edi, eax
        mov esi, ecx
        call verif_cpuid_c
        mov r8, rax
        mov eax, [r8]
        mov ebx, [r8+4]
        mov ecx, [r8+8]
        mov edx, [r8+12]
        mov rsp, rbp
        pop rbp
        pop r11
        pop r10
        pop r9
        pop r8
        pop rdi
        pop rsi
        ret
verif_xgetbv_s:
        push rsi
        push rdi
        push rcx
        push r8
        push r9
        push r10
        push r11
        push rbp
        mov rbp, rsp
        and rsp, -16
        call verif_xgetbv_c
        mov eax, [xlo+rip]
        mov edx, [xhi+rip]
        mov rsp, rbp
        pop rbp
        pop r11
        pop r10
        pop r9
        pop r8
        pop rcx
        pop rdi
        pop rsi
        ret
'''


def stub_exe(chk):
    """the real assembly with the two instructions replaced by calls (assembler macros)"""
    out = os.path.join(chk.S.dir, 'avxstub')
    if not os.path.exists(out):
        s = open(os.path.join(chk.S.src, 'ntt_asm.S')).read()
        p = out + '.S'
        open(p, 'w').write(MACROS + s)
        open(out + '.c', 'w').write(STUB)
        build.sh(['gcc', '-w', '-no-pie', '-O1', '-fno-builtin', '-o', out, out + '.c', p, '-Wl,-z,noexecstack'])
    return out


def run_stub(chk, calls, leaves, xlo, xhi):
    osx = leaves.get((1, 0), [0, 0, 0, 0])[2] >> 27 & 1
    cmd = [stub_exe(chk), str(calls), str(xlo), str(xhi), str(osx)]
    for (l, s), r in sorted(leaves.items()):
        cmd += [str(l), str(s)] + [str(x) for x in r]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    if p.returncode:
        return None
    r, bad = p.stdout.split()
    return int(r), int(bad)


def want(leaves, xlo):
    z = [0] * 4
    return int(leaves.get((1, 0), z)[2] & 0x18000000 == 0x18000000 and leaves.get((7, 0), z)[1] & 0x20 == 0x20 and xlo & 6 == 6)


def judge(chk, calls, leaves, xlo, xhi):
    r = run_stub(chk, calls, leaves, xlo, xhi)
    d = ', '.join('leaf %x: ebx=%08x ecx=%08x edx=%08x' % (k[0], v[1], v[2], v[3]) for k, v in sorted(leaves.items()))
    if r is None:
        return 'crash for %s' % d
    if r[1]:
        return 'xgetbv is executed although OSXSAVE is not reported (%s)' % d
    if r[0] == -2:
        return 'callee-saved register clobbered (%s)' % d
    if r[0] != want(leaves, xlo):
        return 'returns %d for %s, XCR0=%x; expected %d' % (r[0], d, xlo, want(leaves, xlo))
    return None


def detect_goal(chk, calls):
    X = Explorer(chk.asm())
    X.cpuid(1, 0), X.cpuid(7, 0), X.xgetbv(0)
    why = None
    models = []

    def model(conds):
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(*conds)
        t0 = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t0
        if r == z3.unsat:
            STATS.unsat += 1
            return None
        if r != z3.sat:
            STATS.unknown += 1
            raise Unsupported('solver unknown')
        STATS.sat += 1
        m = s.model()
        g = lambda v: m.eval(v, model_completion=True).as_long()
        return {k: [g(d[x]) for x in ('eax', 'ebx', 'ecx', 'edx')] for k, d in X.leaf.items()}, g(X.xcr[0][0]), g(X.xcr[0][1])

    npaths = 0
    try:
        starts = [St()]
        for c in range(calls):
            ends = []
            for s in starts:
                mem = {a: b for a, b in s.mem.items() if a in X.data}
                t = St()
                t.mem, t.path = mem, list(s.path)
                ends += X.run('avx2_supported', t, env)
            npaths += len(ends)
            for s in ends:
                al = z3.Extract(7, 0, s.r['rax'])
                m = model(env(X) + s.path + [al != z3.If(spec(X), bv(1, 8), bv(0, 8))])
                if m:
                    why = why or 'wrong answer'
                    models.append(m)
                for x in CALLEE:
                    m = model(env(X) + s.path + [s.r[x] != z3.BitVec('init_' + x, 64)])
                    if m:
                        why = why or 'callee-saved register %s not preserved' % x
                        models.append(m)
                for k, i, sub, path in s.log:
                    if k == 'xgetbv':
                        if i:
                            raise Unsupported('xgetbv of XCR%d' % i)
                        m = model(env(X) + path + [X.leaf[(1, 0)]['ecx'] & (1 << 27) == 0])
                        if m:
                            why = why or 'xgetbv without OSXSAVE'
                            models.append(m)
            starts = ends
    except (MemError, AbiError, Unsupported) as e:
        why = why or '%s: %s' % (type(e).__name__, e)
    if why is None:
        rng = random.Random(SEED)
        for rep in range(40):
            lv = {k: [rng.getrandbits(32) for _ in range(4)] for k in X.leaf}
            lv[(1, 0)][2] |= rng.choice((0, 0x18000000))
            lv[(7, 0)][1] |= rng.choice((0, 0x20))
            if (0, 0) in lv:
                lv[(0, 0)][0] = 22
            x = rng.getrandbits(32) | rng.choice((0, 6))
            w = judge(chk, calls, lv, x, 0)
            if w:
                return undecided('encoding proves the property but the code disagrees: %s' % w)
        return proved(funcs={'avx2_supported': npaths}, detail='%d paths, %d instructions, %d cpuid leaves' % (npaths, len(X.insns), len(X.leaf)))
    rng = random.Random(SEED)
    z = lambda a, b, c, d: [a, b, c, d]
    for c in (0x18000000, 0x08000000, 0x10000000, 0, 0xffffffff, 0xe7ffffff, 0xf7ffffff, 0xefffffff):
        for b in (0x20, 0, 0xffffffff, 0xffffffdf):
            for x in (6, 2, 4, 0, 7, 0xff, 0xfffffffb, 0xfffffffd):
                models.append(({(0, 0): z(22, 0, 0, 0), (1, 0): z(0, 0, c, 0), (7, 0): z(0, b, 0, 0)}, x, 0))
                models.append(({(0, 0): z(22, 1, 1, 1), (1, 0): z(~0 & 0xffffffff, 0, c, 0), (7, 0): z(0, b, 0xffffffff, 0xffffffff)}, x, 0xffffffff))
    for lv, xl, xh in models:
        try:
            w = judge(chk, calls, lv, xl, xh)
        except (BuildError, subprocess.TimeoutExpired) as e:
            w = str(e)[:200] if isinstance(e, subprocess.TimeoutExpired) else None
        if w:
            return violated('avx2_supported: %s (%s)' % (w, why),
                            dict(kind='avx', module='avxdetect', calls=calls, leaves=[[list(k), v] for k, v in lv.items()], xlo=xl, xhi=xh))
    return undecided(why)


def replay(d):
    chk = Check(d['property'], 'replay', tables=False)
    return judge(chk, d['calls'], {tuple(k): v for k, v in d['leaves']}, d['xlo'], d['xhi'])


def main(pid):
    chk = Check(pid, 'path-exhaustive symbolic execution of the object code of avx2_supported with symbolic CPUID/XGETBV results, decided with z3 bit-vectors', tables=False)
    chk.bounds = dict(inputs='all 2^32 values of every CPUID output register and of XCR0', calls='1 and 2 consecutive calls, same processor')
    chk.assumptions = ['the processor implements CPUID leaf 7 (every processor that reports OSXSAVE has leaves up to 13)',
                       'counterexamples are replayed on the real assembly with the two instructions replaced by stubs']
    chk.trusted = ['z3', 'objdump', 'instruction semantics in checks/avxdetect.py']
    chk.asm()
    stub_exe(chk)
    chk.goal('one call', detect_goal, calls=1)
    chk.goal('two calls', detect_goal, calls=2)
    return chk.run()
