"""Symbolic interpreter for x86-64/AVX2 code (objdump disassembly of the assembled
/repo source) sharing memory and terms with llir.Program."""
import re, struct, subprocess
from term import Form, Unsupported
from llir import Ptr, Obj, MemError

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REGS = {}
for i, r in enumerate(R64):
    REGS[r] = (r, 64, 0)
for r, (a, b, c) in {'rax': ('eax', 'ax', 'al'), 'rcx': ('ecx', 'cx', 'cl'), 'rdx': ('edx', 'dx', 'dl'),
                     'rbx': ('ebx', 'bx', 'bl'), 'rsp': ('esp', 'sp', 'spl'), 'rbp': ('ebp', 'bp', 'bpl'),
                     'rsi': ('esi', 'si', 'sil'), 'rdi': ('edi', 'di', 'dil')}.items():
    REGS[a], REGS[b], REGS[c] = (r, 32, 0), (r, 16, 0), (r, 8, 0)
for i in range(8, 16):
    REGS['r%dd' % i], REGS['r%dw' % i], REGS['r%db' % i] = ('r%d' % i, 32, 0), ('r%d' % i, 16, 0), ('r%d' % i, 8, 0)
CALLEE = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')


class AbiError(Exception):
    """violation of the calling convention (callee-saved register, stack, undefined upper half)"""


class Lazy:
    __slots__ = ('fn', 'val', 'done')

    def __init__(self, fn):
        self.fn = fn
        self.done = False
        self.val = None


def force(x):
    while type(x) is Lazy:
        if not x.done:
            x.val = force(x.fn())
            x.done = True
            x.fn = None
        x = x.val
    return x


class Upper:
    """64-bit value whose low 32 bits are known and whose upper half is unspecified"""
    __slots__ = ('lo',)

    def __init__(self, lo):
        self.lo = lo & 0xffffffff


class AsmProg:
    def __init__(self, objfile, elf):
        subprocess.run(['ld', '-e', '0', '-o', elf, objfile], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = subprocess.run(['objdump', '-d', '--no-show-raw-insn', '-M', 'intel', elf], check=True,
                             stdout=subprocess.PIPE).stdout.decode()
        self.code = {}
        self.next = {}
        self.sym = {}
        prev = None
        for l in txt.split('\n'):
            m = re.match(r'^([0-9a-f]+) <([^>]+)>:', l)
            if m:
                self.sym[m.group(2)] = int(m.group(1), 16)
                continue
            m = re.match(r'^\s*([0-9a-f]+):\t(.*)$', l)
            if m:
                a = int(m.group(1), 16)
                t = m.group(2).split('#')[0].strip()
                self.code[a] = t
                if prev is not None:
                    self.next[prev] = a
                prev = a
        self.read_elf(elf)
        self.dec = {}

    def read_elf(self, elf):
        d = open(elf, 'rb').read()
        shoff, = struct.unpack_from('<Q', d, 0x28)
        esz, num, stri = struct.unpack_from('<HHH', d, 0x3A)
        secs = []
        for i in range(num):
            o = shoff + i * esz
            name, typ, flags, addr, off, size = struct.unpack_from('<IIQQQQ', d, o)
            align, = struct.unpack_from('<Q', d, o + 48)
            secs.append((name, typ, flags, addr, off, size, align))
        self.sections = []
        for (name, typ, flags, addr, off, size, align) in secs:
            if flags & 2 and not flags & 4 and size:      # allocated data
                data = d[off:off + size] if typ != 8 else bytes(size)
                self.sections.append((addr, size, data, bool(flags & 1), align))
        self.text = [(s[3], s[5]) for s in secs if s[2] & 4]
        # global function symbols
        self.globals = set()
        for i in range(num):
            o = shoff + i * esz
            name, typ, flags, addr, off, size, link = struct.unpack_from('<IIQQQQI', d, o)
            if typ == 2:
                stro = secs[link][4]
                for k in range(size // 24):
                    st_name, info, other, shndx, value, sz = struct.unpack_from('<IBBHQQ', d, off + 24 * k)
                    nm = d[stro + st_name:d.index(b'\0', stro + st_name)].decode()
                    if info >> 4 == 1 and shndx and nm and any(a <= value < a + s for a, s in self.text):
                        self.globals.add(nm)
                        self.sym[nm] = value

    # ------------------------------------------------------------------ operands
    def parse_op(self, s, nxt):
        s = s.strip()
        if s in REGS:
            return ('r',) + REGS[s]
        m = re.match(r'^([xy])mm(\d+)$', s)
        if m:
            return ('v', int(m.group(2)), 32 if m.group(1) == 'y' else 16)
        m = re.match(r'^-?0x[0-9a-f]+$|^-?\d+$', s)
        if m:
            return ('i', int(s, 0))
        m = re.match(r'^(?:(\w+) PTR )?(?:[cdefgs]s:)?\[(.*)\]$', s)
        if m:
            sz = {None: 0, 'BYTE': 1, 'WORD': 2, 'DWORD': 4, 'QWORD': 8, 'XMMWORD': 16, 'YMMWORD': 32}[m.group(1)]
            base, idx, sc, disp = None, None, 1, 0
            for sg, t in re.findall(r'([+-]?)([^+-]+)', m.group(2)):
                t = t.strip()
                if '*' in t:
                    idx, sc = t.split('*')
                    sc = int(sc)
                elif t in REGS or t == 'rip':
                    if base is None:
                        base = t
                    else:
                        idx = t
                else:
                    v = int(t, 0)
                    disp += -v if sg == '-' else v
            if base == 'rip':
                return ('m', sz, None, None, 1, disp + nxt)
            if (base and REGS[base][1] != 64) or (idx and REGS[idx][1] != 64):
                raise Unsupported('32-bit addressing')
            return ('m', sz, base, idx, sc, disp)
        m = re.match(r'^([0-9a-f]+) <', s)
        if m:
            return ('t', int(m.group(1), 16))
        m = re.match(r'^ds:0x([0-9a-f]+)$', s)
        if m:
            return ('m', 0, None, None, 1, int(m.group(1), 16))
        raise Unsupported('operand ' + s)

    def decode(self, a):
        d = self.dec.get(a)
        if d is None:
            t = self.code[a]
            parts = t.split(None, 1)
            op = parts[0]
            ops = []
            if op in ('cs', 'data16', 'notrack', 'bnd', 'ds', 'es'):
                rest = parts[1] if len(parts) > 1 else 'nop'
                if 'nop' in rest or op == 'data16' or op == 'cs':
                    op = 'nop'
                else:
                    parts = rest.split(None, 1)
                    op = parts[0]
            if op != 'nop' and len(parts) > 1:
                depth, cur = 0, ''
                for ch in parts[1]:
                    if ch == ',' and depth == 0:
                        ops.append(cur)
                        cur = ''
                        continue
                    depth += ch == '['
                    depth -= ch == ']'
                    cur += ch
                ops.append(cur)
                ops = [self.parse_op(o, self.next.get(a, 0)) for o in ops]
            d = self.dec[a] = (op, ops, self.next.get(a))
        return d


class Machine:
    def __init__(self, asm, P, max_steps=10_000_000):
        self.asm = asm
        self.P = P
        self.C = P.ctx
        self.max_steps = max_steps
        self.steps = 0
        self.secobjs = []
        for n, (addr, size, data, wr, al) in enumerate(asm.sections):
            o = Obj('asm-data%d' % n, size, const=False, align=min(al, 64), addr=addr)
            for i in range(0, size - size % 4, 4):
                o.cells[i] = (4, struct.unpack_from('<I', data, i)[0])
            for i in range(size - size % 4, size):
                o.cells[i] = (1, data[i])
            o.track = True
            self.secobjs.append(o)
            if wr:
                P.add_static(o)
        self.snapshot = [dict(o.cells) for o in self.secobjs]
        self.seen = {}

    # ------------------------------------------------------------------ entry
    def make_ext(self, name, sig):
        """python callable for Program.ext; sig: list of 'p' (pointer), 'u32', 'i32'"""
        def f(P, args):
            return self.callfn(name, args, sig)
        return f

    def callfn(self, name, args, sig, retw=0):
        C = self.C
        self.seen[name] = self.seen.get(name, 0) + 1
        r = {}
        for x in R64:
            r[x] = Ptr(Obj('initial-' + x, 0), 0)
        self.init = dict(r)
        stack = Obj('stack', 8192, align=16)
        self.stack = stack
        r['rsp'] = Ptr(stack, 4096 + 8)
        retaddr = Ptr(Obj('return-address', 0), 0)
        stack.cells[4096 + 8] = (8, retaddr)
        for reg, a, t in zip(('rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9'), args, sig):
            if t == 'p':
                r[reg] = a
            elif t == 'u64':
                r[reg] = a
            else:
                a = C.trunc(a, 32) if type(a) is Form else a & 0xffffffff
                r[reg] = Upper(a) if type(a) is int else a
                if type(a) is Form:
                    r[reg] = ('u32', a)
        v = [None] * 16
        self.r, self.v = r, v
        self.flags = None
        pc = self.asm.sym[name]
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('asm step limit')
            op, ops, nxt = self.asm.decode(pc)
            if op == 'ret':
                top = r['rsp']
                if type(top) is not Ptr or top.o is not stack:
                    raise AbiError('%s: stack pointer corrupted' % name)
                ra = self.P.load(top, 8)
                if ra is not retaddr:
                    if type(ra) is int:          # local call
                        r['rsp'] = Ptr(stack, top.off + 8)
                        pc = ra
                        continue
                    raise AbiError('%s: return address corrupted' % name)
                if top.off != 4096 + 8:
                    raise AbiError('%s: stack pointer not restored' % name)
                break
            pc2 = self.step(op, ops, nxt, pc)
            pc = pc2 if pc2 is not None else nxt
            if pc is None:
                raise MemError('fell off the end of the code')
        for x in CALLEE:
            y, z = r[x], self.init[x]
            if y is not z and not (type(y) is Ptr and y.o is z.o and y.off == z.off):
                raise AbiError('%s: callee-saved register %s not preserved' % (name, x))
        if retw:
            return self.rd('rax', retw)

    # ------------------------------------------------------------------ registers
    def rd(self, reg, w):
        x = self.r[reg]
        if type(x) is tuple:           # ('u32', form): upper half undefined
            if w == 64:
                raise AbiError('use of the undefined upper half of %s' % reg)
            return self.C.trunc(x[1], w)
        if type(x) is Upper:
            if w == 64:
                return x
            return x.lo & ((1 << w) - 1)
        if w == 64:
            return x
        if type(x) is int:
            return x & ((1 << w) - 1)
        if type(x) is Form:
            return self.C.trunc(x, w)
        if type(x) is Ptr:
            raise Unsupported('partial pointer register')
        return x

    def wr(self, reg, w, x):
        if w == 64:
            self.r[reg] = x
        elif w == 32:
            self.r[reg] = self.C.uval(x, 32)
        else:
            o = self.r[reg]
            if type(o) is int and type(x) is int:
                m = (1 << w) - 1
                self.r[reg] = (o & ~m) | (x & m)
            else:
                raise Unsupported('partial register write')

    def addr(self, o):
        _, sz, base, idx, sc, disp = o
        b = self.r[base] if base else 0
        i = self.r[idx] if idx else 0
        if type(b) in (Upper, tuple) or type(i) in (Upper, tuple):
            raise AbiError('undefined upper half of a 32-bit argument used in an address')
        if type(i) is Ptr and sc == 1 and type(b) is int:
            b, i = i, b
        if type(i) is int:
            i = i - (1 << 64) if i >> 63 else i
        if type(b) is Ptr:
            if type(i) is not int:
                raise Unsupported('address')
            return Ptr(b.o, b.off + i * sc + disp)
        if type(b) is int and type(i) is int:
            a = (b + i * sc + disp) & ((1 << 64) - 1)
            for o in self.secobjs:
                if o.addr <= a < o.addr + o.size:
                    return Ptr(o, a - o.addr)
            raise MemError('access to unmapped address %#x' % a)
        raise Unsupported('symbolic address')

    def lea(self, o):
        _, sz, base, idx, sc, disp = o
        b = self.r[base] if base else 0
        i = self.r[idx] if idx else 0
        if type(b) is tuple or type(i) is tuple:
            raise Unsupported('lea of data')
        if type(b) is Upper or type(i) is Upper:
            if type(b) is Ptr or type(i) is Ptr:
                raise AbiError('undefined upper half of a 32-bit argument used to form an address')
            f = lambda x: x.lo if type(x) is Upper else x
            return Upper(f(b) + f(i) * sc + disp)
        if type(i) is Ptr and sc == 1 and type(b) is int:
            b, i = i, b
        if type(b) is Ptr:
            if type(i) is not int:
                raise Unsupported('lea')
            i = i - (1 << 64) if i >> 63 else i
            return Ptr(b.o, b.off + i * sc + disp)
        if type(b) is int and type(i) is int:
            a = (b + i * sc + disp) & ((1 << 64) - 1)
            for o in self.secobjs:
                if o.addr <= a < o.addr + o.size and base is None:
                    return Ptr(o, a - o.addr)
            return a
        raise Unsupported('lea')

    # gpr operand read/write
    def get(self, o, w=None):
        k = o[0]
        if k == 'r':
            return self.rd(o[1], w or o[2])
        if k == 'i':
            return o[1] & ((1 << (w or 64)) - 1)
        if k == 'm':
            n = o[1] or w // 8
            return force(self.P.load(self.addr(o), n))
        raise Unsupported('operand')

    def put(self, o, x, w=None):
        if o[0] == 'r':
            self.wr(o[1], w or o[2], x)
        elif o[0] == 'm':
            self.P.store(self.addr(o), o[1] or w // 8, x)
        else:
            raise Unsupported('operand')

    def width(self, ops):
        for o in ops:
            if o[0] == 'r':
                return o[2]
        for o in ops:
            if o[0] == 'm' and o[1]:
                return 8 * o[1]
        return 64

    # ------------------------------------------------------------------ scalar ALU
    def alu(self, op, x, y, w):
        C = self.C
        M = (1 << w) - 1
        if type(x) is Upper or type(y) is Upper:
            if type(x) is Ptr or type(y) is Ptr:
                raise AbiError('undefined upper half of a 32-bit argument used to form an address')
            f = lambda v: v.lo if type(v) is Upper else v
            a, b = f(x), f(y)
            if type(a) is int and type(b) is int:
                if op in ('add', 'sub', 'imul', 'or', 'xor'):
                    return Upper({'add': a + b, 'sub': a - b, 'imul': a * b, 'or': a | b, 'xor': a ^ b}[op])
                if op == 'and':
                    k = y if type(y) is int else x
                    if type(k) is int and k <= 0xffffffff:
                        return a & b
                    return Upper(a & b)
            raise AbiError('undefined upper half of a 32-bit argument used in %s' % op)
        if type(x) is int and type(y) is int:
            return {'add': x + y, 'sub': x - y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'imul': x * y}[op] & M
        if type(x) is Ptr or type(y) is Ptr:
            if op in ('add', 'sub'):
                return self.P.ptrarith(x, y, 1 if op == 'add' else -1, 64)
            if op == 'xor' and type(x) is Ptr and type(y) is Ptr and x.o is y.o and x.off == y.off:
                return 0
            raise Unsupported('pointer ' + op)
        return {'add': C.add, 'sub': C.sub, 'and': C.bitand, 'or': C.bitor, 'xor': C.bitxor, 'imul': C.mul}[op](x, y, w)

    def cond(self, cc):
        f = self.flags
        if f is None:
            raise Unsupported('conditional on unknown flags')
        kind, x, y, w = f
        if type(x) in (Upper, tuple) or type(y) in (Upper, tuple):
            raise AbiError('undefined upper half of a 32-bit argument used in a comparison')
        C = self.C
        if kind == 'cmp':
            if type(x) is Ptr or type(y) is Ptr:
                p = {'e': 'eq', 'ne': 'ne', 'b': 'ult', 'ae': 'uge', 'be': 'ule', 'a': 'ugt', 'l': 'slt', 'ge': 'sge', 'le': 'sle', 'g': 'sgt'}[cc]
                return self.P.ptrcmp(p, x, y)
            p = {'e': 'eq', 'ne': 'ne', 'b': 'ult', 'ae': 'uge', 'be': 'ule', 'a': 'ugt', 'l': 'slt', 'ge': 'sge', 'le': 'sle', 'g': 'sgt'}.get(cc)
            if p is None:
                if cc in ('s', 'ns'):
                    d = C.sub(x, y, w)
                    r = C.cmp('slt', d, 0, w)
                    return r if cc == 's' else 1 - r
                raise Unsupported('condition ' + cc)
            return C.cmp(p, x, y, w)
        if kind == 'res':      # logic / inc / dec / shift: ZF, SF only
            if type(x) is Ptr:
                raise Unsupported('flags of a pointer')
            if cc in ('e', 'ne'):
                return C.cmp('eq' if cc == 'e' else 'ne', x, 0, w)
            if cc in ('s', 'ns'):
                r = C.cmp('slt', x, 0, w)
                return r if cc == 's' else C.add_(1, r, -1)
            if y == 'logic':   # CF=OF=0
                if cc in ('l', 'ge'):
                    r = C.cmp('slt', x, 0, w)
                    return r if cc == 'l' else C.add_(1, r, -1)
                if cc in ('g', 'le'):
                    r = C.cmp('sgt', x, 0, w)
                    return r if cc == 'g' else C.add_(1, r, -1)
                if cc in ('a', 'be'):
                    r = C.cmp('ne', x, 0, w)
                    return r if cc == 'a' else C.add_(1, r, -1)
                if cc == 'ae':
                    return 1
                if cc == 'b':
                    return 0
            if y == 'dec' and type(x) is int:
                xs = C.s2(x, w)
                H = 1 << (w - 1)
                if xs != H - 1:
                    if cc in ('g', 'le', 'l', 'ge'):
                        return int({'g': xs > 0, 'le': xs <= 0, 'l': xs < 0, 'ge': xs >= 0}[cc])
            raise Unsupported('condition ' + cc)
        raise Unsupported('flags')

    CC = {'e': 'e', 'z': 'e', 'ne': 'ne', 'nz': 'ne', 'b': 'b', 'c': 'b', 'nae': 'b', 'ae': 'ae', 'nb': 'ae', 'nc': 'ae',
          'be': 'be', 'na': 'be', 'a': 'a', 'nbe': 'a', 'l': 'l', 'nge': 'l', 'ge': 'ge', 'nl': 'ge', 'le': 'le',
          'ng': 'le', 'g': 'g', 'nle': 'g', 's': 's', 'ns': 'ns'}

    def step(self, op, ops, nxt, pc):
        if op[0] == 'v':
            h = getattr(self, 'i_' + op, None)
            if h is None:
                return self.vec(op, ops)
            return h(ops)
        C = self.C
        if op in ('mov', 'movabs'):
            w = self.width(ops)
            x = self.get(ops[1], w)
            if ops[1][0] == 'i' and w == 64 and ops[1][1] < 0:
                x = ops[1][1] & ((1 << 64) - 1)
            self.put(ops[0], x, w)
        elif op == 'lea':
            x = self.lea(ops[1])
            if ops[0][2] == 32:
                if type(x) is Ptr:
                    raise Unsupported('truncated pointer')
                x = x.lo if type(x) is Upper else x & 0xffffffff
            self.put(ops[0], x)
        elif op in ('add', 'sub', 'and', 'or', 'xor', 'cmp', 'test'):
            w = self.width(ops)
            x = self.get(ops[0], w)
            if op == 'xor' and ops[0] == ops[1]:
                self.put(ops[0], 0, w)
                self.flags = ('res', 0, 'logic', w)
                return
            if op in ('test', 'or', 'and') and ops[0] == ops[1]:
                if type(x) is Upper:
                    raise AbiError('undefined upper half of a 32-bit argument used in a comparison')
                self.flags = ('res', x, 'logic', w)
                return
            y = self.get(ops[1], w)
            if op == 'cmp':
                self.flags = ('cmp', x, y, w)
                return
            if op == 'test':
                self.flags = ('res', self.alu('and', x, y, w), 'logic', w)
                return
            r = self.alu(op, x, y, w)
            self.put(ops[0], r, w)
            if op == 'sub':
                self.flags = ('cmp', x, y, w)
            elif op == 'add':
                self.flags = ('res', r, 'add', w)
            else:
                self.flags = ('res', r, 'logic', w)
        elif op in ('inc', 'dec'):
            w = self.width(ops)
            r = self.alu('add' if op == 'inc' else 'sub', self.get(ops[0], w), 1, w)
            self.put(ops[0], r, w)
            self.flags = ('res', r, op, w)
        elif op == 'neg':
            w = self.width(ops)
            x = self.get(ops[0], w)
            self.put(ops[0], self.alu('sub', 0, x, w), w)
            self.flags = ('cmp', 0, x, w)
        elif op == 'not':
            w = self.width(ops)
            self.put(ops[0], self.alu('xor', self.get(ops[0], w), (1 << w) - 1, w), w)
        elif op in ('shl', 'sal', 'shr', 'sar'):
            w = self.width(ops[:1])
            k = self.get(ops[1], 8) if len(ops) > 1 else 1
            if type(k) is not int:
                raise Unsupported('symbolic shift')
            k &= 63 if w == 64 else 31
            x = self.get(ops[0], w)
            if type(x) is Upper:
                if op in ('shl', 'sal'):
                    r = Upper(x.lo << k) if k < 32 else (x.lo << k) & ((1 << 64) - 1)
                    if k >= 32:
                        r = (x.lo << k) & ((1 << 64) - 1)
                else:
                    raise AbiError('undefined upper half of a 32-bit argument shifted right')
            elif type(x) is Ptr:
                raise Unsupported('pointer shift')
            else:
                r = {'shl': C.shl, 'sal': C.shl, 'shr': C.lshr, 'sar': C.ashr}[op](x, k, w)
            self.put(ops[0], r, w)
            if k:
                self.flags = ('res', r, 'shift', w)
        elif op == 'imul':
            w = self.width(ops)
            if len(ops) == 3:
                r = self.alu('imul', self.get(ops[1], w), self.get(ops[2], w), w)
            elif len(ops) == 2:
                r = self.alu('imul', self.get(ops[0], w), self.get(ops[1], w), w)
            else:
                raise Unsupported('imul')
            self.put(ops[0], r, w)
            self.flags = None
        elif op in ('movzx', 'movsx', 'movsxd'):
            sw = ops[1][2] if ops[1][0] == 'r' else 8 * ops[1][1]
            x = self.get(ops[1], sw)
            w = ops[0][2]
            self.put(ops[0], C.zext(x, sw, w) if op == 'movzx' else C.sext(x, sw, w), w)
        elif op == 'cdqe':
            self.wr('rax', 64, C.sext(self.rd('rax', 32), 32, 64))
        elif op == 'push':
            x = self.get(ops[0], 64)
            sp = self.r['rsp']
            self.r['rsp'] = Ptr(sp.o, sp.off - 8)
            self.P.store(self.r['rsp'], 8, x)
        elif op == 'pop':
            sp = self.r['rsp']
            x = self.P.load(sp, 8)
            self.r['rsp'] = Ptr(sp.o, sp.off + 8)
            self.put(ops[0], x, 64)
        elif op == 'jmp':
            return ops[0][1]
        elif op[0] == 'j' and op[1:] in self.CC:
            c = self.cond(self.CC[op[1:]])
            if type(c) is not int:
                raise Unsupported('data-dependent jump')
            return ops[0][1] if c else None
        elif op.startswith('cmov'):
            c = self.cond(self.CC[op[4:]])
            w = ops[0][2]
            x, y = self.get(ops[1], w), self.get(ops[0], w)
            if type(c) is int:
                self.put(ops[0], x if c else y, w)
            else:
                self.put(ops[0], self.P.merge(c, x, y, w), w)
        elif op.startswith('set'):
            c = self.cond(self.CC[op[3:]])
            self.put(ops[0], c, 8)
        elif op == 'call':
            sp = self.r['rsp']
            self.r['rsp'] = Ptr(sp.o, sp.off - 8)
            self.P.store(self.r['rsp'], 8, nxt)
            return ops[0][1]
        elif op in ('nop', 'endbr64', 'xchg') :
            if op == 'xchg' and ops[0] != ops[1]:
                x, y = self.get(ops[0]), self.get(ops[1])
                self.put(ops[0], y)
                self.put(ops[1], x)
        elif op == 'leave':
            self.r['rsp'] = self.r['rbp']
            sp = self.r['rsp']
            self.r['rbp'] = self.P.load(sp, 8)
            self.r['rsp'] = Ptr(sp.o, sp.off + 8)
        else:
            raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------------ vectors
    # a vector register is a list of (nbytes, value)
    def vload(self, o, n):
        p = self.addr(o)
        P = self.P
        P.check(p, n, False)
        out = []
        pos, end = p.off, p.off + n
        cells = p.o.cells
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                sz = c[0]
            else:
                sz = 1
                for k in (8, 4, 2):
                    if pos % k == 0 and pos + k <= end:
                        sz = k
                        break
            v = P.load(Ptr(p.o, pos), sz)
            if type(v) is Ptr:
                raise Unsupported('pointer in vector register')
            out.append((sz, v))
            pos += sz
        return out

    def vget(self, o, n):
        if o[0] == 'v':
            r = self.v[o[1]]
            if r is None:
                raise MemError('use of an undefined vector register ymm%d' % o[1])
            if n == 32:
                return r
            return self.slice(r, 0, n)
        if o[0] == 'm':
            return self.vload(o, n)
        raise Unsupported('vector operand')

    def slice(self, r, a, n):
        out, pos = [], 0
        for sz, v in r:
            if pos >= a + n:
                break
            if pos >= a:
                if pos + sz > a + n:
                    raise Unsupported('unaligned vector slice')
                out.append((sz, v))
            elif pos + sz > a:
                raise Unsupported('unaligned vector slice')
            pos += sz
        return out

    def vput(self, o, segs, n):
        if o[0] == 'v':
            if n == 16:
                segs = list(segs) + [(4, 0)] * 4
            self.v[o[1]] = segs
        else:
            p = self.addr(o)
            self.P.check(p, n, True)
            off = p.off
            for sz, v in segs:
                v = force(v)
                if type(v) is Form and sz == 8:
                    # store as two dwords so that 32-bit readers find their cells
                    lo, hi = self.split8(v)
                    self.P.store(Ptr(p.o, off), 4, lo)
                    self.P.store(Ptr(p.o, off + 4), 4, force(hi))
                else:
                    self.P.store(Ptr(p.o, off), sz, v)
                off += sz

    def split8(self, v):
        C = self.C
        if type(v) is int:
            return v & 0xffffffff, v >> 32
        return C.trunc(v, 32), Lazy(lambda: C.trunc(C.div_(C.sval(v, 64), 1 << 32), 32))

    def el(self, segs, nb):
        """list of elements of nb bytes"""
        C = self.C
        for sz, _ in segs:
            if sz != nb:
                break
        else:
            return [v for _, v in segs]
        out = []
        i = 0
        n = len(segs)
        while i < n:
            sz, v = segs[i]
            if sz == nb:
                out.append(v)
                i += 1
            elif sz > nb:
                if sz == 8 and nb == 4 and type(v) is not Lazy:
                    lo, hi = self.split8(v)
                    out += [lo, hi]
                else:
                    for k in range(sz // nb):
                        if type(v) is int:
                            out.append((v >> (8 * nb * k)) & ((1 << 8 * nb) - 1))
                        else:
                            out.append(Lazy(lambda v=v, k=k, sz=sz: C.trunc(C.lshr(force(v), 8 * nb * k, 8 * sz), 8 * nb)))
                i += 1
            else:
                tot, parts = 0, []
                while tot < nb:
                    s2, v2 = segs[i]
                    parts.append((s2, v2))
                    tot += s2
                    i += 1
                if tot != nb:
                    raise Unsupported('vector element layout')
                if all(type(v2) is int for _, v2 in parts):
                    r, sh = 0, 0
                    for s2, v2 in parts:
                        r |= v2 << sh
                        sh += 8 * s2
                    out.append(r)
                else:
                    def join(parts=parts):
                        r, sh = 0, 0
                        last = len(parts) - 1
                        for k, (s2, v2) in enumerate(parts):
                            v2 = force(v2)
                            u = C.uval(v2, 8 * s2) if k < last else C.sval(v2, 8 * s2)
                            r = C.add_(r, C.mulc_(u, 1 << sh))
                            sh += 8 * s2
                        return C.out(r, 8 * nb)
                    out.append(Lazy(join))
        return out

    def map2(self, f, a, b):
        out = []
        for x, y in zip(a, b):
            if type(x) is Lazy or type(y) is Lazy:
                out.append(Lazy(lambda x=x, y=y: f(force(x), force(y))))
            else:
                out.append(f(x, y))
        return out

    def map1(self, f, a):
        return [Lazy(lambda x=x: f(force(x))) if type(x) is Lazy else f(x) for x in a]

    def mk(self, vals, nb):
        return [(nb, v) for v in vals]

    def aligned(self, o, n):
        if o[0] == 'm':
            p = self.addr(o)
            if p.o.align < n or p.off % n:
                raise MemError('aligned %d-byte access to %s+%d, which need not be %d-byte aligned' % (n, p.o.name, p.off, n))

    def vsize(self, ops):
        for o in ops:
            if o[0] == 'v':
                return o[2]
        return 32

    def vec(self, op, ops):
        C = self.C
        n = self.vsize(ops)
        if op in ('vmovdqu', 'vmovdqa', 'vmovups', 'vmovaps', 'vmovupd', 'vmovapd', 'vlddqu', 'vmovntdq'):
            if op in ('vmovdqa', 'vmovaps', 'vmovapd', 'vmovntdq'):
                self.aligned(ops[0], n)
                self.aligned(ops[1], n)
            self.vput(ops[0], self.vget(ops[1], n), n)
            return
        if op in ('vzeroupper',):
            for i in range(16):
                if self.v[i] is not None:
                    self.v[i] = self.slice(self.v[i], 0, 16) + [(4, 0)] * 4
            return
        if op == 'vzeroall':
            self.v[:] = [[(4, 0)] * 8 for _ in range(16)]
            return
        E = {'d': 4, 'q': 8, 'w': 2, 'b': 1}
        B = {'vpaddd': (4, C.add), 'vpaddq': (8, C.add), 'vpsubd': (4, C.sub), 'vpsubq': (8, C.sub),
             'vpaddw': (2, C.add), 'vpsubw': (2, C.sub),
             'vpmulld': (4, C.mul)}.get(op)
        if B:
            nb, f = B
            a, b = self.el(self.vget(ops[1], n), nb), self.el(self.vget(ops[2], n), nb)
            w = 8 * nb
            M = (1 << w) - 1
            if op[2:5] == 'add':
                g = lambda x, y: (x + y) & M if type(x) is int and type(y) is int else f(x, y, w)
            else:
                g = lambda x, y: f(x, y, w)
            self.vput(ops[0], self.mk(self.map2(g, a, b), nb), n)
            return
        if op in ('vpmuldq', 'vpmuludq'):
            a, b = self.el(self.vget(ops[1], n), 4)[::2], self.el(self.vget(ops[2], n), 4)[::2]
            if op == 'vpmuldq':
                g = lambda x, y: C.out(C.mul_(C.sval(x, 32), C.sval(y, 32)), 64)
            else:
                g = lambda x, y: C.out(C.mul_(C.uval(x, 32), C.uval(y, 32)), 64)
            self.vput(ops[0], self.mk(self.map2(g, a, b), 8), n)
            return
        if op in ('vpand', 'vpor', 'vpxor', 'vpandn', 'vandps', 'vandpd', 'vorps', 'vxorps', 'vxorpd', 'vandnps'):
            if op in ('vpxor', 'vxorps', 'vxorpd') and ops[1] == ops[2]:
                self.vput(ops[0], [(4, 0)] * (n // 4), n)
                return
            a, b = self.el(self.vget(ops[1], n), 4), self.el(self.vget(ops[2], n), 4)
            if 'andn' in op:
                g = lambda x, y: C.bitand(C.bitxor(x, 0xffffffff, 32), y, 32)
            elif 'and' in op:
                g = lambda x, y: C.bitand(x, y, 32)
            elif 'xor' in op:
                g = lambda x, y: C.bitxor(x, y, 32)
            else:
                g = lambda x, y: C.bitor(x, y, 32)
            self.vput(ops[0], self.mk(self.map2(g, a, b), 4), n)
            return
        m = re.match(r'^vps(ll|rl|ra)([dqw])$', op)
        if m:
            nb = E[m.group(2)]
            w = 8 * nb
            if ops[2][0] == 'i':
                k = ops[2][1]
            else:
                k = force(self.el(self.vget(ops[2], 16), 8)[0])
                if type(k) is not int:
                    raise Unsupported('symbolic shift')
            a = self.el(self.vget(ops[1], n), nb)
            t = m.group(1)
            if t == 'll':
                g = lambda x: C.shl(x, k, w) if k < w else 0
            elif t == 'rl':
                g = lambda x: C.lshr(x, k, w) if k < w else 0
            else:
                g = lambda x: C.ashr(x, min(k, w - 1), w)
            self.vput(ops[0], self.mk(self.map1(g, a), nb), n)
            return
        if op in ('vpslldq', 'vpsrldq'):
            k = ops[2][1]
            segs = self.vget(ops[1], n)
            nb = 4 if k % 4 == 0 else (2 if k % 2 == 0 else 1)
            el = self.el(segs, nb)
            L = 16 // nb
            s = min(k // nb, L)
            out = []
            for h in range(n // 16):
                x = el[h * L:(h + 1) * L]
                out += ([0] * s + x[:L - s]) if op == 'vpslldq' else (x[s:] + [0] * s)
            self.vput(ops[0], self.mk(out, nb), n)
            return
        if op in ('vpcmpgtd', 'vpcmpeqd', 'vpcmpgtq', 'vpcmpeqq'):
            nb = E[op[-1]]
            w = 8 * nb
            a, b = self.el(self.vget(ops[1], n), nb), self.el(self.vget(ops[2], n), nb)
            p = 'sgt' if 'gt' in op else 'eq'
            g = lambda x, y: C.out(C.mulc_(C.cmp(p, x, y, w), -1), w)
            if ops[1] == ops[2] and p == 'eq':
                self.vput(ops[0], [(4, 0xffffffff)] * (n // 4), n)
                return
            self.vput(ops[0], self.mk(self.map2(g, a, b), nb), n)
            return
        if op in ('vpminsd', 'vpmaxsd', 'vpminud', 'vpmaxud'):
            a, b = self.el(self.vget(ops[1], n), 4), self.el(self.vget(ops[2], n), 4)
            p = {'vpminsd': 'slt', 'vpmaxsd': 'sgt', 'vpminud': 'ult', 'vpmaxud': 'ugt'}[op]
            g = lambda x, y: C.select(C.cmp(p, x, y, 32), x, y, 32)
            self.vput(ops[0], self.mk(self.map2(g, a, b), 4), n)
            return
        if op == 'vpabsd':
            a = self.el(self.vget(ops[1], n), 4)
            g = lambda x: C.select(C.cmp('slt', x, 0, 32), C.sub(0, x, 32), x, 32)
            self.vput(ops[0], self.mk(self.map1(g, a), 4), n)
            return
        if op == 'vpsignd':
            a, b = self.el(self.vget(ops[1], n), 4), self.el(self.vget(ops[2], n), 4)

            def g(x, y):
                neg = C.cmp('slt', y, 0, 32)
                z = C.cmp('eq', y, 0, 32)
                return C.select(neg, C.sub(0, x, 32), C.select(z, 0, x, 32), 32)
            self.vput(ops[0], self.mk(self.map2(g, a, b), 4), n)
            return
        if op in ('vpblendd', 'vblendps'):
            a, b = self.el(self.vget(ops[1], n), 4), self.el(self.vget(ops[2], n), 4)
            k = ops[3][1]
            self.vput(ops[0], self.mk([b[i] if k >> i & 1 else a[i] for i in range(n // 4)], 4), n)
            return
        if op == 'vblendpd':
            a, b = self.el(self.vget(ops[1], n), 8), self.el(self.vget(ops[2], n), 8)
            k = ops[3][1]
            self.vput(ops[0], self.mk([b[i] if k >> i & 1 else a[i] for i in range(n // 8)], 8), n)
            return
        if op in ('vblendvps', 'vpblendvb'):
            a, b, mk = (self.el(self.vget(ops[i], n), 4) for i in (1, 2, 3))
            out = []
            for x, y, s in zip(a, b, mk):
                def g(x=x, y=y, s=s):
                    s = C.sval(force(s), 32)
                    if op == 'vpblendvb' and not ((type(s) is int and s in (0, -1)) or (type(s) is Form and s.lo >= -1 and s.hi <= 0)):
                        raise Unsupported('byte blend')
                    return C.select(C.cmp('slt', s, 0, 32), force(y), force(x), 32)
                out.append(Lazy(g))
            self.vput(ops[0], self.mk(out, 4), n)
            return
        m = re.match(r'^vp?broadcast(d|q|w|b|ss|sd|i128|f128)$', op) or re.match(r'^vbroadcast(ss|sd|i128|f128)$', op)
        if m:
            k = m.group(1)
            nb = {'d': 4, 'ss': 4, 'q': 8, 'sd': 8, 'w': 2, 'b': 1, 'i128': 16, 'f128': 16}[k]
            if nb == 16:
                s = self.vget(ops[1], 16)
                self.vput(ops[0], s + s, 32)
                return
            if ops[1][0] == 'v':
                s = self.el(self.vget(ops[1], 16), nb)[0]
            else:
                s = self.P.load(self.addr(ops[1]), nb)
            self.vput(ops[0], self.mk([s] * (n // nb), nb), n)
            return
        if op in ('vperm2i128', 'vperm2f128'):
            a, b = self.vget(ops[1], 32), self.vget(ops[2], 32)
            h = [self.slice(a, 0, 16), self.slice(a, 16, 16), self.slice(b, 0, 16), self.slice(b, 16, 16)]
            k = ops[3][1]
            f = lambda c: [(4, 0)] * 4 if c & 8 else h[c & 3]
            self.vput(ops[0], f(k) + f(k >> 4), 32)
            return
        if op in ('vpermq', 'vpermpd'):
            a = self.el(self.vget(ops[1], 32), 8)
            k = ops[2][1]
            self.vput(ops[0], self.mk([a[k >> (2 * i) & 3] for i in range(4)], 8), 32)
            return
        if op in ('vpermd', 'vpermps'):
            ix = [force(x) for x in self.el(self.vget(ops[1], 32), 4)]
            a = self.el(self.vget(ops[2], 32), 4)
            if any(type(x) is not int for x in ix):
                raise Unsupported('symbolic permutation')
            self.vput(ops[0], self.mk([a[x & 7] for x in ix], 4), 32)
            return
        m = re.match(r'^vpmov([sz])x(bw|bd|bq|wd|wq|dq)$', op)
        if m:
            s, d = E[m.group(2)[0]], E[m.group(2)[1]]
            cnt = n // d
            if ops[1][0] == 'v':
                a = self.el(self.vget(ops[1], 32 if cnt * s > 16 else 16), s)[:cnt]
            else:
                a = self.el(self.vload(ops[1], cnt * s), s)
            f = C.sext if m.group(1) == 's' else C.zext
            self.vput(ops[0], self.mk(self.map1(lambda x: f(x, 8 * s, 8 * d), a), d), n)
            return
        if op in ('vpshufd', 'vpermilps') and ops[2][0] == 'i':
            a = self.el(self.vget(ops[1], n), 4)
            k = ops[2][1]
            self.vput(ops[0], self.mk([a[4 * h + (k >> (2 * i) & 3)] for h in range(n // 16) for i in range(4)], 4), n)
            return
        if op == 'vshufps':
            a, b = self.el(self.vget(ops[1], n), 4), self.el(self.vget(ops[2], n), 4)
            k = ops[3][1]
            out = []
            for h in range(n // 16):
                out += [a[4 * h + (k & 3)], a[4 * h + (k >> 2 & 3)], b[4 * h + (k >> 4 & 3)], b[4 * h + (k >> 6 & 3)]]
            self.vput(ops[0], self.mk(out, 4), n)
            return
        if op == 'vshufpd':
            a, b = self.el(self.vget(ops[1], n), 8), self.el(self.vget(ops[2], n), 8)
            k = ops[3][1]
            out = []
            for h in range(n // 16):
                out += [a[2 * h + (k >> (2 * h) & 1)], b[2 * h + (k >> (2 * h + 1) & 1)]]
            self.vput(ops[0], self.mk(out, 8), n)
            return
        if op == 'vpermilpd' and ops[2][0] == 'i':
            a = self.el(self.vget(ops[1], n), 8)
            k = ops[2][1]
            self.vput(ops[0], self.mk([a[2 * (i // 2) + (k >> i & 1)] for i in range(n // 8)], 8), n)
            return
        m = re.match(r'^v(?:p)?unpck([lh])(dq|qdq|ps|pd|wd)$', op)
        if m:
            nb = {'dq': 4, 'ps': 4, 'qdq': 8, 'pd': 8, 'wd': 2}[m.group(2)]
            a, b = self.el(self.vget(ops[1], n), nb), self.el(self.vget(ops[2], n), nb)
            L = 16 // nb
            out = []
            for h in range(n // 16):
                st = h * L + (0 if m.group(1) == 'l' else L // 2)
                for i in range(L // 2):
                    out += [a[st + i], b[st + i]]
            self.vput(ops[0], self.mk(out, nb), n)
            return
        if op in ('vextracti128', 'vextractf128'):
            a = self.vget(ops[1], 32)
            self.vput(ops[0], self.slice(a, 16 * (ops[2][1] & 1), 16), 16)
            return
        if op in ('vinserti128', 'vinsertf128'):
            a = self.vget(ops[1], 32)
            b = self.vget(ops[2], 16)
            self.vput(ops[0], (b + self.slice(a, 16, 16)) if not ops[3][1] & 1 else (self.slice(a, 0, 16) + b), 32)
            return
        if op in ('vmovd', 'vmovq'):
            nb = 4 if op == 'vmovd' else 8
            if ops[0][0] == 'v':
                if ops[1][0] == 'v':
                    x = self.el(self.vget(ops[1], 16), nb)[0]
                elif ops[1][0] == 'r' and nb == 8 and type(self.r[ops[1][1]]) is tuple:
                    x = self.r[ops[1][1]]
                else:
                    x = self.get(ops[1], 8 * nb)
                if type(x) in (Upper, tuple):
                    if nb == 8:
                        # low dword known, high dword undefined
                        def bad():
                            raise AbiError('undefined upper half of a 32-bit argument used as data')
                        self.vput(ops[0], [(4, C.trunc(x[1], 32) if type(x) is tuple else x.lo), (4, Lazy(bad)), (4, 0), (4, 0)], 16)
                        return
                    raise Unsupported('vmov')
                self.vput(ops[0], [(nb, x)] + [(4, 0)] * ((16 - nb) // 4), 16)
            else:
                x = force(self.el(self.vget(ops[1], 16), nb)[0])
                self.put(ops[0], x, 8 * nb)
            return
        if op == 'vpalignr':
            a, b = self.el(self.vget(ops[1], n), 4), self.el(self.vget(ops[2], n), 4)
            k = ops[3][1]
            if k % 4 or k > 16:
                raise Unsupported('vpalignr')
            out = []
            for h in range(n // 16):
                x = b[4 * h:4 * h + 4] + a[4 * h:4 * h + 4]
                out += x[k // 4:k // 4 + 4]
            self.vput(ops[0], self.mk(out, 4), n)
            return
        if op in ('vpsravd', 'vpsrlvd', 'vpsllvd', 'vpsrlvq', 'vpsllvq'):
            nb = E[op[-1]]
            w = 8 * nb
            a, b = self.el(self.vget(ops[1], n), nb), self.el(self.vget(ops[2], n), nb)

            def g(x, k):
                if type(k) is not int:
                    raise Unsupported('symbolic shift')
                if op.startswith('vpsra'):
                    return C.ashr(x, min(k, w - 1), w)
                if k >= w:
                    return 0
                return (C.lshr if op.startswith('vpsrl') else C.shl)(x, k, w)
            self.vput(ops[0], self.mk(self.map2(g, a, b), nb), n)
            return
        raise Unsupported('instruction ' + op)
