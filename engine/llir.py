"""Symbolic interpreter for LLVM IR text (clang -O0 + mem2reg), over term.Ctx."""
import os, re
from term import Form, Unsupported


class MemError(Exception):
    """an access outside its object, or through an invalid pointer"""


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return '<%s+%s>' % (self.o.name, self.off)


class Obj:
    __slots__ = ('name', 'size', 'cells', 'zero', 'const', 'align', 'reads', 'writes', 'track', 'addr', 'cells0', 'fn')
    _next = 0x10000000

    def __init__(self, name, size, zero=False, const=False, align=4, addr=None):
        self.name = name
        self.size = size
        self.cells = {}
        self.zero = zero
        self.const = const
        self.align = align
        self.track = False
        self.reads = None
        self.writes = None
        self.addr = addr
        self.fn = None             # (name, module) of a function object


def tokenize_types(s):
    """split a comma separated list at depth 0"""
    out, depth, cur = [], 0, ''
    instr = False
    for ch in s:
        if ch == '"':
            instr = not instr
        if not instr:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            elif ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self):
        self.named = {}

    def parse(self, s):
        """parse a type at the start of s; returns (type, rest)"""
        s = s.lstrip()
        m = re.match(r'i(\d+)\b', s)
        if m:
            return ('i', int(m.group(1))), s[m.end():]
        if s.startswith('ptr'):
            return ('p',), s[3:]
        if s.startswith('void'):
            return ('v',), s[4:]
        if s.startswith('double'):
            return ('f', 64), s[6:]
        if s.startswith('float'):
            return ('f', 32), s[5:]
        m = re.match(r'x86_fp80', s)
        if m:
            return ('f', 80), s[m.end():]
        if s.startswith('['):
            m = re.match(r'\[\s*(\d+)\s+x\s+', s)
            t, rest = self.parse(s[m.end():])
            rest = rest.lstrip()
            assert rest[0] == ']'
            return ('a', int(m.group(1)), t), rest[1:]
        if s.startswith('{'):
            rest = s[1:].lstrip()
            fs = []
            while not rest.startswith('}'):
                t, rest = self.parse(rest)
                fs.append(t)
                rest = rest.lstrip()
                if rest.startswith(','):
                    rest = rest[1:].lstrip()
            return ('s', tuple(fs)), rest[1:]
        m = re.match(r'%("[^"]+"|[\w.$-]+)', s)
        if m:
            return ('n', m.group(1)), s[m.end():]
        if s.startswith('...'):
            return ('...',), s[3:]
        if s.startswith('metadata'):
            return ('m',), s[8:]
        if s.startswith('<{'):
            t, rest = self.parse(s[1:])
            return ('s', t[1], 'packed'), rest.lstrip()[1:]
        if s.startswith('<'):
            raise Unsupported('vector type')
        raise Unsupported('type ' + s[:40])

    def res(self, t):
        if t[0] == 'n':
            return self.named[t[1]]
        return t

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            return max(1, (t[1] + 7) // 8)
        if k == 'p':
            return 8
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 's':
            off, al = 0, 1
            for f in t[1]:
                a = 1 if len(t) > 2 else self.align(f)
                off = (off + a - 1) // a * a + self.size(f)
                al = max(al, a)
            return (off + al - 1) // al * al
        if k == 'f':
            return t[1] // 8 if t[1] != 80 else 16
        raise Unsupported('size of %s' % (t,))

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            return 1 if len(t) > 2 else max([1] + [self.align(f) for f in t[1]])
        return self.size(t)

    def field(self, t, i):
        t = self.res(t)
        off = 0
        for n, f in enumerate(t[1]):
            a = 1 if len(t) > 2 else self.align(f)
            off = (off + a - 1) // a * a
            if n == i:
                return off, f
            off += self.size(f)
        raise IndexError


ATTRS = set('''noundef signext zeroext nonnull noalias nocapture readonly readnone writeonly dereferenceable
returned immarg inreg byval sret align noundef captures'''.split())


class Func:
    def __init__(self, name, rett, params, mod):
        self.name = name
        self.rett = rett
        self.params = params
        self.mod = mod
        self.blocks = {}
        self.order = []
        self.src = []
        self.compiled = False
        self.vararg = False


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = Types()
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        T = self.types
        self.gdefs = {}
        self.aliases = {}
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, d = l.split(' = type ', 1)
                if d.strip() != 'opaque':
                    T.named[n[1:].strip()] = T.parse(d)[0]
            elif l.startswith('@'):
                self.gdef(l)
            elif l.startswith('define'):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                name = m.group(1)
                depth, j = 1, m.end()
                while depth:
                    if l[j] == '(':
                        depth += 1
                    elif l[j] == ')':
                        depth -= 1
                    j += 1
                plist = tokenize_types(l[m.end():j - 1])
                params = []
                for p in plist:
                    if p == '...':
                        continue
                    t, rest = T.parse(p)
                    nm = rest.split()[-1]
                    params.append((t, nm))
                hd = l[6:m.start()]
                for w in ('dso_local', 'internal', 'noundef', 'signext', 'zeroext', 'hidden', 'linkonce_odr', 'private', 'weak_odr', 'weak'):
                    hd = re.sub(r'\b%s\b' % w, '', hd)
                hd = re.sub(r'\b(nonnull|noalias|align \d+|dereferenceable(_or_null)?\(\d+\))', '', hd)
                rett = T.parse(hd)[0]
                f = Func(name, rett, params, self)
                i += 1
                cur = None
                while lines[i] != '}':
                    s = lines[i].split(' ; ')[0].rstrip() if '"' not in lines[i] else lines[i]
                    s = s.strip()
                    if s and not s.startswith(';'):
                        m2 = re.match(r'^("[^"]+"|[\w.$-]+):', s)
                        if m2 and not lines[i].startswith(' '):
                            cur = m2.group(1)
                            f.order.append(cur)
                            f.blocks[cur] = []
                        else:
                            if cur is None:
                                cur = str(len(params))
                                f.order.append(cur)
                                f.blocks[cur] = []
                            # join switch continuation lines
                            if s.startswith('switch') and not s.endswith(']'):
                                while ']' not in lines[i]:
                                    i += 1
                                    s += ' ' + lines[i].strip()
                            f.blocks[cur].append(re.sub(r', ![\w.]+ !\d+', '', s))
                    i += 1
                self.funcs[name] = f
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                self.decls.add(m.group(1))
            i += 1
        for a, f in self.aliases.items():
            if f in self.funcs:
                self.funcs.setdefault(a, self.funcs[f])

    def gdef(self, l):
        m = re.match(r'@("[^"]+"|[\w.$-]+) = (.*)$', l)
        name, d = m.group(1), m.group(2)
        words = d
        ext = re.search(r'\bexternal\b', words.split('=')[0]) is not None and 'c"' not in words
        const = bool(re.search(r'\bconstant\b', words))
        m2 = re.match(r'[^"@]*\balias\b.*, ptr @("[^"]+"|[\w.$-]+)$', words)
        if m2:
            self.aliases[name] = m2.group(1)
            return
        m2 = re.search(r'\b(global|constant)\b', words)
        rest = words[m2.end():]
        t, rest = self.types.parse(rest)
        al = re.search(r', align (\d+)', rest)
        self.gdefs[name] = (t, rest.strip(), const, ext, int(al.group(1)) if al else 1)


class Program:
    """modules + external (python or assembly) functions, executed over one Ctx"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.mods = []
        self.ext = {}
        self.splits = False          # one path at a time (zpath)
        self.gobjs = {}
        self.undo = None
        self.steps = 0
        self.max_steps = 60_000_000 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 400_000_000
        self.forks = 0
        self.funcs_run = {}
        self.pcs = []
        self.dirty = set()       # mutable static objects written so far
        self.statics = []        # mutable static objects
        self.skip_pure = None    # names of output functions, or None
        self.forklog = []        # (path conditions, condition) of symbolic branches

    def new_call(self):
        """start of a top-level call: reads of statics not preceded by a write in this call are stale"""
        for o in self.statics:
            o.reads, o.writes = set(), set()

    def stale(self):
        return sorted(o.name for o in self.statics if o.reads)

    def add_static(self, o):
        o.reads, o.writes = set(), set()
        self.statics.append(o)

    def add_module(self, text, name):
        m = Module(text, name)
        self.mods.append(m)
        return m

    # ---------------------------------------------------- memory
    def new_obj(self, name, size, **kw):
        return Obj(name, size, **kw)

    def array(self, name, vals, esz, const=False, align=4):
        o = Obj(name, len(vals) * esz, const=const, align=align)
        for i, v in enumerate(vals):
            o.cells[i * esz] = (esz, v & ((1 << 8 * esz) - 1) if type(v) is int else v)
        return o

    def read_array(self, o, n, esz=4, start=0):
        return [self.load(Ptr(o, start + i * esz), esz) for i in range(n)]

    def check(self, p, n, write):
        if type(p) is not Ptr:
            raise MemError('%s through a non-pointer value' % ('store' if write else 'load'))
        if type(p.off) is not int:
            raise Unsupported('symbolic address')
        if p.off < 0 or p.off + n > p.o.size:
            raise MemError('%s of %d bytes at offset %d of %s (size %d)' % (
                'store' if write else 'load', n, p.off, p.o.name, p.o.size))
        if write and p.o.const:
            raise MemError('store to constant %s' % p.o.name)

    def load(self, p, n):
        if type(p) is not Ptr or type(p.off) is not int or p.off < 0 or p.off + n > p.o.size:
            self.check(p, n, False)
        o = p.o
        c = o.cells.get(p.off)
        if o.reads is not None and (p.off, n) not in o.writes:
            o.reads.add((p.off, n))
        if c is not None and c[0] == n:
            return c[1]
        return self.load_slow(o, p.off, n)

    def load_slow(self, o, off, n):
        C = self.ctx
        # assemble from pieces
        parts = []
        end = off + n
        pos = off
        while pos < end:
            c = o.cells.get(pos)
            if c is None:
                # inside a larger cell?
                for back in (1, 2, 3, 4, 5, 6, 7):
                    d = o.cells.get(pos - back)
                    if d is not None and d[0] > back:
                        take = min(d[0] - back, end - pos)
                        v = d[1]
                        if isinstance(v, Ptr):
                            raise Unsupported('partial pointer load')
                        v = C.trunc(C.lshr(v, 8 * back, 8 * d[0]), 8 * take)
                        parts.append((take, v))
                        pos += take
                        break
                else:
                    if o.zero:
                        parts.append((1, 0))
                        pos += 1
                    else:
                        raise MemError('load of uninitialised memory at %s+%d' % (o.name, pos))
                continue
            sz, v = c
            if sz <= end - pos:
                parts.append((sz, v))
                pos += sz
            else:
                if isinstance(v, Ptr):
                    raise Unsupported('partial pointer load')
                take = end - pos
                parts.append((take, C.trunc(v, 8 * take)))
                pos += take
        if len(parts) == 1:
            return parts[0][1]
        r, sh = 0, 0
        for sz, v in parts:
            if isinstance(v, Ptr):
                raise Unsupported('partial pointer load')
            r = C.add_(r, C.mulc_(C.uval(v, 8 * sz), 1 << sh))
            sh += 8 * sz
        return r

    def store(self, p, n, v):
        self.check(p, n, True)
        o, off = p.o, p.off
        if o.writes is not None:
            o.writes.add((off, n))
            self.dirty.add(o.name)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            if self.undo is not None:
                self.undo.append((o, off, c))
            cells[off] = (n, v)
            return
        self.split_at(o, off)
        self.split_at(o, off + n)
        for q in range(off, off + n):
            if q in cells:
                if self.undo is not None:
                    self.undo.append((o, q, cells[q]))
                del cells[q]
        if self.undo is not None:
            self.undo.append((o, off, None))
        cells[off] = (n, v)

    def split_at(self, o, pos):
        """make sure no cell straddles pos"""
        if pos in o.cells:
            return
        C = self.ctx
        for back in (1, 2, 3, 4, 5, 6, 7):
            d = o.cells.get(pos - back)
            if d is not None:
                if d[0] > back:
                    s = pos - back
                    sz, v = d
                    if isinstance(v, Ptr):
                        raise Unsupported('pointer split')
                    if self.undo is not None:
                        self.undo.append((o, s, d))
                        self.undo.append((o, pos, None))
                    o.cells[s] = (back, C.trunc(v, 8 * back))
                    o.cells[pos] = (sz - back, C.lshr(v, 8 * back, 8 * sz))
                return

    # ---------------------------------------------------- globals
    def gobj(self, mod, name):
        key = (mod.name, name)
        o = self.gobjs.get(key)
        if o is not None:
            return o
        g = mod.gdefs.get(name)
        if g is None or g[3]:
            for m in self.mods:
                h = m.gdefs.get(name)
                if h is not None and not h[3]:
                    o = self.gobj(m, name)
                    self.gobjs[key] = o
                    return o
            if g is None and self.find(name, mod) is not None:
                o = Obj('@' + name, 0)
                o.fn = (name, mod)
                self.gobjs[key] = o
                return o
            o = self.ext_global(name)
            if o is not None:
                self.gobjs[key] = o
                return o
            raise Unsupported('undefined global ' + name)
        t, init, const, ext, al = g
        o = Obj('@' + name, mod.types.size(t), const=const, align=al)
        self.gobjs[key] = o
        self.init(mod, o, 0, t, init)
        if not const:
            self.add_static(o)
        return o

    def ext_global(self, name):
        return None

    def init(self, mod, o, off, t, s):
        T = mod.types
        s = s.lstrip()
        rt = T.res(t)
        if s.startswith('zeroinitializer'):
            if rt[0] == 'a' and rt[2][0] == 'i':
                es = T.size(rt[2])
                for i in range(rt[1]):
                    o.cells[off + i * es] = (es, 0)
            else:
                o.zero = True
            return s[15:]
        if rt[0] == 'i':
            m = re.match(r'(-?\d+|true|false|undef)', s)
            v = m.group(1)
            v = {'true': 1, 'false': 0, 'undef': 0}.get(v) if not v.lstrip('-').isdigit() else int(v)
            o.cells[off] = (T.size(rt), v & ((1 << 8 * T.size(rt)) - 1))
            return s[m.end():]
        if rt[0] == 'a' and s.startswith('c"'):
            j = 2
            k = 0
            while s[j] != '"':
                if s[j] == '\\':
                    v = int(s[j + 1:j + 3], 16)
                    j += 3
                else:
                    v = ord(s[j])
                    j += 1
                o.cells[off + k] = (1, v)
                k += 1
            return s[j + 1:]
        if rt[0] == 'a':
            s = s[1:]
            es = T.size(rt[2])
            for i in range(rt[1]):
                et, s = T.parse(s)
                s = self.init(mod, o, off + i * es, et, s).lstrip()
                if s.startswith(','):
                    s = s[1:]
            return s[1:]
        if rt[0] == 's':
            s = s[1:]
            for i in range(len(rt[1])):
                et, s = T.parse(s)
                fo, ft = T.field(rt, i)
                s = self.init(mod, o, off + fo, ft, s).lstrip()
                if s.startswith(','):
                    s = s[1:]
            return s.lstrip()[1:]
        if rt[0] == 'p':
            if s.startswith('null'):
                o.cells[off] = (8, 0)
                return s[4:]
            m = re.match(r'@("[^"]+"|[\w.$-]+)', s)
            if m:
                o.cells[off] = (8, Ptr(self.gobj(mod, m.group(1)), 0))
                return s[m.end():]
        raise Unsupported('initialiser ' + s[:60])

    # ---------------------------------------------------- functions
    def find(self, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        if name in self.ext:
            return self.ext[name]
        for m in self.mods:
            if name in m.funcs:
                return m.funcs[name]
        return None

    def call(self, name, args, mod=None):
        f = self.find(name, mod)
        if f is None:
            if name in self.LIBC:
                return getattr(self, 'libc_' + self.LIBC[name])(args)
            raise Unsupported('call to undefined function ' + name)
        if isinstance(f, Func):
            return self.run(f, args)
        return f(self, args)

    # ---------------------------------------------------- compile
    def compile(self, f):
        if f.compiled:
            return
        mod, T, C = f.mod, f.mod.types, self.ctx
        slots = {}
        template = []

        def slot(nm):
            i = slots.get(nm)
            if i is None:
                i = slots[nm] = len(template)
                template.append(None)
            return i

        consts = {}

        def const(v):
            k = ('c', v) if type(v) is int else ('o', id(v.o), v.off)
            i = consts.get(k)
            if i is None:
                i = consts[k] = len(template)
                template.append(v)
            return i

        def operand(s, t):
            """slot of operand text s with type t; returns slot"""
            s = s.strip()
            if s[0] == '%':
                return slot(s)
            if t[0] == 'i':
                if s in ('true', 'false'):
                    return const(1 if s == 'true' else 0)
                if s in ('undef', 'poison'):
                    return const(0)
                if s.startswith('ptrtoint'):
                    raise Unsupported('constexpr ptrtoint')
                return const(int(s) & ((1 << t[1]) - 1))
            if t[0] == 'p':
                if s == 'null':
                    return const(0)
                if s in ('undef', 'poison'):
                    return const(0)
                return const(self.constptr(mod, s))
            if t[0] == 'f':
                i = len(template)
                template.append(('fconst', s))
                return i
            raise Unsupported('operand %s' % s)

        def typed(s):
            """'i32 noundef %3' -> (type, slot)"""
            t, rest = T.parse(s)
            rest = rest.strip()
            while True:
                m = re.match(r'(noundef|signext|zeroext|nonnull|noalias|nocapture|readonly|writeonly|writable|dead_on_unwind|immarg|returned|align \d+|dereferenceable(?:_or_null)?\(\d+\)|sret\([^)]*\)|byval\([^)]*\))\s+', rest)
                if not m:
                    break
                if m.group(1).startswith('byval'):
                    raise Unsupported('byval')
                rest = rest[m.end():]
            if t[0] == 'm':
                return t, const(0)
            return t, operand(rest, t)

        for n, (t, nm) in enumerate(f.params):
            slot(nm)
        f.pslots = [slots[nm] for _, nm in f.params]
        f.code = {}
        f.term = {}
        f.phis = {}
        P = self
        for b in f.order:
            code = []
            phis = []
            for s in f.blocks[b]:
                ins = self.comp_ins(f, s, slot, const, operand, typed, phis)
                if ins is None:
                    continue
                if ins[0] == 'term':
                    f.term[b] = ins[1:]
                    break
                code.append(ins[1])
            f.code[b] = code
            f.phis[b] = phis
        # edges
        f.moves = {}
        for b in f.order:
            for (dst, inc, w) in f.phis[b]:
                for v, p in inc:
                    f.moves.setdefault((p, b), []).append((dst, v))
        f.phiw = {b: {dst: w for dst, inc, w in f.phis[b]} for b in f.order}
        f.template = template
        f.compiled = True
        f.ipd = None

    def constptr(self, mod, s):
        m = re.match(r'@("[^"]+"|[\w.$-]+)$', s)
        if m:
            return Ptr(self.gobj(mod, m.group(1)), 0)
        m = re.match(r'getelementptr( inbounds)?( nuw)? \((.*)\)$', s)
        if m:
            parts = tokenize_types(m.group(3))
            t = mod.types.parse(parts[0])[0]
            base = self.constptr(mod, parts[1][3:].strip())
            idx = []
            for p in parts[2:]:
                tt, r = mod.types.parse(p)
                idx.append(int(r))
            return Ptr(base.o, base.off + self.gepoff(mod.types, t, idx))
        raise Unsupported('constant pointer ' + s)

    def gepoff(self, T, t, idx):
        off = idx[0] * T.size(t)
        for i in idx[1:]:
            t = T.res(t)
            if t[0] == 'a':
                t = t[2]
                off += i * T.size(t)
            else:
                fo, t = T.field(t, i)
                off += fo
        return off

    def comp_ins(self, f, s, slot, const, operand, typed, phis):
        T, C, P = f.mod.types, self.ctx, self
        dst = None
        m = re.match(r'(%("[^"]+"|[\w.$-]+)) = (.*)$', s)
        if m:
            dst = slot(m.group(1))
            s = m.group(3)
        op = s.split()[0]
        if op in ('tail', 'musttail', 'notail'):
            s = s[len(op) + 1:]
            op = 'call'
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            rest = s[len(op):].strip()
            nsw = nuw = False
            while True:
                mm = re.match(r'(nsw|nuw|exact|disjoint)\s+', rest)
                if not mm:
                    break
                if mm.group(1) == 'nsw':
                    nsw = True
                if mm.group(1) == 'nuw':
                    nuw = True
                rest = rest[mm.end():]
            t, rest = T.parse(rest)
            a, b = tokenize_types(rest)
            a, b = operand(a, t), operand(b, t)
            w = t[1]
            M = (1 << w) - 1
            H = 1 << (w - 1)
            loc = '%s' % f.name
            if op in ('add', 'sub', 'mul'):
                g = getattr(C, op)
                if op == 'add':
                    def fn(e, a=a, b=b, dst=dst, M=M, g=g, w=w, nsw=nsw):
                        x = e[a]
                        y = e[b]
                        if type(x) is int and type(y) is int:
                            r = x + y
                            if nsw and w <= 64:
                                xs = x - M - 1 if x >= H else x
                                ys = y - M - 1 if y >= H else y
                                if not -H <= xs + ys < H:
                                    C.obligations.append(('add', loc, xs + ys, w))
                            e[dst] = r & M
                        elif type(x) is Ptr or type(y) is Ptr:
                            e[dst] = P.ptrarith(x, y, 1, w)
                        else:
                            C.where = loc
                            e[dst] = g(x, y, w, nsw)
                elif op == 'sub':
                    def fn(e, a=a, b=b, dst=dst, M=M, g=g, w=w, nsw=nsw):
                        x = e[a]
                        y = e[b]
                        if type(x) is int and type(y) is int:
                            if nsw:
                                xs = x - M - 1 if x >= H else x
                                ys = y - M - 1 if y >= H else y
                                if not -H <= xs - ys < H:
                                    C.obligations.append(('sub', loc, xs - ys, w))
                            e[dst] = (x - y) & M
                        elif type(x) is Ptr or type(y) is Ptr:
                            e[dst] = P.ptrarith(x, y, -1, w)
                        else:
                            C.where = loc
                            e[dst] = g(x, y, w, nsw)
                else:
                    def fn(e, a=a, b=b, dst=dst, M=M, g=g, w=w, nsw=nsw):
                        x = e[a]
                        y = e[b]
                        if type(x) is int and type(y) is int:
                            if nsw:
                                xs = x - M - 1 if x >= H else x
                                ys = y - M - 1 if y >= H else y
                                if not -H <= xs * ys < H:
                                    C.obligations.append(('mul', loc, xs * ys, w))
                            e[dst] = (x * y) & M
                        else:
                            C.where = loc
                            e[dst] = g(x, y, w, nsw)
                return ('i', fn)
            if op == 'shl':
                def fn(e, a=a, b=b, dst=dst):
                    x, y = e[a], e[b]
                    if type(y) is int and y >= w:
                        raise MemError('shift count %d >= width %d in %s' % (y, w, loc))
                    if type(x) is int and type(y) is int:
                        if nsw:
                            xs = x - M - 1 if x >= H else x
                            if not -H <= xs << y < H:
                                C.obligations.append(('shl', loc, xs << y, w))
                        e[dst] = (x << y) & M
                    else:
                        C.where = loc
                        e[dst] = C.shl(x, y, w, nsw)
                return ('i', fn)
            if op in ('lshr', 'ashr'):
                g = getattr(C, op)

                def fn(e, a=a, b=b, dst=dst, g=g, sgn=(op == 'ashr')):
                    x, y = e[a], e[b]
                    if type(y) is int and y >= w:
                        raise MemError('shift count %d >= width %d in %s' % (y, w, loc))
                    if type(x) is int and type(y) is int:
                        if sgn and x >= H:
                            x -= M + 1
                        e[dst] = (x >> y) & M
                    else:
                        e[dst] = g(x, y, w)
                return ('i', fn)
            if op in ('and', 'or', 'xor'):
                g = {'and': C.bitand, 'or': C.bitor, 'xor': C.bitxor}[op]
                if w == 1 and op == 'and':
                    g = lambda x, y, w: C.and1(x, y)
                if w == 1 and op == 'or':
                    g = lambda x, y, w: C.add_(1, C.and1(C.add_(1, x, -1), C.add_(1, y, -1)), -1)
                pyop = {'and': int.__and__, 'or': int.__or__, 'xor': int.__xor__}[op]

                def fn(e, a=a, b=b, dst=dst, g=g, pyop=pyop):
                    x, y = e[a], e[b]
                    if type(x) is int and type(y) is int:
                        e[dst] = pyop(x, y)
                    else:
                        e[dst] = g(x, y, w)
                return ('i', fn)
            g = getattr(C, op)

            def fn(e, a=a, b=b, dst=dst, g=g, op=op):
                x, y = e[a], e[b]
                if type(y) is int and y == 0:
                    raise MemError('division by zero in ' + loc)
                if type(x) is int and type(y) is int:
                    if op[0] == 'u':
                        e[dst] = x // y if op == 'udiv' else x % y
                        return
                    xs, ys = C.s2(x, w), C.s2(y, w)
                    if xs == -H and ys == -1:
                        raise MemError('signed division overflow in ' + loc)
                    q = abs(xs) // abs(ys)
                    if (xs < 0) != (ys < 0):
                        q = -q
                    e[dst] = (q if op == 'sdiv' else xs - q * ys) & M
                else:
                    e[dst] = g(x, y, w)
            return ('i', fn)
        if op == 'icmp':
            mm = re.match(r'icmp (?:samesign )?(\w+) (.*)$', s)
            pred = mm.group(1)
            t, rest = T.parse(mm.group(2))
            a, b = tokenize_types(rest)
            a, b = operand(a, t), operand(b, t)
            w = t[1] if t[0] == 'i' else 64
            M1 = 1 << w
            H = 1 << (w - 1)
            py = {'eq': int.__eq__, 'ne': int.__ne__, 'lt': int.__lt__, 'le': int.__le__, 'gt': int.__gt__, 'ge': int.__ge__}[
                pred if pred in ('eq', 'ne') else pred[1:]]
            sg = pred[0] == 's'

            def fn(e):
                x = e[a]
                y = e[b]
                if type(x) is int and type(y) is int:
                    if sg:
                        if x >= H:
                            x -= M1
                        if y >= H:
                            y -= M1
                    e[dst] = 1 if py(x, y) else 0
                elif type(x) is Ptr or type(y) is Ptr:
                    e[dst] = P.ptrcmp(pred, x, y)
                else:
                    e[dst] = C.cmp(pred, x, y, w)
            return ('i', fn)
        if op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            rest = s[len(op):].strip()
            rest = re.sub(r'^(nneg|nuw|nsw)\s+', '', rest)
            rest = re.sub(r'^(nuw|nsw)\s+', '', rest)
            t, r2 = T.parse(rest)
            if op == 'freeze':
                a = operand(r2, t)

                def fn(e):
                    e[dst] = e[a]
                return ('i', fn)
            av, tt = r2.rsplit(' to ', 1)
            a = operand(av, t)
            t2 = T.parse(tt)[0]
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                def fn(e):
                    e[dst] = e[a]
                return ('i', fn)
            w, w2 = t[1], t2[1]
            M2 = (1 << w2) - 1
            H = 1 << (w - 1)
            if op == 'trunc':
                def fn(e):
                    x = e[a]
                    e[dst] = x & M2 if type(x) is int else C.trunc(x, w2)
            elif op == 'zext':
                def fn(e):
                    x = e[a]
                    e[dst] = x if type(x) is int else C.zext(x, w, w2)
            else:
                def fn(e):
                    x = e[a]
                    if type(x) is int:
                        e[dst] = x if x < H else (x - 2 * H) & M2
                    else:
                        e[dst] = C.sext(x, w, w2)
            return ('i', fn)
        if op == 'getelementptr':
            rest = re.sub(r'^getelementptr\s+((inbounds|nuw|nusw)\s+)*', '', s)
            parts = tokenize_types(rest)
            t = T.parse(parts[0])[0]
            bt, base = typed(parts[1])
            steps = []       # (scale, slot, width)
            coff = 0
            cur = t
            for n, p in enumerate(parts[2:]):
                it, isl = typed(p)
                if n == 0:
                    steps.append((T.size(cur), isl, it[1]))
                else:
                    cur = T.res(cur)
                    if cur[0] == 'a':
                        cur = cur[2]
                        steps.append((T.size(cur), isl, it[1]))
                    else:
                        k = int(p.split()[-1])
                        fo, cur = T.field(cur, k)
                        coff += fo
            steps = [(sc, sl, 1 << (w - 1), 1 << w) for sc, sl, w in steps]

            def fn(e):
                p = e[base]
                if type(p) is not Ptr:
                    raise MemError('pointer arithmetic on a non-pointer in ' + f.name)
                off = p.off + coff
                for sc, sl, H, M in steps:
                    i = e[sl]
                    if type(i) is not int:
                        i = P.index(i)
                    if i >= H:
                        i -= M
                    off += sc * i
                e[dst] = Ptr(p.o, off)
            return ('i', fn)
        if op == 'load':
            rest = re.sub(r'^load\s+(volatile\s+)?', '', s)
            parts = tokenize_types(rest)
            t = T.parse(parts[0])[0]
            if t[0] not in 'ip':
                raise Unsupported('load of %s' % (t,))
            _, p = typed(parts[1])
            n = T.size(t)
            odd = t[0] == 'i' and t[1] != 8 * n

            def fn(e):
                v = P.load(e[p], n)
                if odd:
                    v = C.trunc(v, t[1])
                e[dst] = v
            return ('i', fn)
        if op == 'store':
            rest = re.sub(r'^store\s+(volatile\s+)?', '', s)
            parts = tokenize_types(rest)
            t, v = typed(parts[0])
            _, p = typed(parts[1])
            n = T.size(t)
            odd = t[0] == 'i' and t[1] != 8 * n

            def fn(e):
                x = e[v]
                if odd:
                    x = C.uval(x, t[1])
                P.store(e[p], n, x)
            return ('i', fn)
        if op == 'alloca':
            parts = tokenize_types(s[7:])
            t = T.parse(parts[0])[0]
            n = 1
            if len(parts) > 1 and not parts[1].startswith('align'):
                _, ns = typed(parts[1])
            else:
                ns = None
            size = T.size(t)
            al = T.align(t)

            def fn(e):
                k = 1 if ns is None else e[ns]
                e[dst] = Ptr(Obj('%s.local' % f.name, size * k, align=16), 0)
            return ('i', fn)
        if op == 'phi':
            rest = s[3:].strip()
            t, rest = T.parse(rest)
            inc = []
            for mm in re.finditer(r'\[\s*(.+?),\s*%("[^"]+"|[\w.$-]+)\s*\]', rest):
                inc.append((operand(mm.group(1), t), mm.group(2)))
            phis.append((dst, inc, t[1] if t[0] == 'i' else 0))
            return None
        if op == 'select':
            parts = tokenize_types(s[6:])
            _, c = typed(parts[0])
            t, a = typed(parts[1])
            _, b = typed(parts[2])
            w = t[1] if t[0] == 'i' else 0

            def fn(e):
                cc = C.uval(e[c], 1)
                if type(cc) is int:
                    e[dst] = e[a] if cc else e[b]
                elif w == 0 and P.splits:
                    e[dst] = e[a] if P.decide(cc) else e[b]
                else:
                    e[dst] = P.merge(cc, e[a], e[b], w)
            return ('i', fn)
        if op == 'br':
            mm = re.match(r'br label %("[^"]+"|[\w.$-]+)', s)
            if mm:
                return ('term', 'br', mm.group(1))
            mm = re.match(r'br i1 (\S+), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)', s)
            return ('term', 'cbr', operand(mm.group(1), ('i', 1)), mm.group(2), mm.group(3))
        if op == 'switch':
            mm = re.match(r'switch (i\d+) (\S+), label %("[^"]+"|[\w.$-]+) \[(.*)\]', s)
            t = T.parse(mm.group(1))[0]
            cases = {}
            for c in re.finditer(r'i\d+ (-?\d+), label %("[^"]+"|[\w.$-]+)', mm.group(4)):
                cases[int(c.group(1)) & ((1 << t[1]) - 1)] = c.group(2)
            return ('term', 'switch', operand(mm.group(2), t), mm.group(3), cases, t[1])
        if op == 'ret':
            if s.strip() == 'ret void':
                return ('term', 'ret', None, 0)
            t, v = typed(s[3:])
            return ('term', 'ret', v, t[1] if t[0] == 'i' else 0)
        if op == 'unreachable':
            return ('term', 'unreachable')
        if op == 'call':
            mm = re.match(r'call\s+(.*)$', s)
            rest = mm.group(1)
            k = re.search(r'(@("[^"]+"|[\w.$-]+)|%[\w.$-]+)\(', rest)
            callee = k.group(1)
            depth, j = 1, k.end()
            while depth:
                if rest[j] == '(':
                    depth += 1
                elif rest[j] == ')':
                    depth -= 1
                j += 1
            al = tokenize_types(rest[k.end():j - 1])
            if callee.startswith('@llvm.dbg') or callee.startswith('@llvm.lifetime') or callee.startswith('@llvm.assume'):
                return None
            args = [typed(x)[1] for x in al]
            if callee.startswith('%'):
                cs = slot(callee)

                def fn(e):
                    p = e[cs]
                    if type(p) is not Ptr or p.off or p.o.fn is None:
                        raise Unsupported('indirect call')
                    r = P.call(p.o.fn[0], [e[i] for i in args], p.o.fn[1])
                    if dst is not None:
                        e[dst] = r
                return ('i', fn)
            name = callee[1:]
            mod = f.mod
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                def fn(e):
                    P.memcpy(e[args[0]], e[args[1]], e[args[2]])
                return ('i', fn)
            if name.startswith('llvm.memset'):
                def fn(e):
                    P.memset(e[args[0]], e[args[1]], e[args[2]])
                return ('i', fn)

            mm = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)$', name)
            if mm:
                sg, o2, w = mm.group(1), mm.group(2), int(mm.group(3))
                H, M = 1 << (w - 1), (1 << w) - 1
                lo, hi = (-H, H - 1) if sg == 's' else (0, M)

                def fn(e):
                    val = C.sval if sg == 's' else C.uval
                    x, y = e[args[0]], e[args[1]]
                    if sg == 's':
                        x, y = C.s2(x, w), C.s2(y, w)
                    x, y = val(x, w), val(y, w)
                    r = C.mul_(x, y) if o2 == 'mul' else C.add_(x, y, 1 if o2 == 'add' else -1)
                    if type(r) is int:
                        e[dst] = (r & M, 0 if lo <= r <= hi else 1)
                    else:
                        a, b = C.lt0_(C.add_(r, -lo)), C.lt0_(C.add_(hi, r, -1))
                        e[dst] = (r, C.add_(a, b))
                return ('i', fn)
            mm = re.match(r'llvm\.(cttz|ctlz|ctpop)\.i(\d+)$', name)
            if mm:
                kd, w = mm.group(1), int(mm.group(2))

                def fn(e):
                    x = e[args[0]]
                    if type(x) is int:
                        x &= (1 << w) - 1
                        e[dst] = (bin(x).count('1') if kd == 'ctpop' else w - x.bit_length() if kd == 'ctlz' else
                                  w if x == 0 else (x & -x).bit_length() - 1)
                        return
                    r = 0
                    for k in range(1, w + 1):
                        if kd == 'cttz':
                            b = C.eq0_(C.sval(C.bitand(x, (1 << k) - 1, w), w)) if k < w else C.eq0_(C.sval(x, w))
                        elif kd == 'ctlz':
                            b = C.lt0_(C.add_(C.uval(x, w), -(1 << (w - k))))
                        else:
                            b = C.uval(C.bitand(C.lshr(x, k - 1, w), 1, w), w)
                        r = C.add_(r, b)
                    e[dst] = r
                return ('i', fn)

            def fn(e):
                r = P.call(name, [e[i] for i in args], mod)
                if dst is not None:
                    e[dst] = r
            return ('i', fn)
        if op == 'extractvalue':
            mm = re.match(r'extractvalue\s+\{.*?\}\s+(%\S+),\s*(\d+)$', s)
            if mm:
                a, k = slot(mm.group(1)), int(mm.group(2))

                def fn(e):
                    e[dst] = e[a][k]
                return ('i', fn)
        raise Unsupported('instruction ' + s[:80])

    # ---- C library functions (models)
    LIBC = {'memcmp': 'memcmp', 'bcmp': 'memcmp', 'memcpy': 'memcpy', 'memmove': 'memcpy', 'memset': 'memset', 'abs': 'abs'}

    def libc_memcmp(self, args):
        """number of differing words: zero exactly when the areas are equal (the sign is not modelled)"""
        x, y, n = args
        if type(n) is not int:
            raise Unsupported('symbolic memcmp size')
        C = self.ctx
        self.check(x, n, False)
        self.check(y, n, False)
        r, i = 0, 0
        while i < n:
            cx, cy = x.o.cells.get(x.off + i), y.o.cells.get(y.off + i)
            k = 1
            if cx is not None and cy is not None and cx[0] == cy[0] and i + cx[0] <= n:
                k = cx[0]
            u, v = self.load(Ptr(x.o, x.off + i), k), self.load(Ptr(y.o, y.off + i), k)
            if type(u) is Ptr or type(v) is Ptr:
                raise Unsupported('memcmp of pointers')
            e = C.eq0_(C.add_(C.sval(u, 8 * k), C.sval(v, 8 * k), -1))
            r = C.add_(r, C.add_(1, e, -1))
            i += k
        return r

    def libc_memcpy(self, args):
        self.memcpy(*args[:3])
        return args[0]

    def libc_memset(self, args):
        self.memset(*args[:3])
        return args[0]

    def libc_abs(self, args):
        C = self.ctx
        x = C.sval(args[0], 32)
        if type(x) is int:
            return abs(x)
        return C.ite_(C.lt0_(x), C.mul_(x, -1), x)

    def memcpy(self, d, s, n):
        if type(n) is not int:
            raise Unsupported('symbolic memcpy size')
        if n == 0:
            return
        self.check(d, n, True)
        self.check(s, n, False)
        items = []
        pos = s.off
        while pos < s.off + n:
            c = s.o.cells.get(pos)
            if c is not None and pos + c[0] <= s.off + n:
                items.append((pos - s.off, c))
                if s.o.reads is not None and (pos, c[0]) not in s.o.writes:
                    s.o.reads.add((pos, c[0]))
                pos += c[0]
            elif c is None and not s.o.zero:
                pos += 1       # copying padding/uninitialised bytes is allowed
            else:
                items.append((pos - s.off, (1, self.load(Ptr(s.o, pos), 1))))
                pos += 1
        for off, (sz, v) in items:
            self.store(Ptr(d.o, d.off + off), sz, v)

    def memset(self, d, v, n):
        if type(n) is not int or type(v) is not int:
            raise Unsupported('symbolic memset')
        if n == 0:
            return
        self.check(d, n, True)
        i = 0
        while i < n:
            k = 4 if n - i >= 4 and (d.off + i) % 4 == 0 else 1
            b = v & 255
            self.store(Ptr(d.o, d.off + i), k, b * 0x01010101 if k == 4 else b)
            i += k

    def index(self, i):
        raise Unsupported('symbolic index')

    def ptrarith(self, x, y, s, w):
        if type(x) is Ptr and type(y) is Ptr and s == -1:
            if x.o is not y.o:
                raise Unsupported('difference of unrelated pointers')
            return (x.off - y.off) & ((1 << w) - 1)
        if type(x) is Ptr and type(y) is int:
            return Ptr(x.o, x.off + s * self.ctx.s2(y, w))
        if type(y) is Ptr and type(x) is int and s == 1:
            return Ptr(y.o, y.off + self.ctx.s2(x, w))
        raise Unsupported('pointer arithmetic')

    def ptrcmp(self, pred, x, y):
        if type(x) is int or type(y) is int:
            if (x == 0 or y == 0) and pred in ('eq', 'ne'):
                return 1 if pred == 'ne' else 0
            raise Unsupported('pointer compared with integer')
        if x.o is not y.o:
            if pred in ('eq', 'ne'):
                return 1 if pred == 'ne' else 0
            raise Unsupported('comparison of unrelated pointers')
        p = pred if pred in ('eq', 'ne') else pred[1:]
        a, b = x.off, y.off
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])

    # ---------------------------------------------------- execution
    def run(self, f, args):
        self.compile(f)
        self.funcs_run[f.name] = self.funcs_run.get(f.name, 0) + 1
        env = list(f.template)
        for s, a in zip(f.pslots, args):
            env[s] = a
        kind, val = self.go(f, env, None, f.order[0], None)
        return val

    def enter(self, f, env, pred, blk):
        mv = f.moves.get((pred, blk))
        if mv:
            if len(mv) == 1:
                d, s = mv[0]
                env[d] = env[s]
            else:
                vals = [env[s] for _, s in mv]
                for (d, _), v in zip(mv, vals):
                    env[d] = v

    def go(self, f, env, pred, blk, stop, skip_phi=False):
        """run from blk until `stop` is about to be entered (returns ('stop', pred))
        or the function returns (returns ('ret', value))"""
        code, term = f.code, f.term
        while True:
            if blk == stop:
                return 'stop', pred
            if not skip_phi:
                self.enter(f, env, pred, blk)
            skip_phi = False
            c = code[blk]
            self.steps += len(c) + 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit')
            for ins in c:
                ins(env)
            t = term[blk]
            k = t[0]
            if k == 'br':
                pred, blk = blk, t[1]
            elif k == 'cbr':
                v = env[t[1]]
                if type(v) is not int:
                    v = self.ctx.uval(v, 1)
                if type(v) is int:
                    pred, blk = blk, (t[2] if v else t[3])
                else:
                    if self.skip_pure is not None:
                        ip = self.pure(f, blk)
                        if ip is not None:
                            if ip == '#exit':
                                return 'ret', None
                            pred, blk, skip_phi = None, ip, True
                            continue
                    v2 = self.decide(v)
                    if v2 is not None:
                        pred, blk = blk, (t[2] if v2 else t[3])
                        continue
                    r = self.fork(f, env, blk, v, t[2], t[3], stop)
                    if r[0] == 'ret':
                        return r
                    if r[0] == 'stopmerged':
                        return 'stopm', None
                    blk = r[1]
                    pred = None
                    skip_phi = True
            elif k == 'ret':
                return 'ret', (env[t[1]] if t[1] is not None else None)
            elif k == 'switch':
                v = env[t[1]]
                if type(v) is not int:
                    v = self.ctx.sval(v, t[4])
                    if type(v) is not int:
                        raise Unsupported('symbolic switch')
                    v &= (1 << t[4]) - 1
                pred, blk = blk, t[3].get(v, t[2])
            else:
                raise MemError('unreachable executed in ' + f.name)

    def pure(self, f, blk):
        """the block where the two sides of the branch at the end of blk meet, if nothing between has an effect
        (loads, arithmetic and the output functions named in skip_pure only); else None"""
        memo = self.__dict__.setdefault('pure_memo', {})
        k = (id(f), blk)
        if k in memo:
            return memo[k]
        ip = self.ipdom(f)[blk]
        ok = f.phiw[ip] == {} if ip != '#exit' else f.rett[0] == 'v'
        t = f.term[blk]
        todo, seen = [t[2], t[3]], set()
        while todo and ok:
            b = todo.pop()
            if b == ip or b in seen:
                continue
            seen.add(b)
            for s in f.blocks[b]:
                s = re.sub(r'^%\S+ = ', '', s)
                op = s.split()[0]
                if op in ('tail', 'notail'):
                    s = s.split(None, 1)[1]
                    op = 'call'
                if op == 'call':
                    m = re.search(r'@("[^"]+"|[\w.$-]+)\(', s)
                    if not m or m.group(1) not in self.skip_pure:
                        ok = False
                elif op in ('store', 'unreachable', 'alloca') or (op == 'ret' and ip != '#exit'):
                    ok = False
            t = f.term[b]
            if t[0] == 'br':
                todo.append(t[1])
            elif t[0] == 'cbr':
                todo += [t[2], t[3]]
            elif t[0] == 'switch':
                todo += [t[2]] + list(t[3].values())
        memo[k] = ip if ok else None
        return memo[k]

    def ipdom(self, f):
        if f.ipd is not None:
            return f.ipd
        succ = {}
        for b in f.order:
            t = f.term[b]
            if t[0] == 'br':
                succ[b] = [t[1]]
            elif t[0] == 'cbr':
                succ[b] = [t[2], t[3]]
            elif t[0] == 'switch':
                succ[b] = [t[2]] + list(t[3].values())
            else:
                succ[b] = ['#exit']
        nodes = f.order + ['#exit']
        full = set(nodes)
        pd = {b: set(full) for b in nodes}
        pd['#exit'] = {'#exit'}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                s = set(full)
                for x in succ[b]:
                    s &= pd[x]
                s = s | {b}
                if s != pd[b]:
                    pd[b] = s
                    ch = True
        ip = {}
        for b in f.order:
            c = pd[b] - {b}
            # immediate: the one whose own pdom set equals c
            ip[b] = next((x for x in c if pd[x] == c), '#exit')
        f.ipd = ip
        return ip

    def decide(self, v):
        if not self.pcs:
            return None
        return self.ctx.implied(self.pcs, v)

    def fork(self, f, env, blk, c, bt, bf, stop):
        ip = self.ipdom(f)[blk]
        self.forks += 1
        if self.forks <= 2000:
            self.forklog.append((tuple(self.pcs), c))
        if len(self.pcs) > 40:
            raise Unsupported('nested symbolic branches')
        outer = self.undo
        # side 1
        self.undo = []
        e1 = list(env)
        self.pcs.append((c, 1))
        r1 = self.go(f, e1, blk, bt, None if ip == '#exit' else ip)
        self.pcs.pop()
        if r1[0] == 'stop':
            self.enter(f, e1, r1[1], ip)
        w1 = {}
        for o, off, old in self.undo:
            w1[(id(o), off)] = (o, o.cells.get(off))
        # roll back
        for o, off, old in reversed(self.undo):
            if old is None:
                o.cells.pop(off, None)
            else:
                o.cells[off] = old
        # side 2
        self.undo = []
        e2 = list(env)
        self.pcs.append((c, 0))
        r2 = self.go(f, e2, blk, bf, None if ip == '#exit' else ip)
        self.pcs.pop()
        if r2[0] == 'stop':
            self.enter(f, e2, r2[1], ip)
        log2 = self.undo
        first2 = {}
        for o, off, old in log2:
            first2.setdefault((id(o), off), (o, old))
        self.undo = outer
        # merge memory
        keys = dict(w1)
        for k, (o, old) in first2.items():
            keys.setdefault(k, None)
        for k in keys:
            off = k[1]
            if w1.get(k) is not None:
                o, v1 = w1[k]
            else:
                o, v1 = first2[k][0], first2[k][1]
            v2 = o.cells.get(off)
            orig = first2[k][1] if k in first2 else v2
            if v1 is None or v2 is None or v1[0] != v2[0]:
                if v1 is None and v2 is None:
                    nv = None
                else:
                    # differing layout: keep only if one side never defined it
                    if v1 is None or v2 is None:
                        one = v1 or v2
                        nv = None          # initialised on one side only: undefined afterwards
                        nv = one if False else None
                    else:
                        raise Unsupported('memory layout differs between branches')
            elif v1[1] is v2[1]:
                nv = v1
            else:
                nv = (v1[0], self.merge(c, v1[1], v2[1], 8 * v1[0]))
            if self.undo is not None:
                self.undo.append((o, off, orig))
            if nv is None:
                o.cells.pop(off, None)
            else:
                o.cells[off] = nv
        if ip == '#exit':
            a, b = r1[1], r2[1]
            w = f.rett[1] if f.rett[0] == 'i' else 0
            return 'ret', (None if f.rett[0] == 'v' else self.merge(c, a, b, w))
        if r1[0] == 'ret' or r2[0] == 'ret':
            raise Unsupported('early return')
        for d, w in f.phiw[ip].items():
            env[d] = self.merge(c, e1[d], e2[d], w)
        if ip == stop:
            # the caller region ends here as well: hand the merged phis over
            return 'stopmerged', ip, None
        return 'cont', ip

    def merge(self, c, x, y, w):
        if x is y:
            return x
        if type(x) is Ptr or type(y) is Ptr:
            if type(x) is Ptr and type(y) is Ptr and x.o is y.o and x.off == y.off:
                return x
            raise Unsupported('symbolic pointer')
        if x is None or y is None:
            return None
        return self.ctx.select(c, x, y, w)
