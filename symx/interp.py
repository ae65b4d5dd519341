"""Symbolic executor for the LLVM IR of the real code (see llir.py).

* pointers are concrete integers (object id << 32 | offset);
* control flow on a symbolic condition goes through Exec.decide(), which follows
  a decision prefix and records the path condition: `explore` re-runs the
  function until every feasible prefix has been followed;
* a Rust panic ends the path with outcome 'panic'."""
import re, sys, math
from . import terms as T
from .terms import Term
from .llir import IRError, FParser, tokenize, PTR, I

sys.setrecursionlimit(1000000)
OFF = (1 << 32) - 1


class Panic(Exception):
    pass


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('data', 'sym', 'name', 'size', 'dead', 'ro')

    def __init__(self, size, name=''):
        self.data = bytearray(size)
        self.sym = {}
        self.name = name
        self.size = size
        self.dead = False
        self.ro = False


class Func:
    __slots__ = ('name', 'params', 'blocks', 'nslots', 'slots', 'fsize', 'rett', 'sret', 'phis', 'disp')


PANIC_RE = re.compile(r'core::panicking|panic_fmt|unwrap_failed|expect_failed|_fail\b|capacity_overflow|'
                      r'handle_alloc_error|slice_.*_fail|len_mismatch_fail|rust_panic|begin_panic|panic_')


class Exec:
    def __init__(self, mod):
        self.m = mod
        self.fcache = {}
        self.objs = {}
        self.next = 1
        self.gaddr = {}       # global symbol -> addr
        self.faddr = {}       # function addr -> (symbol)
        self.fsym = {}
        self.hooks = []       # (regex, handler)
        self.hook_exact = {}
        self.hookcache = {}
        self.steps = 0
        self.maxsteps = 10 ** 9
        self.funcs_seen = {}
        self.ext = {}
        self.decisions = []
        self.dpos = 0
        self.pc = []          # path condition: list of (Term, bool)
        self.facts = {}
        self.oracle = None    # cond -> None / True / False
        self.pending = []
        self.callstack = []
        self.trace_calls = False
        self.load_hook = None
        self.store_log = None
        self.max_paths = 4096
        self._install_default_ext()

    # ---------------- memory
    def new(self, size, name=''):
        i = self.next
        self.next = i + 1
        self.objs[i] = Obj(size, name)
        return i << 32

    def free(self, addr):
        o = self.objs.pop(addr >> 32, None)

    def obj(self, addr, n):
        o = self.objs.get(addr >> 32)
        if o is None:
            raise Unsupported('access to address %#x (no object)' % addr)
        off = addr & OFF
        if off + n > o.size:
            raise Unsupported('out of bounds access %s+%d size %d (object size %d)' % (o.name, off, n, o.size))
        return o, off

    def load(self, addr, n):
        if n == 0:
            return 0
        if type(addr) is not int:
            if n == 8 and self.lut_base(addr) is not None:
                return self.lut_load(addr, 0)
            addr = self.concretize(addr)
        o = self.objs.get(addr >> 32)
        if o is None:
            raise Unsupported('load from address %#x (no object)' % addr)
        off = addr & OFF
        if off + n > o.size:
            raise Unsupported('out of bounds load %s+%d size %d (object size %d)' % (o.name, off, n, o.size))
        s = o.sym
        if s:
            c = s.get(off)
            if c is not None and c[0] == n:
                return c[1]
            # any overlap?
            hit = False
            for k in range(off - 15, off + n):
                c = s.get(k)
                if c is not None and k + c[0] > off:
                    hit = True
                    break
            if hit:
                return T.concat([self._byte(o, off + i) for i in range(n)])
        return int.from_bytes(o.data[off:off + n], 'little')

    def lut_base(self, s):
        """object of a symbolic address base+index into a constant table, or None"""
        if s.op == 'add' and type(s.a[1]) is int:
            o = self.objs.get(s.a[1] >> 32)
            if o is not None and not o.sym and o.name.startswith('@'):
                return s.a[1] >> 32
        return None

    def lut_load(self, s, i):
        k = self.lut_base(s)
        T.LUT[k] = self.objs[k].data
        return T.mk('lut', 64, T.add(s, i, 64))

    def _byte(self, o, off):
        s = o.sym
        for k in range(off, off - 16, -1):
            c = s.get(k)
            if c is not None:
                if k + c[0] > off:
                    return T.byte(c[1], off - k)
                break
        return o.data[off]

    def _clear(self, o, off, n):
        s = o.sym
        lo = off - 15
        if n > 4 * len(s) + 64:
            ks = [k for k in s if lo <= k < off + n]
        else:
            ks = [k for k in range(lo, off + n) if k in s]
        for k in ks:
            sz, t = s[k]
            if k + sz <= off:
                continue
            del s[k]
            if k >= off and k + sz <= off + n:
                continue
            for i in range(sz):
                p = k + i
                if p < off or p >= off + n:
                    b = T.byte(t, i)
                    if type(b) is int:
                        o.data[p] = b
                    else:
                        s[p] = (1, b)

    def store(self, addr, n, v):
        if n == 0:
            return
        if type(addr) is not int:
            addr = self.concretize(addr)
        o = self.objs.get(addr >> 32)
        if o is None:
            raise Unsupported('store to address %#x (no object)' % addr)
        off = addr & OFF
        if off + n > o.size:
            raise Unsupported('out of bounds store %s+%d size %d (object size %d)' % (o.name, off, n, o.size))
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[0] == n:
                if type(v) is not int:
                    o.sym[off] = (n, v)
                    return
                del o.sym[off]
            else:
                self._clear(o, off, n)
        if type(v) is int:
            o.data[off:off + n] = v.to_bytes(n, 'little')
        elif v is None:
            pass
        else:
            o.sym[off] = (n, v)

    def memcpy(self, d, s, n):
        if n == 0 or d == s:
            return
        if type(d) is not int:
            d = self.concretize(d)
        if type(n) is not int:
            n = self.concretize(n)
            if n == 0:
                return
        if type(s) is not int:
            if n % 8 == 0 and self.lut_base(s) is not None:
                for i in range(0, n, 8):
                    self.store(d + i, 8, self.lut_load(s, i))
                return
            s = self.concretize(s)
        so, soff = self.obj(s, n)
        do, doff = self.obj(d, n)
        cells = None
        ss = so.sym
        if ss:
            cells = []
            if n > 4 * len(ss) + 64:
                ks = [k for k in ss if soff - 16 < k < soff + n]
            else:
                ks = [k for k in range(soff - 15, soff + n) if k in ss]
            for k in ks:
                sz, t = ss[k]
                if k + sz <= soff:
                    continue
                if k >= soff and k + sz <= soff + n:
                    cells.append((k - soff, sz, t))
                else:
                    for i in range(sz):
                        if soff <= k + i < soff + n:
                            cells.append((k + i - soff, 1, T.byte(t, i)))
        data = bytes(so.data[soff:soff + n])
        if do.sym:
            self._clear(do, doff, n)
        do.data[doff:doff + n] = data
        if cells:
            for (k, sz, t) in cells:
                if type(t) is int:
                    do.data[doff + k:doff + k + sz] = t.to_bytes(sz, 'little')
                else:
                    do.sym[doff + k] = (sz, t)

    def memset(self, d, v, n):
        if n == 0:
            return
        o, off = self.obj(d, n)
        if o.sym:
            self._clear(o, off, n)
        if type(v) is int:
            o.data[off:off + n] = bytes([v]) * n
        else:
            for i in range(n):
                o.sym[off + i] = (1, v)

    def read_bytes(self, addr, n):
        return [self.load(addr + i, 1) for i in range(n)]

    # ---------------- typed load/store of first-class values
    def loadt(self, t, addr):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            v = self.load(addr, n)
            if t[1] & 7:
                v = v & T.M(t[1]) if type(v) is int else T.trunc(v, 8 * n, t[1])
            return v
        if k == 'p':
            return self.load(addr, 8)
        if k == 'f':
            import struct
            return struct.unpack('<d' if t[1] == 64 else '<f', self.load(addr, t[1] // 8).to_bytes(t[1] // 8, 'little'))[0]
        if k == 'arr' or k == 'vec':
            s = self.m.size(t[2])
            return tuple(self.loadt(t[2], addr + i * s) for i in range(t[1]))
        if k == 'st':
            offs, _ = self.m.layout(t)
            return tuple(self.loadt(x, addr + o) for x, o in zip(t[1], offs))
        raise Unsupported('load type %r' % (t,))

    def storet(self, t, addr, v):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if type(v) is Term and t[1] & 7:
                v = T.zext(v, t[1], 8 * n)
            self.store(addr, n, v)
        elif k == 'p':
            self.store(addr, 8, v)
        elif k == 'f':
            import struct
            self.store(addr, t[1] // 8, int.from_bytes(struct.pack('<d' if t[1] == 64 else '<f', v), 'little'))
        elif k == 'arr' or k == 'vec':
            if v is None:
                return
            s = self.m.size(t[2])
            for i in range(t[1]):
                self.storet(t[2], addr + i * s, v[i])
        elif k == 'st':
            if v is None:
                return
            offs, _ = self.m.layout(t)
            for x, o, e in zip(t[1], offs, v):
                self.storet(x, addr + o, e)
        else:
            raise Unsupported('store type %r' % (t,))

    # ---------------- globals / functions addresses
    def func_addr(self, name):
        a = self.fsym.get(name)
        if a is None:
            a = self.new(16, 'fn ' + name)
            self.fsym[name] = a
            self.faddr[a] = name
        return a

    def global_addr(self, fi, name):
        if name in self.m.files[fi]['globs']:
            key = (fi, name)
            txt = self.m.files[fi]['globs'][name]
            if ' external ' in ' ' + txt[:60] and name in self.m.globs:
                fi, txt = self.m.globs[name]
                key = (fi, name)
            elif 'external ' in txt[:40]:
                a = self.gaddr.get(('ext', name))
                if a is None:
                    a = self.gaddr[('ext', name)] = self.new(64, '@' + name)
                return a
        elif name in self.m.defs or name in self.m.files[fi]['defs']:
            return self.func_addr(name)
        else:
            return self.func_addr(name)
        a = self.gaddr.get(key)
        if a is None:
            m = re.match(r'(?:[a-z_()]+ )*?(?:constant|global) (.*)$', txt)
            if not m:
                raise IRError('global %s: %s' % (name, txt[:80]))
            if 'thread_local' in txt[:80]:
                pass
            toks = tokenize(m.group(1))
            p = FParser(self.m, fi)
            t, pos = p.ty(toks, 0)
            op, pos = p.value(toks, pos, t)
            a = self.new(self.m.size(t), '@' + name)
            self.gaddr[key] = a
            self._initg(fi, t, op, a)
        return a

    def _initg(self, fi, t, op, a):
        if op.k == 'z' or op.k == 'u':
            return
        if op.k == 'bytes':
            o, off = self.obj(a, len(op.v))
            o.data[off:off + len(op.v)] = op.v
            return
        if op.k == 'agg':
            if t[0] == 'arr':
                s = self.m.size(t[2])
                for i, e in enumerate(op.v):
                    self._initg(fi, t[2], e, a + i * s)
            else:
                offs, _ = self.m.layout(t)
                for o, x, e in zip(offs, t[1], op.v):
                    self._initg(fi, x, e, a + o)
            return
        self.storet(t, a, self.constval(fi, op))

    def zero(self, t):
        if t[0] in ('i', 'p'):
            return 0
        if t[0] == 'f':
            return 0.0
        if t[0] == 'arr' or t[0] == 'vec':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        return tuple(self.zero(x) for x in t[1])

    def undef(self, t):
        if t[0] in ('i', 'p', 'f'):
            return None
        if t[0] == 'arr' or t[0] == 'vec':
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        return tuple(self.undef(x) for x in t[1])

    def constval(self, fi, op):
        k = op.k
        if k == 'c':
            return op.v
        if k == 'g':
            return self.global_addr(fi, op.v)
        if k == 'z':
            return self.zero(op.t)
        if k == 'u':
            return self.undef(op.t)
        if k == 'agg':
            return tuple(self.constval(fi, e) for e in op.v)
        if k == 'bytes':
            return tuple(op.v)
        if k == 'x':
            v = op.v
            if v[0] == 'gep':
                base = self.constval(fi, v[2][0])
                t = v[1]
                idx = [self.constval(fi, o) for o in v[2][1:]]
                base += T.sgn(idx[0], v[2][1].t[1]) * self.m.size(t)
                for i, o in zip(idx[1:], v[2][2:]):
                    if t[0] == 'arr':
                        t = t[2]
                        base += T.sgn(i, o.t[1]) * self.m.size(t)
                    else:
                        base += self.m.layout(t)[0][i]
                        t = t[1][i]
                return base
            x = self.constval(fi, v[1])
            if v[0] == 'trunc':
                return x & T.M(v[2][1])
            return x
        raise IRError('const %r' % op)

    # ---------------- decisions
    def decide(self, c):
        """truth value of a 1-bit term on the current path"""
        if type(c) is int:
            return bool(c & 1)
        neg = False
        if c.op == 'not':
            c = c.a[0]
            neg = True
        r = self.facts.get(c)
        if r is None:
            if self.oracle is not None:
                r = self.oracle(self, c)
            if r is None:
                if self.dpos < len(self.decisions):
                    r = self.decisions[self.dpos]
                else:
                    r = True
                    self.decisions.append(True)
                    if len(self.decisions) > 4000:
                        raise Budget('too many symbolic branches on one path')
                self.dpos += 1
                self.pc.append((c, r))
                self.learn(c, r)
            else:
                self.facts[c] = r
        return r != neg

    def learn(self, c, r):
        self.facts[c] = r
        if c.op == 'and' and r:
            for x in c.a:
                if type(x) is Term:
                    if x.op == 'not':
                        self.learn(x.a[0], False)
                    else:
                        self.learn(x, True)

    def concretize(self, t):
        raise Unsupported('symbolic pointer/size %s in %s' % (t, [self.m.demangle(x)[:80] for x in self.callstack[-4:]]))

    # ---------------- calls
    def lookup_hook(self, name):
        h = self.hookcache.get(name, 0)
        if h == 0:
            h = None
            d = self.m.demangle(name) if name.startswith('_R') or name.startswith('_ZN') else name
            for (rx, fn) in self.hooks:
                if rx.search(d):
                    h = fn
                    break
            self.hookcache[name] = h
        return h

    def add_hook(self, rx, fn):
        self.hooks.insert(0, (re.compile(rx), fn))
        self.hookcache.clear()

    def call(self, name, args, fi=None):
        h = self.hookcache.get(name, 0)
        if h == 0:
            h = self.lookup_hook(name)
        if h is not None:
            r = h(self, name, args)
            if r is not NotImplemented:
                return r
        f = self.fcache.get((fi, name))
        if f is None:
            rec = None
            if fi is not None:
                rec = self.m.files[fi]['defs'].get(name)
            if rec is None:
                rec = self.m.defs.get(name)
            if rec is None:
                return self.external(name, args)
            key = (rec[0], name)
            f = self.fcache.get(key)
            if f is None:
                f = self.fcache[key] = Compiler(self, rec).compile(name)
            self.fcache[(fi, name)] = f
        return self.run(f, args)

    def run(self, f, args):
        fr = [None] * f.nslots
        fr[:len(args)] = args
        seen = self.funcs_seen
        seen[f.name] = seen.get(f.name, 0) + 1
        base = None
        if f.fsize:
            base = self.new(f.fsize, f.name)
            fr[f.nslots - 1] = base
        self.callstack.append(f.name)
        blocks = f.blocks
        b = 0
        prev = -1
        n = 0
        while True:
            ins, term, phis = blocks[b]
            if phis is not None:
                vals = [(d, (fr[v] if isr else v)) for d, isr, v in phis[prev]]
                for d, v in vals:
                    fr[d] = v
            for i in ins:
                i(fr)
            n += len(ins)
            nb = term(fr)
            if nb < 0:
                break
            prev = b
            b = nb
            self.steps += n
            if self.steps > self.maxsteps:
                raise Budget('step budget exhausted')
            n = 0
        self.steps += n
        self.callstack.pop()
        if base is not None:
            del self.objs[base >> 32]
        return self._ret

    def external(self, name, args):
        h = self.ext.get(name)
        if h is None:
            d = self.m.demangle(name)
            if PANIC_RE.search(d):
                raise Panic(d)
            for rx, fn in self.ext_rx:
                if rx.search(d):
                    h = fn
                    break
            if h is None:
                raise Unsupported('external function %s' % d)
            self.ext[name] = h
        return h(self, name, args)

    def _install_default_ext(self):
        def alloc(ex, n, a):
            return ex.new(a[0] if type(a[0]) is int else ex.concretize(a[0]), 'heap')

        def dealloc(ex, n, a):
            ex.free(a[0])

        def realloc(ex, n, a):
            p = ex.new(a[3], 'heap')
            ex.memcpy(p, a[0], min(a[1], a[3]))
            ex.free(a[0])
            return p

        def memcmp(ex, n, a):
            ln = a[2] if type(a[2]) is int else ex.concretize(a[2])
            x = ex.read_bytes(a[0], ln)
            y = ex.read_bytes(a[1], ln)
            if all(type(v) is int for v in x + y):
                bx, by = bytes(x), bytes(y)
                return 0 if bx == by else (1 if bx > by else T.M(32))
            # result: first difference decides
            r = 0
            for u, v in list(zip(x, y))[::-1]:
                d = T.sub(T.zext(u, 8, 32), T.zext(v, 8, 32), 32)
                e = T.eq(u, v, 8)
                r = T.ite(e, r, d, 32)
            return r
        self.ext = {'__rust_alloc': alloc, '__rust_alloc_zeroed': alloc, '__rust_dealloc': dealloc,
                    '__rust_realloc': realloc, 'memcmp': memcmp, 'bcmp': memcmp}
        self.ext_rx = []
        # std::io::Error built by library code that has no IR: an opaque 'simple' error value
        self.add_ext(r'std::io::error::Error::_?new', lambda ex, n, a: (40 << 32) | 3)
        self.add_ext(r'drop_in_place<std::io::error::Error>', lambda ex, n, a: None)
        self.ext['log'] = lambda ex, n, a: math.log(a[0])

    def add_ext(self, rx, fn):
        self.ext_rx.append((re.compile(rx), fn))


def explore(mk_exec_run, ex, limit=4096):
    """run `mk_exec_run()` for every decision path; yields (path condition, result)"""
    work = [[]]
    n = 0
    while work:
        pre = work.pop()
        ex.decisions = list(pre)
        ex.dpos = 0
        ex.pc = []
        ex.facts = {}
        ex.callstack = []
        n += 1
        if n > limit:
            raise Budget('more than %d paths' % limit)
        try:
            out = ('ok', mk_exec_run())
        except Panic as e:
            out = ('panic', str(e))
        except Infeasible as e:
            out = None
        for i in range(len(pre), len(ex.decisions)):
            work.append(ex.decisions[:i] + [False])
        if out is not None:
            yield list(ex.pc), out


BIN = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'and': T.and_, 'or': T.or_, 'xor': T.xor, 'shl': T.shl,
       'lshr': T.lshr, 'ashr': T.ashr, 'udiv': T.udiv, 'urem': T.urem, 'sdiv': T.sdiv, 'srem': T.srem}


class Compiler:
    def __init__(self, ex, rec):
        self.ex = ex
        self.fi, self.header, self.lines, self.i0, self.i1 = rec
        self.p = FParser(ex.m, self.fi)
        self.slots = {}
        self.n = 0

    def slot(self, name):
        s = self.slots.get(name)
        if s is None:
            s = self.slots[name] = self.n
            self.n += 1
        return s

    def compile(self, name):
        ex = self.ex
        f = Func()
        f.name = name
        toks = tokenize(self.header)
        # find parameter list: after @name token
        pos = 0
        while not (toks[pos][0] == 'name' and toks[pos][1][0] == '@'):
            pos += 1
        pos += 1
        assert toks[pos][1] == '('
        pos += 1
        params = []
        while toks[pos][1] != ')':
            if toks[pos][0] == 'dots':
                pos += 1
                continue
            t, pos = self.p.ty(toks, pos)
            pos = self.p.skip_attrs(toks, pos)
            if toks[pos][0] == 'name':
                params.append((toks[pos][1], t))
                pos += 1
            else:
                params.append(('%%%d' % len(params), t))
            if toks[pos][1] == ',':
                pos += 1
        for pn, t in params:
            self.slot(pn)
        f.params = params
        # logical instructions: join continuation lines (switch, invoke)
        raw = self.lines[self.i0:self.i1]
        blocks = []
        cur = None
        j = 0
        first = True
        while j < len(raw):
            l = raw[j]
            j += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if not l.startswith(' '):
                lab = l.split(':')[0]
                cur = ('%' + lab, [])
                blocks.append(cur)
                first = False
                continue
            if first:
                cur = ('%start', [])
                blocks.append(cur)
                first = False
            s = l.strip()
            if s.startswith('switch') and s.endswith('['):
                while not raw[j].strip().startswith(']'):
                    s += ' ' + raw[j].strip()
                    j += 1
                s += ' ]'
                j += 1
            elif ('invoke ' in s) and ' unwind ' not in s:
                s += ' ' + raw[j].strip()
                j += 1
            elif 'landingpad' in s:
                while j < len(raw) and re.match(r'\s+(cleanup|catch|filter)', raw[j]):
                    j += 1
            cur[1].append(s)
        self.bidx = {lab: k for k, (lab, _) in enumerate(blocks)}
        self.frame = 0
        self.fslot_fix = []
        comp = []
        self.base_slot = None
        # reserve: base slot is last; compile with placeholder cell
        self.basecell = [None]
        for lab, ins in blocks:
            phis = None
            out = []
            term = None
            for s in ins:
                r = self.ins(s)
                if r is None:
                    continue
                if r[0] == 'phi':
                    if phis is None:
                        phis = {}
                    for (src, isr, v) in r[2]:
                        phis.setdefault(src, []).append((r[1], isr, v))
                elif r[0] == 'i':
                    out.append(r[1])
                else:
                    term = r[1]
            comp.append((tuple(out), term, phis))
        f.blocks = comp
        f.fsize = self.frame
        if self.frame:
            self.basecell[0] = self.n
            self.n += 1
        f.nslots = self.n
        f.disp = None
        return f

    def opnd(self, op):
        """-> (is_register, slot or constant)"""
        if op.k == 'r':
            return True, self.slot(op.v)
        return False, self.ex.constval(self.fi, op)

    def ins(self, s):
        ex = self.ex
        toks = tokenize(s)
        pos = 0
        dst = None
        if toks[0][0] == 'name' and toks[1][1] == '=':
            dst = self.slot(toks[0][1])
            pos = 2
        opc = toks[pos][1]
        p = self.p
        if opc in ('tail', 'musttail', 'notail'):
            pos += 1
            opc = toks[pos][1]
        if opc == 'alloca':
            t, pos = p.ty(toks, pos + 1)
            cnt = 1
            al = ex.m.align(t)
            while pos < len(toks):
                if toks[pos][1] == 'align':
                    al = max(al, int(toks[pos + 1][1]))
                    pos += 2
                elif toks[pos][1] == ',':
                    pos += 1
                else:
                    o, pos = p.typed(toks, pos)
                    cnt = o.v
            off = (self.frame + al - 1) // al * al
            self.frame = off + max(1, ex.m.size(t)) * cnt
            bc = self.basecell

            def f(fr):
                fr[dst] = fr[bc[0]] + off
            return ('i', f)
        if opc in BIN:
            fn = BIN[opc]
            pos = p.skip_attrs(toks, pos + 1)
            t, pos = p.ty(toks, pos)
            if t[0] != 'i':
                raise Unsupported('binop on %r' % (t,))
            a, pos = p.value(toks, pos, t)
            b, pos = p.value(toks, pos + 1, t)
            w = t[1]
            ar, av = self.opnd(a)
            br, bv = self.opnd(b)
            m = T.M(w)
            if opc in ('add', 'sub', 'and') and ar:
                if opc == 'add':
                    if br:
                        def f(fr):
                            x = fr[av]
                            y = fr[bv]
                            fr[dst] = (x + y) & m if type(x) is int and type(y) is int else fn(x, y, w)
                    else:
                        def f(fr):
                            x = fr[av]
                            fr[dst] = (x + bv) & m if type(x) is int else fn(x, bv, w)
                    return ('i', f)

            def f(fr):
                fr[dst] = fn(fr[av] if ar else av, fr[bv] if br else bv, w)
            return ('i', f)
        if opc == 'icmp':
            pred = toks[pos + 1][1]
            t, pos = p.ty(toks, pos + 2)
            a, pos = p.value(toks, pos, t)
            b, pos = p.value(toks, pos + 1, t)
            w = 64 if t[0] == 'p' else t[1]
            ar, av = self.opnd(a)
            br, bv = self.opnd(b)
            ic = T.icmp

            def f(fr):
                fr[dst] = ic(pred, fr[av] if ar else av, fr[bv] if br else bv, w)
            return ('i', f)
        if opc == 'load':
            atomic = False
            pos += 1
            while toks[pos][1] in ('atomic', 'volatile'):
                pos += 1
            t, pos = p.ty(toks, pos)
            a, pos = p.typed(toks, pos + 1)
            ar, av = self.opnd(a)
            if t[0] in ('i', 'p') and (t[0] == 'p' or t[1] % 8 == 0):
                n = 8 if t[0] == 'p' else t[1] // 8
                ld = ex.load

                def f(fr):
                    fr[dst] = ld(fr[av] if ar else av, n)
            else:
                def f(fr):
                    fr[dst] = ex.loadt(t, fr[av] if ar else av)
            return ('i', f)
        if opc == 'store':
            pos += 1
            while toks[pos][1] in ('atomic', 'volatile'):
                pos += 1
            v, pos = p.typed(toks, pos)
            a, pos = p.typed(toks, pos + 1)
            ar, av = self.opnd(a)
            vr, vv = self.opnd(v)
            t = v.t
            if t[0] in ('i', 'p') and (t[0] == 'p' or t[1] % 8 == 0):
                n = 8 if t[0] == 'p' else t[1] // 8
                st = ex.store

                def f(fr):
                    st(fr[av] if ar else av, n, fr[vv] if vr else vv)
            else:
                def f(fr):
                    ex.storet(t, fr[av] if ar else av, fr[vv] if vr else vv)
            return ('i', f)
        if opc == 'getelementptr':
            pos = p.skip_attrs(toks, pos + 1)
            t, pos = p.ty(toks, pos)
            ops = []
            while pos < len(toks) and toks[pos][1] == ',':
                o, pos = p.typed(toks, pos + 1)
                ops.append(o)
            br, bv = self.opnd(ops[0])
            const = 0
            dyn = []
            first = True
            for o in ops[1:]:
                if first:
                    sz = ex.m.size(t)
                    first = False
                elif t[0] == 'arr':
                    t = t[2]
                    sz = ex.m.size(t)
                else:
                    const += ex.m.layout(t)[0][o.v]
                    t = t[1][o.v]
                    continue
                if o.k == 'r':
                    dyn.append((self.slot(o.v), sz, o.t[1]))
                else:
                    const += T.sgn(ex.constval(self.fi, o), o.t[1]) * sz
            if not dyn:
                def f(fr):
                    b = fr[bv] if br else bv
                    fr[dst] = b + const if type(b) is int else T.add(b, const & T.M(64), 64)
            else:
                def f(fr):
                    b = fr[bv] if br else bv
                    b = b + const if type(b) is int else T.add(b, const & T.M(64), 64)
                    for s_, sz, w in dyn:
                        v = fr[s_]
                        if type(v) is not int:
                            if type(b) is int and b >> 32 in ex.objs and ex.objs[b >> 32].name.startswith('@') and not ex.objs[b >> 32].sym:
                                b = T.add(T.mul(T.sext(v, w, 64) if w < 64 else v, sz, 64), b, 64)
                                continue
                            v = ex.concretize(v)
                        if type(b) is not int:
                            raise Unsupported('address arithmetic on a symbolic table index')
                        if v >> (w - 1):
                            v -= 1 << w
                        b += v * sz
                    fr[dst] = b
            return ('i', f)
        if opc in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            pos = p.skip_attrs(toks, pos + 1)
            o, pos = p.typed(toks, pos)
            t2, pos = p.ty(toks, pos + 1)
            r, v = self.opnd(o)
            if opc in ('zext', 'sext', 'trunc'):
                fn = {'zext': T.zext, 'sext': T.sext, 'trunc': T.trunc}[opc]
                w0, w1 = o.t[1], t2[1]

                def f(fr):
                    fr[dst] = fn(fr[v] if r else v, w0, w1)
            elif opc in ('uitofp', 'sitofp'):
                w0 = o.t[1]

                def f(fr):
                    x = fr[v] if r else v
                    fr[dst] = float(x if opc == 'uitofp' else T.sgn(x, w0))
            elif opc in ('fptoui', 'fptosi'):
                def f(fr):
                    fr[dst] = int(fr[v] if r else v) & T.M(t2[1])
            else:
                def f(fr):
                    fr[dst] = fr[v] if r else v
            return ('i', f)
        if opc in ('fadd', 'fsub', 'fmul', 'fdiv'):
            pos = p.skip_attrs(toks, pos + 1)
            t, pos = p.ty(toks, pos)
            a, pos = p.value(toks, pos, t)
            b, pos = p.value(toks, pos + 1, t)
            ar, av = self.opnd(a)
            br, bv = self.opnd(b)
            fn = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': lambda x, y: x / y}[opc]

            def f(fr):
                fr[dst] = fn(fr[av] if ar else av, fr[bv] if br else bv)
            return ('i', f)
        if opc == 'fcmp':
            pos += 1
            pred = toks[pos][1]
            t, pos = p.ty(toks, pos + 1)
            a, pos = p.value(toks, pos, t)
            b, pos = p.value(toks, pos + 1, t)
            ar, av = self.opnd(a)
            br, bv = self.opnd(b)

            def f(fr):
                x = fr[av] if ar else av
                y = fr[bv] if br else bv
                nan = x != x or y != y
                if pred == 'uno':
                    r = nan
                elif pred == 'ord':
                    r = not nan
                else:
                    c = pred[1:]
                    r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[c]
                    if nan:
                        r = pred[0] == 'u'
                fr[dst] = int(r)
            return ('i', f)
        if opc == 'freeze':
            o, pos = p.typed(toks, pos + 1)
            r, v = self.opnd(o)

            def f(fr):
                fr[dst] = fr[v] if r else v
            return ('i', f)
        if opc == 'select':
            c, pos = p.typed(toks, pos + 1)
            a, pos = p.typed(toks, pos + 1)
            b, pos = p.typed(toks, pos + 1)
            cr, cv = self.opnd(c)
            ar, av = self.opnd(a)
            br, bv = self.opnd(b)
            t = a.t

            def f(fr):
                cc = fr[cv] if cr else cv
                x = fr[av] if ar else av
                y = fr[bv] if br else bv
                if type(cc) is int:
                    fr[dst] = x if cc else y
                elif t[0] == 'i':
                    fr[dst] = T.ite(cc, x, y, t[1])
                else:
                    fr[dst] = x if ex.decide(cc) else y
            return ('i', f)
        if opc == 'extractvalue':
            o, pos = p.typed(toks, pos + 1)
            r, v = self.opnd(o)
            idx = []
            while pos < len(toks) and toks[pos][1] == ',':
                if toks[pos + 1][0] != 'num':
                    break
                idx.append(int(toks[pos + 1][1]))
                pos += 2

            def f(fr):
                x = fr[v] if r else v
                for i in idx:
                    x = x[i]
                fr[dst] = x
            return ('i', f)
        if opc == 'insertvalue':
            o, pos = p.typed(toks, pos + 1)
            e, pos = p.typed(toks, pos + 1)
            r, v = self.opnd(o)
            er, ev = self.opnd(e)
            idx = []
            while pos < len(toks) and toks[pos][1] == ',':
                idx.append(int(toks[pos + 1][1]))
                pos += 2

            def upd(x, idx, val):
                if not idx:
                    return val
                x = list(x)
                x[idx[0]] = upd(x[idx[0]], idx[1:], val)
                return tuple(x)

            def f(fr):
                fr[dst] = upd(fr[v] if r else v, idx, fr[ev] if er else ev)
            return ('i', f)
        if opc == 'phi':
            t, pos = p.ty(toks, pos + 1)
            res = []
            while pos < len(toks):
                assert toks[pos][1] == '['
                o, pos = p.value(toks, pos + 1, t)
                assert toks[pos][1] == ','
                lab = toks[pos + 1][1]
                assert toks[pos + 2][1] == ']'
                pos += 3
                r, v = self.opnd(o)
                res.append((self.bidx[self.lab(lab)], r, v))
                if pos < len(toks) and toks[pos][1] == ',':
                    pos += 1
            return ('phi', dst, res)
        if opc == 'br':
            if toks[pos + 1][1] == 'label':
                b = self.bidx[self.lab(toks[pos + 2][1])]
                return ('t', lambda fr: b)
            c, pos = p.typed(toks, pos + 1)
            cr, cv = self.opnd(c)
            b1 = self.bidx[self.lab(toks[pos + 2][1])]
            b2 = self.bidx[self.lab(toks[pos + 5][1])]

            def f(fr):
                x = fr[cv] if cr else cv
                if type(x) is not int:
                    x = ex.decide(x)
                return b1 if x else b2
            return ('t', f)
        if opc == 'switch':
            c, pos = p.typed(toks, pos + 1)
            assert toks[pos][1] == ','
            d = self.bidx[self.lab(toks[pos + 2][1])]
            pos += 3
            assert toks[pos][1] == '['
            pos += 1
            cases = {}
            while toks[pos][1] != ']':
                t, pos = p.ty(toks, pos)
                k = int(toks[pos][1]) & T.M(t[1]) if toks[pos][0] == 'num' else (1 if toks[pos][1] == 'true' else 0)
                cases[k] = self.bidx[self.lab(toks[pos + 3][1])]
                pos += 4
            cr, cv = self.opnd(c)
            w = c.t[1]

            def f(fr):
                x = fr[cv] if cr else cv
                if type(x) is int:
                    return cases.get(x, d)
                for k, b in cases.items():
                    if ex.decide(T.eq(x, k, w)):
                        return b
                return d
            return ('t', f)
        if opc == 'ret':
            if toks[pos + 1][1] == 'void':
                def f(fr):
                    ex._ret = None
                    return -1
                return ('t', f)
            o, pos = p.typed(toks, pos + 1)
            r, v = self.opnd(o)

            def f(fr):
                ex._ret = fr[v] if r else v
                return -1
            return ('t', f)
        if opc == 'unreachable':
            def f(fr):
                raise Unsupported('reached unreachable in ' + str(ex.callstack[-1]))
            return ('t', f)
        if opc == 'resume':
            def f(fr):
                raise Unsupported('resume')
            return ('t', f)
        if opc == 'landingpad':
            return None
        if opc == 'fence':
            return None
        if opc == 'cmpxchg':
            pos += 1
            while toks[pos][1] in ('weak', 'volatile'):
                pos += 1
            a, pos = p.typed(toks, pos)
            e, pos = p.typed(toks, pos + 1)
            n_, pos = p.typed(toks, pos + 1)
            ar, av = self.opnd(a)
            er, ev = self.opnd(e)
            nr, nv = self.opnd(n_)
            sz = ex.m.size(e.t)

            def f(fr):
                ad = fr[av] if ar else av
                old = ex.load(ad, sz)
                exp = fr[ev] if er else ev
                ok = ex.decide(T.eq(old, exp, 8 * sz))
                if ok:
                    ex.store(ad, sz, fr[nv] if nr else nv)
                fr[dst] = (old, 1 if ok else 0)
            return ('i', f)
        if opc == 'atomicrmw':
            pos += 1
            if toks[pos][1] == 'volatile':
                pos += 1
            k = toks[pos][1]
            a, pos = p.typed(toks, pos + 1)
            v, pos = p.typed(toks, pos + 1)
            ar, av = self.opnd(a)
            vr, vv = self.opnd(v)
            sz = ex.m.size(v.t)

            def f(fr):
                ad = fr[av] if ar else av
                old = ex.load(ad, sz)
                x = fr[vv] if vr else vv
                if k == 'xchg':
                    nw = x
                elif k in ('add', 'sub', 'and', 'or', 'xor'):
                    nw = BIN[k if k not in ('and', 'or') else k](old, x, 8 * sz)
                else:
                    raise Unsupported('atomicrmw ' + k)
                ex.store(ad, sz, nw)
                if dst is not None:
                    fr[dst] = old
            return ('i', f)
        if opc in ('call', 'invoke'):
            return self.callins(s, toks, pos, dst, opc)
        raise Unsupported('instruction: ' + s[:100])

    def lab(self, v):
        return v if v in self.bidx else '%' + v[1:].strip('"')

    def callins(self, s, toks, pos, dst, opc):
        ex = self.ex
        p = self.p
        pos = p.skip_attrs(toks, pos + 1)
        t, pos = p.ty(toks, pos)
        if toks[pos][1] == '(':   # function type
            d = 0
            while True:
                if toks[pos][1] == '(':
                    d += 1
                elif toks[pos][1] == ')':
                    d -= 1
                pos += 1
                if d == 0:
                    break
        if toks[pos][1] == 'asm':
            return self.asmcall(s, toks, pos, dst, t)
        g, callee = toks[pos]
        pos += 1
        assert toks[pos][1] == '(', s
        pos += 1
        args = []
        while toks[pos][1] != ')':
            at, pos = p.ty(toks, pos)
            if at == ('md',):
                # metadata argument
                d = 0
                while not (d == 0 and toks[pos][1] in (',', ')')):
                    if toks[pos][1] == '(':
                        d += 1
                    if toks[pos][1] == ')':
                        d -= 1
                    pos += 1
                if toks[pos][1] == ',':
                    pos += 1
                continue
            pos = p.skip_attrs(toks, pos)
            o, pos = p.value(toks, pos, at)
            args.append(o)
            if toks[pos][1] == ',':
                pos += 1
        pos += 1
        normal = None
        if opc == 'invoke':
            while toks[pos][1] != 'to':
                pos += 1
            normal = self.bidx[self.lab(toks[pos + 2][1])]
        ops = [self.opnd(o) for o in args]
        fi = self.fi
        if callee[0] == '@':
            name = callee[1:].strip('"')
            if name.startswith('llvm.'):
                f = self.intrinsic(name, ops, args, dst, t)
                if f is None:
                    if normal is not None:
                        return ('t', lambda fr: normal)
                    return None
            else:
                def f(fr):
                    r = ex.call(name, [fr[v] if isr else v for isr, v in ops], fi)
                    if dst is not None:
                        fr[dst] = r
        else:
            cs = self.slot(callee)

            def f(fr):
                a = fr[cs]
                nm = ex.faddr.get(a)
                if nm is None:
                    raise Unsupported('indirect call to %r' % (a,))
                r = ex.call(nm, [fr[v] if isr else v for isr, v in ops], fi)
                if dst is not None:
                    fr[dst] = r
        if normal is not None:
            def g_(fr):
                f(fr)
                return normal
            return ('t', g_)
        return ('i', f)

    def intrinsic(self, name, ops, args, dst, t):
        ex = self.ex
        b = name.split('.')[1]

        def get(fr, i):
            isr, v = ops[i]
            return fr[v] if isr else v
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'prefetch', 'invariant', 'x86', 'donothing'):
            return None
        if b in ('memcpy', 'memmove'):
            return lambda fr: ex.memcpy(get(fr, 0), get(fr, 1), get(fr, 2))
        if b == 'memset':
            return lambda fr: ex.memset(get(fr, 0), get(fr, 1), get(fr, 2))
        if b == 'expect':
            def f(fr):
                fr[dst] = get(fr, 0)
            return f
        if b == 'trap':
            def f(fr):
                raise Panic('trap')
            return f
        w = args[0].t[1] if args and args[0].t[0] == 'i' else None
        if name.startswith(('llvm.uadd.with', 'llvm.usub.with', 'llvm.umul.with', 'llvm.sadd.with', 'llvm.ssub.with', 'llvm.smul.with')):
            signed = name[5] == 's'
            op = name[6:9]

            def f(fr):
                x = get(fr, 0)
                y = get(fr, 1)
                fn = BIN[op]
                r = fn(x, y, w)
                if type(x) is int and type(y) is int:
                    if signed:
                        x, y = T.sgn(x, w), T.sgn(y, w)
                    ex_ = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                    ov = int((T.sgn(r, w) if signed else r) != ex_)
                elif not signed and op == 'add':
                    ov = T.ult(r, x, w)
                elif not signed and op == 'sub':
                    ov = T.ult(x, y, w)
                elif op == 'mul' and not signed:
                    p_ = T.mul(T.zext(x, w, 2 * w), T.zext(y, w, 2 * w), 2 * w)
                    ov = T.not_(T.eq(T.lshr(p_, w, 2 * w), 0, 2 * w))
                else:
                    w2 = 2 * w
                    p_ = fn(T.sext(x, w, w2), T.sext(y, w, w2), w2)
                    ov = T.not_(T.eq(p_, T.sext(r, w, w2), w2))
                fr[dst] = (r, ov)
            return f
        if b == 'uadd' and 'sat' in name:
            def f(fr):
                x, y = get(fr, 0), get(fr, 1)
                r = T.add(x, y, w)
                fr[dst] = T.ite(T.ult(r, x, w), T.M(w), r, w)
            return f
        if b == 'usub' and 'sat' in name:
            def f(fr):
                x, y = get(fr, 0), get(fr, 1)
                fr[dst] = T.ite(T.ult(x, y, w), 0, T.sub(x, y, w), w)
            return f
        if b == 'bswap':
            def f(fr):
                fr[dst] = T.bswap(get(fr, 0), w)
            return f
        if b == 'cttz':
            def f(fr):
                fr[dst] = T.ctz(get(fr, 0), w)
            return f
        if b == 'ctlz':
            def f(fr):
                fr[dst] = T.clz(get(fr, 0), w)
            return f
        if b == 'ctpop':
            def f(fr):
                x = get(fr, 0)
                if type(x) is not int:
                    raise Unsupported('ctpop')
                fr[dst] = bin(x).count('1')
            return f
        if b in ('umin', 'umax', 'smin', 'smax'):
            def f(fr):
                x, y = get(fr, 0), get(fr, 1)
                lt = (T.ult if b[0] == 'u' else T.slt)(x, y, w)
                fr[dst] = T.ite(lt, x, y, w) if b[1:] == 'min' else T.ite(lt, y, x, w)
            return f
        if b in ('fshl', 'fshr'):
            def f(fr):
                x, y, k = get(fr, 0), get(fr, 1), get(fr, 2)
                if type(k) is not int:
                    raise Unsupported('fshl')
                k %= w
                if b == 'fshr':
                    k = w - k
                if k == w:
                    fr[dst] = y
                elif k == 0:
                    fr[dst] = x
                else:
                    fr[dst] = T.or_(T.shl(x, k, w), T.lshr(y, w - k, w), w)
            return f
        if b in ('floor', 'ceil', 'log', 'log2', 'exp', 'sqrt'):
            fn = {'floor': math.floor, 'ceil': math.ceil, 'log': math.log, 'log2': math.log2, 'exp': math.exp, 'sqrt': math.sqrt}[b]

            def f(fr):
                fr[dst] = float(fn(get(fr, 0)))
            return f
        if b in ('fptoui', 'fptosi'):
            def f(fr):
                x = get(fr, 0)
                lo, hi = (0, T.M(t[1])) if b == 'fptoui' else (-(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1)
                fr[dst] = (0 if x != x else max(lo, min(hi, int(x)))) & T.M(t[1])
            return f
        if b == 'is':
            def f(fr):
                fr[dst] = 0
            return f
        if b == 'eh':
            def f(fr):
                fr[dst] = 1
            return f
        raise Unsupported('intrinsic ' + name)

    def asmcall(self, s, toks, pos, dst, t):
        from . import x86
        ex = self.ex
        p = self.p
        pos += 1
        while toks[pos][0] == 'word':
            pos += 1
        code = toks[pos][1]
        assert toks[pos + 1][1] == ','
        cons = toks[pos + 2][1]
        pos += 3
        assert toks[pos][1] == '('
        pos += 1
        args = []
        while toks[pos][1] != ')':
            at, pos = p.ty(toks, pos)
            pos = p.skip_attrs(toks, pos)
            o, pos = p.value(toks, pos, at)
            args.append(o)
            if toks[pos][1] == ',':
                pos += 1
        ops = [self.opnd(o) for o in args]
        from .llir import unescape
        prog = x86.compile_asm(unescape(code[1:-1]).decode(), unescape(cons[1:-1]).decode(), [o.t for o in args], t)

        def f(fr):
            r = prog(ex, [fr[v] if isr else v for isr, v in ops])
            if dst is not None:
                fr[dst] = r
        return ('i', f)
