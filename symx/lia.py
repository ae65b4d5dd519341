"""Integer-linear encoding of machine terms.

Every Term is rewritten into   const + sum coef*atom   over the integers, with an
interval; wrap-around is made explicit: (e mod 2^w) = e - 2^w*q with q a fresh
integer atom constrained by 0 <= e - 2^w*q < 2^w.  Products of two symbolic words
become uninterpreted product atoms (bounded, plus lemmas supplied by the caller),
so the encoding over-approximates: unsat is sound."""
from math import gcd
from . import terms as T
from .terms import Term, M, sgn


class NoLia(Exception):
    pass


class L:
    """linear form: c + sum v*atom ; with interval [lo,hi]"""
    __slots__ = ('c', 'm', 'lo', 'hi', '_k')

    def __init__(self, c, m, lo, hi):
        self.c = c
        self.m = m
        self.lo = lo
        self.hi = hi
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted((a.id, v) for a, v in self.m.items())))
        return self._k

    def mkey(self):
        return self.key()[1]

    def const(self):
        return not self.m


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'defn')

    def __init__(self, id, name, lo, hi, kind, defn=None):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.kind = kind
        self.defn = defn    # list of smt constraint builders

    def __repr__(self):
        return self.name

    def isbool(self):
        return self.lo == 0 and self.hi == 1


class Ctx:
    def __init__(self):
        self.atoms = []
        self.cache = {}
        self.vars = {}
        self.qcache = {}
        self.prod = {}
        self.memo = {}
        self.keep = []
        self.varbounds = {}
        self.extra = []      # smt constraint strings always asserted
        self.bnd = {}
        self.fcache = {}

    # ---- atoms
    def atom(self, kind, lo, hi, defn=None, name=None):
        a = Atom(len(self.atoms), name or '%s%d' % (kind, len(self.atoms)), lo, hi, kind, defn)
        self.atoms.append(a)
        return a

    def var(self, name, lo, hi):
        a = self.vars.get(name)
        if a is None:
            a = self.vars[name] = self.atom('v', lo, hi, None, name='|%s|' % name)
        return a

    def lconst(self, c):
        return L(c, {}, c, c)

    def latom(self, a):
        return L(0, {a: 1}, a.lo, a.hi)

    def lin(self, c, m):
        m = {a: v for a, v in m.items() if v}
        lo = hi = c
        for a, v in m.items():
            if v > 0:
                lo += v * a.lo
                hi += v * a.hi
            else:
                lo += v * a.hi
                hi += v * a.lo
        r = L(c, m, lo, hi)
        b = self.bnd.get(r.mkey())
        if b is not None:
            if b[0] + c > lo:
                r.lo = b[0] + c
            if b[1] + c < hi:
                r.hi = b[1] + c
        return r

    def note(self, r):
        """remember the interval of this linear form (it holds in every model)"""
        if r.m:
            k = r.mkey()
            b = self.bnd.get(k)
            lo, hi = r.lo - r.c, r.hi - r.c
            if b is not None:
                lo, hi = max(lo, b[0]), min(hi, b[1])
            self.bnd[k] = (lo, hi)
        return r

    def ladd(self, x, y, k=1):
        if not y.m:
            return L(x.c + k * y.c, x.m, x.lo + k * y.c, x.hi + k * y.c)
        m = dict(x.m)
        for a, v in y.m.items():
            n = m.get(a, 0) + k * v
            if n:
                m[a] = n
            else:
                m.pop(a, None)
        c = x.c + k * y.c
        r = self.lin(c, m)
        # interval from operands may be tighter
        if k > 0:
            lo, hi = x.lo + k * y.lo, x.hi + k * y.hi
        else:
            lo, hi = x.lo + k * y.hi, x.hi + k * y.lo
        if lo > r.lo:
            r.lo = lo
        if hi < r.hi:
            r.hi = hi
        return self.note(r)

    def lscale(self, x, k):
        if k == 0:
            return self.lconst(0)
        lo, hi = (x.lo * k, x.hi * k) if k > 0 else (x.hi * k, x.lo * k)
        return L(x.c * k, {a: v * k for a, v in x.m.items()}, lo, hi)

    # ---- floor division by 2^w
    def floordiv(self, x, w):
        """L for floor(x / 2^w)"""
        return self.fdiv(x, 1 << w)

    def fdiv(self, x, D):
        if x.lo // D == x.hi // D:
            return self.lconst(x.lo // D)
        key = (x.mkey(), x.c % D, D)
        r = self.fcache.get(key)
        if r is None:
            r = self.fcache[key] = self._fdiv(L(x.c % D, x.m, x.lo - x.c + x.c % D, x.hi - x.c + x.c % D), D)
        r = self.ladd(r, self.lconst((x.c - x.c % D) // D))
        r.lo = max(r.lo, x.lo // D)
        r.hi = min(r.hi, x.hi // D)
        return self.note(r)

    def _fdiv(self, x, D):
        # x = D*q0 + B: choose the split whose floor(B/D) has the smallest range
        qm = {}
        bm = {}
        for a, v in x.m.items():
            r = v % D
            if r * 2 > D:
                r -= D
            q = (v - r) // D
            if q:
                qm[a] = q
            if r:
                bm[a] = r
        c = x.c % D
        q0 = self.lin((x.c - c) // D, qm)
        if not bm:
            return q0
        B = self.lin(c, bm)
        if not q0.m:
            # same atoms: inherit interval
            B.lo = max(B.lo, x.lo - q0.c * D)
            B.hi = min(B.hi, x.hi - q0.c * D)
            best = (B.hi // D - B.lo // D, 0, q0, B)
        else:
            best = (B.hi // D - B.lo // D, 2, q0, B)
            cand = [(x.hi // D - x.lo // D, 1, self.lconst(0), x)]
            val = {}
            for a, v in x.m.items():
                if v % D == 0:
                    val[a] = (v & -v).bit_length() - 1
            for th in sorted(set(val.values()), reverse=True):
                qm1 = {a: x.m[a] // D for a in val if val[a] >= th}
                B1 = self.lin(x.c, {a: v for a, v in x.m.items() if a not in qm1})
                cand.append((B1.hi // D - B1.lo // D, 1, self.lin(0, qm1), B1))
            for k in cand:
                if k[0] < best[0] or (k[0] == best[0] and k[0] == 1 and k[1] < best[1]):
                    best = k
        _, _, q0, B = best
        qB = self._fdivB(B, D)
        r = self.ladd(q0, qB)
        r.lo = max(r.lo, x.lo // D)
        r.hi = min(r.hi, x.hi // D)
        return self.note(r)

    def _fdivB(self, B, D):
        lo, hi = B.lo // D, B.hi // D
        if lo == hi:
            return self.lconst(lo)
        g = D
        for v in B.m.values():
            g = gcd(g, v)
        if g > 1:
            B = self.lin(B.c // g, {a: v // g for a, v in B.m.items()})
            D //= g
            B.lo = max(B.lo, lo * D)
            B.hi = min(B.hi, hi * D + D - 1)
            if D == 1:
                return self.note(B)
        if len(B.m) == 1:
            (a, v), = B.m.items()
            if a.isbool():
                f0 = B.c // D
                f1 = (B.c + v) // D
                return self.lin(f0, {a: f1 - f0})
            if v == 1 and B.c == 0 and a.kind == 'q':
                # floor(floor(x/e)/D) = floor(x/(e*D))
                return self.fdiv(a.defn[1], a.defn[2] * D)
        if lo == -1 and hi == 0:
            # sign of B: canonical over all D
            key = ('neg', B.key())
            a = self.qcache.get(key)
            if a is None:
                a = self.atom('n', 0, 1, ('neg', B))
                self.qcache[key] = a
            return self.lin(0, {a: -1})
        key = ('q', B.key(), D)
        a = self.qcache.get(key)
        if a is None:
            a = self.atom('q', lo, hi, ('q', B, D))
            self.qcache[key] = a
        return self.latom(a)

    def wrap(self, x, w):
        D = 1 << w
        if 0 <= x.lo and x.hi < D:
            return x
        k = (x.c + D // 2) // D
        if k:
            x = L(x.c - k * D, x.m, x.lo - k * D, x.hi - k * D)
            if 0 <= x.lo and x.hi < D:
                return x
        q = self.fdiv(x, D)
        r = self.ladd(x, q, -D)
        r.lo = max(0, r.lo)
        r.hi = min(D - 1, r.hi)
        return self.note(r)

    # ---- products
    def mono(self, a, b):
        if b.id < a.id:
            a, b = b, a
        k = (a.id, b.id)
        p = self.prod.get(k)
        if p is None:
            if a is b and a.isbool():
                return a
            c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            p = self.atom('m', min(c), max(c), ('mul', a, b))
            self.prod[k] = p
        return p

    def lmul(self, x, y):
        if x.const():
            return self.lscale(y, x.c)
        if y.const():
            return self.lscale(x, y.c)
        if len(x.m) * len(y.m) > 5000:
            raise NoLia('product of large linear forms')
        m = {}
        for a, v in x.m.items():
            m[a] = m.get(a, 0) + v * y.c
        for b, u in y.m.items():
            m[b] = m.get(b, 0) + u * x.c
        for a, v in x.m.items():
            for b, u in y.m.items():
                p = self.mono(a, b)
                m[p] = m.get(p, 0) + v * u
        r = self.lin(x.c * y.c, m)
        c = [p * q for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
        r.lo = max(r.lo, min(c))
        r.hi = min(r.hi, max(c))
        return r

    # ---- main translation
    def tr(self, t):
        if type(t) is int:
            return self.lconst(t)
        r = self.memo.get(t)
        if r is not None:
            return r
        # iterative post-order for deep DAGs
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            todo = [c for c in x.a if type(c) is Term and c not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[x] = self._tr(x)
            st.pop()
        return self.memo[t]

    def g(self, x):
        return self.lconst(x) if type(x) is int else self.memo[x]

    def boolatom(self, kind, *d):
        key = (kind,) + tuple(x.key() if isinstance(x, L) else x for x in d)
        a = self.qcache.get(key)
        if a is None:
            a = self.atom('b', 0, 1, (kind,) + d)
            self.qcache[key] = a
        return a

    def _tr(self, t):
        op = t.op
        w = t.w
        a = t.a
        g = self.g
        if op == 'var':
            lo, hi = self.varbounds.get(a[0], (0, M(w)))
            return self.latom(self.var(a[0], lo, hi))
        if op == 'lut':
            return self.latom(self.var('lut%d' % t.id, 0, M(64)))
        if op == 'add':
            return self.wrap(self.ladd(g(a[0]), g(a[1])), w)
        if op == 'sub':
            return self.wrap(self.ladd(g(a[0]), g(a[1]), -1), w)
        if op == 'mul':
            x, y = g(a[0]), g(a[1])
            return self.wrap(self.lmul(x, y), w)
        if op == 'zext':
            return g(a[0])
        if op == 'sext':
            x = g(a[0])
            w0 = a[0].w
            s = self.floordiv(x, w0 - 1)
            return self.ladd(x, s, (1 << w) - (1 << w0))
        if op == 'trunc':
            return self.wrap(g(a[0]), w)
        if op == 'byte':
            return self.wrap(self.floordiv(g(a[0]), 8 * a[1]), 8)
        if op == 'concat':
            r = self.lconst(0)
            for i, p in enumerate(a):
                r = self.ladd(r, self.lscale(g(p), 1 << (8 * i)))
            return r
        if op == 'shl':
            if type(a[1]) is not int:
                raise NoLia('symbolic shift')
            return self.wrap(self.lscale(g(a[0]), 1 << a[1]), w)
        if op == 'lshr':
            if type(a[1]) is not int:
                raise NoLia('symbolic shift')
            return self.floordiv(g(a[0]), a[1])
        if op == 'ashr':
            if type(a[1]) is not int:
                raise NoLia('symbolic shift')
            x = g(a[0])
            s = self.floordiv(x, w - 1)
            y = self.ladd(x, s, -(1 << w))
            return self.ladd(self.floordiv(y, a[1]), s, 1 << w)
        if op == 'and':
            return self.tand(g(a[0]), g(a[1]), w)
        if op == 'or':
            return self.tor(g(a[0]), g(a[1]), w)
        if op == 'xor':
            return self.txor(g(a[0]), g(a[1]), w)
        if op == 'not':
            return self.ladd(self.lconst(1), g(a[0]), -1)
        if op == 'ite':
            return self.tite(g(a[0]), g(a[1]), g(a[2]))
        if op == 'eq':
            return self.teq(g(a[0]), g(a[1]))
        if op == 'ult':
            # [x<y] = [x-y < 0]
            d = self.ladd(g(a[0]), g(a[1]), -1)
            return self.isneg(d)
        if op == 'slt':
            ww = T._cmpw(t)
            x, y = g(a[0]), g(a[1])
            sx = self.ladd(x, self.floordiv(x, ww - 1), -(1 << ww))
            sy = self.ladd(y, self.floordiv(y, ww - 1), -(1 << ww))
            return self.isneg(self.ladd(sx, sy, -1))
        if op == 'udiv' and type(a[1]) is int:
            return self.fdiv(g(a[0]), a[1])
        if op == 'urem' and type(a[1]) is int:
            x = g(a[0])
            q = self.fdiv(x, a[1])
            r = self.ladd(x, q, -a[1])
            r.lo = max(r.lo, 0)
            r.hi = min(r.hi, a[1] - 1)
            return r
        raise NoLia('op ' + op)

    def isneg(self, d):
        if d.hi < 0:
            return self.lconst(1)
        if d.lo >= 0:
            return self.lconst(0)
        if len(d.m) == 1:
            (a, v), = d.m.items()
            if a.isbool():
                f0 = int(d.c < 0)
                f1 = int(d.c + v < 0)
                return self.lin(f0, {a: f1 - f0})
        a = self.boolatom('neg', d)
        return self.latom(a)

    def teq(self, x, y):
        d = self.ladd(x, y, -1)
        if d.const():
            return self.lconst(int(d.c == 0))
        if d.lo > 0 or d.hi < 0:
            return self.lconst(0)
        if len(d.m) == 1:
            (a, v), = d.m.items()
            if a.isbool():
                f0, f1 = int(d.c == 0), int(d.c + v == 0)
                return self.lin(f0, {a: f1 - f0})
        return self.latom(self.boolatom('eqz', d))

    def single_bool(self, x):
        if len(x.m) == 1:
            (a, v), = x.m.items()
            if a.isbool():
                return a, x.c, x.c + v
        return None

    def pointwise(self, f, x, y):
        """x,y both depend on at most one (the same) boolean atom"""
        bx, by = self.single_bool(x), self.single_bool(y)
        if (bx or x.const()) and (by or y.const()):
            if bx and by and bx[0] is not by[0]:
                return None
            b = bx or by
            x0, x1 = (bx[1], bx[2]) if bx else (x.c, x.c)
            y0, y1 = (by[1], by[2]) if by else (y.c, y.c)
            if b is None:
                return self.lconst(f(x0, y0))
            f0, f1 = f(x0, y0), f(x1, y1)
            return self.lin(f0, {b[0]: f1 - f0})
        return None

    def tand(self, x, y, w):
        r = self.pointwise(lambda p, q: p & q, x, y)
        if r is not None:
            return r
        for (p, q) in ((x, y), (y, x)):
            b = self.single_bool(p)
            if b and ((b[1] == 0 and b[2] == M(w)) or (b[1] == M(w) and b[2] == 0)):
                return self.tite(self.latom(b[0]), q if b[2] else self.lconst(0), q if b[1] else self.lconst(0))
            if p.const():
                return self.andconst(q, p.c, w)
            if b:
                return self.tite(self.latom(b[0]), self.andconst(q, b[2], w), self.andconst(q, b[1], w))
        if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
            return self.latom(self.boolatom('and', *self.order(x, y)))
        k = self.order(x, y)
        key = ('andw', k[0].key(), k[1].key())
        a = self.qcache.get(key)
        if a is None:
            a = self.qcache[key] = self.atom('a', 0, min(x.hi, y.hi), ('andw',) + k)
        return self.latom(a)

    def order(self, x, y):
        return (x, y) if x.key() <= y.key() else (y, x)

    def andconst(self, q, c, w):
        r = self.lconst(0)
        i = 0
        while c >> i:
            if not (c >> i) & 1:
                i += 1
                continue
            j = i
            while (c >> j) & 1:
                j += 1
            seg = self.wrap(self.floordiv(q, i), j - i)
            r = self.ladd(r, self.lscale(seg, 1 << i))
            i = j
        return r

    def trailing(self, x):
        """largest k with 2^k | every coefficient"""
        g = 0
        for v in list(x.m.values()) + [x.c]:
            g |= abs(v)
        return (g & -g).bit_length() - 1 if g else 200

    def tor(self, x, y, w):
        r = self.pointwise(lambda p, q: p | q, x, y)
        if r is not None:
            return r
        if y.hi < (1 << self.trailing(x)) and y.lo >= 0:
            return self.ladd(x, y)
        if x.hi < (1 << self.trailing(y)) and x.lo >= 0:
            return self.ladd(x, y)
        for (p, q) in ((x, y), (y, x)):
            b = self.single_bool(p)
            if b and ((b[1] == 0 and b[2] == M(w)) or (b[1] == M(w) and b[2] == 0)):
                return self.tite(self.latom(b[0]), self.lconst(M(w)) if b[2] else q, self.lconst(M(w)) if b[1] else q)
            if p.const():
                # x|c = x + c - (x&c)
                return self.ladd(self.ladd(q, p), self.andconst(q, p.c, w), -1)
            if b:
                return self.tite(self.latom(b[0]), self.tor(q, self.lconst(b[2]), w), self.tor(q, self.lconst(b[1]), w))
        if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
            return self.latom(self.boolatom('or', *self.order(x, y)))
        k = self.order(x, y)
        key = ('orw', k[0].key(), k[1].key())
        a = self.qcache.get(key)
        if a is None:
            h = max(x.hi, y.hi)
            a = self.qcache[key] = self.atom('o', max(x.lo, y.lo), min(x.hi + y.hi, M(h.bit_length())), ('orw',) + k)
        return self.latom(a)

    def txor(self, x, y, w):
        r = self.pointwise(lambda p, q: p ^ q, x, y)
        if r is not None:
            return r
        for (p, q) in ((x, y), (y, x)):
            if p.const():
                if p.c == M(w):
                    return self.ladd(p, q, -1)
                # x^c = x + c - 2(x&c)
                return self.ladd(self.ladd(q, p), self.andconst(q, p.c, w), -2)
            b = self.single_bool(p)
            if b:
                return self.tite(self.latom(b[0]), self.txor(q, self.lconst(b[2]), w), self.txor(q, self.lconst(b[1]), w))
        if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
            return self.latom(self.boolatom('xor', *self.order(x, y)))
        k = self.order(x, y)
        key = ('xorw', k[0].key(), k[1].key())
        a = self.qcache.get(key)
        if a is None:
            h = max(x.hi, y.hi)
            a = self.qcache[key] = self.atom('x', 0, min(x.hi + y.hi, M(h.bit_length())), ('xorw',) + k)
        return self.latom(a)

    def tite(self, c, x, y):
        if c.const():
            return x if c.c else y
        if x.key() == y.key():
            return x
        b = self.single_bool(c)
        d = self.ladd(x, y, -1)
        if d.const():
            # y + c*d
            return self.ladd(y, c, d.c)
        if b and b[1] == 1 and b[2] == 0:
            return self.tite(self.latom(b[0]), y, x)
        if len(d.m) <= 2 and b and all(a.isbool() for a in d.m):
            # y + c*(x-y): selects whose branches differ by a constant and carry bits
            c0 = self.latom(b[0])
            r = self.ladd(y, c0, d.c)
            for a, v in d.m.items():
                r = self.ladd(r, c0 if a is b[0] else self.latom(self.boolatom('and', *self.order(c0, self.latom(a)))), v)
            r.lo, r.hi = max(r.lo, min(x.lo, y.lo)), min(r.hi, max(x.hi, y.hi))
            return self.note(r)
        key = ('ite', c.key(), x.key(), y.key())
        a = self.qcache.get(key)
        if a is None:
            a = self.qcache[key] = self.atom('s', min(x.lo, y.lo), max(x.hi, y.hi), ('ite', c, x, y))
        return self.latom(a)

    # ---- SMT output
    def smt(self, x):
        """SMT-LIB integer expression of a linear form"""
        def num(n):
            return str(n) if n >= 0 else '(- %d)' % -n
        parts = []
        for a, v in sorted(x.m.items(), key=lambda p: p[0].id):
            parts.append(a.name if v == 1 else '(* %s %s)' % (num(v), a.name))
        if x.c or not parts:
            parts.append(num(x.c))
        return parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)

    def support(self, ls, atoms=()):
        seen = {}
        st = list(atoms)
        for l in ls:
            st.extend(l.m)
        while st:
            a = st.pop()
            if a.id in seen:
                continue
            seen[a.id] = a
            if a.defn:
                for d in a.defn[1:]:
                    if isinstance(d, L):
                        st.extend(d.m)
                    elif isinstance(d, Atom):
                        st.append(d)
        return [seen[k] for k in sorted(seen)]

    def decls(self, atoms):
        out = []
        s = self.smt
        num = lambda n: str(n) if n >= 0 else '(- %d)' % -n
        for a in atoms:
            out.append('(declare-const %s Int)' % a.name)
        for a in atoms:
            out.append('(assert (and (<= %s %s) (<= %s %s)))' % (num(a.lo), a.name, a.name, num(a.hi)))
            d = a.defn
            if not d:
                continue
            k = d[0]
            n = a.name
            if k == 'q':
                B, D = d[1], d[2]
                e = s(B)
                out.append('(assert (and (<= (* %d %s) %s) (< %s (+ (* %d %s) %d))))' % (D, n, e, e, D, n, D))
            elif k == 'neg':
                out.append('(assert (= (= %s 1) (< %s 0)))' % (n, s(d[1])))
            elif k == 'eqz':
                out.append('(assert (= (= %s 1) (= %s 0)))' % (n, s(d[1])))
            elif k == 'ite':
                out.append('(assert (= %s (ite (= %s 1) %s %s)))' % (n, s(d[1]), s(d[2]), s(d[3])))
            elif k == 'and':
                out.append('(assert (= (= %s 1) (and (= %s 1) (= %s 1))))' % (n, s(d[1]), s(d[2])))
            elif k == 'or':
                out.append('(assert (= (= %s 1) (or (= %s 1) (= %s 1))))' % (n, s(d[1]), s(d[2])))
            elif k == 'xor':
                out.append('(assert (= (= %s 1) (not (= %s %s))))' % (n, s(d[1]), s(d[2])))
            elif k == 'orw':
                x, y = s(d[1]), s(d[2])
                out.append('(assert (and (<= %s %s) (<= %s %s) (<= %s (+ %s %s))))' % (x, n, y, n, n, x, y))
            elif k == 'andw':
                x, y = s(d[1]), s(d[2])
                out.append('(assert (and (<= %s %s) (<= %s %s) (<= 0 %s)))' % (n, x, n, y, n))
            elif k == 'xorw':
                x, y = s(d[1]), s(d[2])
                out.append('(assert (and (<= %s (+ %s %s)) (<= %s (+ %s %s)) (<= %s (+ %s %s))))' % (n, x, y, x, n, y, y, n, x))
                out.append('(assert (= (= %s 0) (= %s %s)))' % (n, x, y))
            elif k == 'mul':
                x, y = d[1], d[2]
                # McCormick when a factor is boolean
                for p, q in ((x, y), (y, x)):
                    if p.isbool():
                        out.append('(assert (= %s (ite (= %s 1) %s 0)))' % (n, p.name, q.name))
                        break
                else:
                    # sound facts about products of non-negative integers
                    if x.lo >= 0 and y.lo >= 0:
                        out.append('(assert (<= %s (* %d %s)))' % (n, y.hi, x.name))
                        out.append('(assert (<= %s (* %d %s)))' % (n, x.hi, y.name))
        return out

    def query(self, assumptions, goal_neg, hint_atoms=(), extra_ls=()):
        """SMT-LIB script: atoms reachable from the linear forms; assumptions and goal_neg are
        (text, [L...]) pairs"""
        ls = list(extra_ls)
        for _, xs in assumptions + [goal_neg]:
            ls.extend(xs)
        for _, xs in self.extra:
            ls.extend(xs)
        atoms = self.support(ls, hint_atoms)
        out = ['(set-logic ALL)']
        out += self.decls(atoms)
        for t, _ in self.extra:
            out.append('(assert %s)' % t)
        for t, _ in assumptions:
            out.append('(assert %s)' % t)
        out.append('(assert %s)' % goal_neg[0])
        return '\n'.join(out), atoms

    # ---- concrete evaluation (used to validate the encoding and to guess carry relations)
    def evalL(self, x, env, memo):
        st = [a for a in x.m if a.id not in memo]
        while st:
            a = st[-1]
            if a.id in memo:
                st.pop()
                continue
            if not a.defn:
                memo[a.id] = env[a.name.strip('|')]
                st.pop()
                continue
            todo = []
            for d in a.defn[1:]:
                if isinstance(d, L):
                    todo += [b for b in d.m if b.id not in memo]
                elif isinstance(d, Atom) and d.id not in memo:
                    todo.append(d)
            if todo:
                st.extend(todo)
                continue
            st.pop()
            k = a.defn[0]
            v = [self._ev(d, memo) if isinstance(d, L) else (memo[d.id] if isinstance(d, Atom) else d) for d in a.defn[1:]]
            if k == 'q':
                r = v[0] // v[1]
            elif k == 'neg':
                r = int(v[0] < 0)
            elif k == 'eqz':
                r = int(v[0] == 0)
            elif k == 'ite':
                r = v[1] if v[0] else v[2]
            elif k in ('and', 'andw'):
                r = v[0] & v[1]
            elif k in ('or', 'orw'):
                r = v[0] | v[1]
            elif k in ('xor', 'xorw'):
                r = v[0] ^ v[1]
            elif k == 'mul':
                r = v[0] * v[1]
            else:
                raise NoLia('eval ' + k)
            if not a.lo <= r <= a.hi:
                raise AssertionError('interval of %s violated' % a.name)
            memo[a.id] = r
        return self._ev(x, memo)

    def _ev(self, x, memo):
        r = x.c
        for a, v in x.m.items():
            r += v * memo[a.id]
        return r
