"""Level 1: field elements as polynomials.

The executor runs the IR of code built on top of a field; calls of the field's own operations (decided by
C01/C05/C06 at the limb level) are intercepted and computed on polynomials over F_p whose variables are
the inputs.  Zero tests and equality tests of symbolic elements fork the execution; what was assumed on
a path is kept as hypotheses."""
import re, random, itertools, time
from . import terms as T, native
from .interp import Exec, explore, Panic, Unsupported, Infeasible
from .ob import Ob, NotProved

W = 10
MASK = (1 << W) - 1


class Ring:
    """polynomial ring over F_p (optionally with an algebraic element u, u^2 = beta)"""
    def __init__(self, p, beta=None):
        self.p = p
        self.names = []
        self.idx = {}
        self.beta = None
        if beta is not None:
            self.u = self.var('u!')
            self.beta = beta % p

    def vid(self, name):
        i = self.idx.get(name)
        if i is None:
            i = self.idx[name] = len(self.names)
            self.names.append(name)
        return i

    def var(self, name):
        return Poly(self, {1 << (W * self.vid(name)): 1}, 1)

    def const(self, c):
        c %= self.p
        return Poly(self, {0: c} if c else {}, 0)

    def powers(self, m):
        i = 0
        while m:
            e = m & MASK
            if e:
                yield i, e
            m >>= W
            i += 1


class Poly:
    __slots__ = ('R', 'm', 'd')

    def __init__(self, R, m, d):
        self.R, self.m, self.d = R, m, d

    def _c(self, o):
        return o if isinstance(o, Poly) else self.R.const(o)

    def __add__(self, o):
        o = self._c(o)
        a, b = self.m, o.m
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        p = self.R.p
        for k, v in b.items():
            s = r.get(k)
            if s is None:
                r[k] = v
            else:
                s += v
                if s >= p:
                    s -= p
                if s:
                    r[k] = s
                else:
                    del r[k]
        return Poly(self.R, r, max(self.d, o.d))
    __radd__ = __add__

    def __neg__(self):
        p = self.R.p
        return Poly(self.R, {k: p - v for k, v in self.m.items()}, self.d)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        R = self.R
        p = R.p
        if not isinstance(o, Poly):
            o %= p
            if o == 0:
                return R.const(0)
            return Poly(R, {k: v * o % p for k, v in self.m.items()}, self.d)
        d = self.d + o.d
        if d > MASK:
            raise Unsupported('polynomial degree %d' % d)
        a, b = self.m, o.m
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 40000000:
            raise Unsupported('polynomial product of %d x %d terms' % (len(a), len(b)))
        r = {}
        bi = list(b.items())
        for k, v in a.items():
            for k2, v2 in bi:
                s = k + k2
                r[s] = r.get(s, 0) + v * v2
        x = Poly(R, {k: v % p for k, v in r.items() if v % p}, d)
        return x.ured() if R.beta is not None else x
    __rmul__ = __mul__

    def ured(self):
        """u^2 -> beta"""
        R = self.R
        for k in self.m:
            if k & MASK > 1:
                break
        else:
            return self
        p = R.p
        r = {}
        for k, v in self.m.items():
            e = k & MASK
            if e > 1:
                v = v * pow(R.beta, e >> 1, p) % p
                k = k - e + (e & 1)
            r[k] = (r.get(k, 0) + v) % p
        return Poly(R, {k: v for k, v in r.items() if v}, self.d)

    def __pow__(self, e):
        r = self.R.const(1)
        b = self
        while e:
            if e & 1:
                r = r * b
            e >>= 1
            if e:
                b = b * b
        return r

    def is0(self):
        return not self.m

    def const(self):
        """value if this is a base-field constant, else None"""
        if not self.m:
            return 0
        if len(self.m) == 1 and 0 in self.m:
            return self.m[0]
        return None

    def isconst(self):
        """constant, possibly in F_p(u)"""
        m = MASK if self.R.beta is not None else 0
        return all(k & ~m == 0 for k in self.m)

    def cinv(self):
        """inverse of a nonzero constant"""
        p = self.R.p
        c = self.const()
        if c is not None:
            return self.R.const(pow(c, -1, p))
        a, b = self.m.get(0, 0), self.m.get(1, 0)
        n = pow(a * a - self.R.beta * b * b, -1, p)
        return Poly(self.R, {k: v for k, v in ((0, a * n % p), (1, -b * n % p)) if v}, 1)

    def key(self):
        """canonical up to scalars"""
        k = max(self.m)
        if self.R.beta is not None:
            lead = {j & MASK: v for j, v in self.m.items() if j >> W == k >> W}
            s = Poly(self.R, lead, 1).cinv()
            x = self * s
        else:
            x = self * pow(self.m[k], -1, self.R.p)
        return frozenset(x.m.items())

    def vars(self):
        m = 0
        for k in self.m:
            m |= k
        return [i for i, e in self.R.powers(m)]

    def degree_in(self, i):
        s = W * i
        return max(((k >> s) & MASK for k in self.m), default=0)

    def coeffs(self, i):
        """as polynomial in variable i: exponent -> Poly"""
        s = W * i
        r = {}
        for k, v in self.m.items():
            e = (k >> s) & MASK
            r.setdefault(e, {})[k - (e << s)] = v
        return {e: Poly(self.R, m, self.d) for e, m in r.items()}

    def subst(self, i, q):
        if not self.degree_in(i):
            return self
        r = self.R.const(0)
        c = self.coeffs(i)
        pw = {}
        for e, x in c.items():
            if e not in pw:
                pw[e] = q ** e
            r = r + x * pw[e]
        r.d = max(r.d, 1)
        return r

    def retotal(self):
        """recompute the degree bound"""
        self.d = max((sum(e for _, e in self.R.powers(k)) for k in self.m), default=0)
        return self

    def ev(self, env):
        """value at env: variable index -> int (not for rings with u)"""
        p = self.R.p
        t = 0
        for k, v in self.m.items():
            for i, e in self.R.powers(k):
                v = v * pow(env[i], e, p) % p
            t += v
        return t % p

    def text(self):
        if not self.m:
            return '0'
        ts = []
        for k, v in self.m.items():
            if k == 0:
                ts.append(str(v))
            else:
                ts.append('(* %d %s)' % (v, mono(self.R, k)))
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)

    def __repr__(self):
        return ' + '.join('%s%s' % (hex(v), ''.join('*%s^%d' % (self.R.names[i], e) for i, e in self.R.powers(k))) for k, v in list(self.m.items())[:6]) or '0'


def mono(R, k):
    return 'm_' + '_'.join('%d.%d' % (i, e) for i, e in R.powers(k))


def decl(polys):
    ms = set()
    for x in polys:
        for k in x.m:
            if k:
                ms.add(mono(x.R, k))
    return '(set-logic QF_LIA)\n' + ''.join('(declare-const %s Int)\n' % n for n in sorted(ms))


class Dom:
    """an abstracted field: `path` operations of width n limbs, elements are Polys of ring R.
    k=1: prime field; k=2: Fq2 whose two coordinates c0,c1 are base elements c0 + c1 u"""
    def __init__(self, eng, f, R=None, path=None, k=1):
        self.eng, self.f, self.k = eng, f, k
        self.path = path or f.path
        self.n = f.n
        self.size = 8 * f.n * k
        self.R = R or Ring(f.p)


class Eng:
    """token table, path hypotheses, hooks"""
    def __init__(self, ex):
        self.ex = ex
        self.tok = {}      # first word name -> (dom, Poly)
        self.bykey = {}
        self.zv = {}       # z variable name -> Poly
        self.zkey = {}
        self.doms = []
        self.nt = 0
        self.raw = {}      # (dom, words) -> (value Poly, canonical: 1 or the name of a bit)
        self.fb = {}       # names of free bits -> meaning
        self.mont = {}     # (dom, poly) -> words of the canonical integer
        self.lexk = {}
        self.halfk, self.halfv = {}, {}
        self.reset()
        ex.oracle = self.oracle

    def reset(self):
        self.sub = []      # (R, var index, Poly)
        self.hyp = []      # other zero polys
        self.nz = []       # nonzero polys
        self.rels = []     # (R, w index, f): w = 1/f
        self.invc = {}
        self.seen = 0
        self.log = {}
        self.state = {}
        self.sq = {}
        self.reducers = []
        self.free = []     # callables giving extra checks

    # ---- tokens
    def new_token(self, dom, poly):
        sp = getattr(dom, 'split', None)
        if sp is not None:
            c0, c1 = halves(poly)
            return self.new_token(sp, self.reduce(c0)) + self.new_token(sp, self.reduce(c1))
        at = getattr(dom, 'atoms', None)
        if at is not None and not poly.isconst():
            # the coordinates of an element e are unknowns h, g with e = h + g u
            k = (id(dom), frozenset(poly.m.items()))
            n = self.halfk.get(k)
            if n is None:
                n = self.halfk[k] = len(self.halfk)
                g = dom.R.var('g!%d' % n)
                h = dom.R.var('h!%d' % n)
                self.halfv[dom.R.idx['h!%d' % n]] = poly - g * dom.R.var('u!')
            return self.new_token(at, dom.R.var('h!%d' % n)) + self.new_token(at, dom.R.var('g!%d' % n))
        c = poly.isconst()
        if c:
            a = [poly.m.get(0, 0)] + ([poly.m.get(1, 0)] if dom.k == 2 else [])
            ws = []
            for x in a:
                v = dom.f.mont(x)
                ws += [(v >> (64 * i)) & T.M(64) for i in range(dom.n)]
            return ws
        k = (id(dom), frozenset(poly.m.items()))
        nm = self.bykey.get(k)
        if nm is None:
            self.nt += 1
            nm = self.bykey[k] = 'e%d' % self.nt
            self.tok[nm + '_0'] = (dom, poly)
        return [T.var('%s_%d' % (nm, i), 64) for i in range(dom.n * dom.k)]

    def put(self, dom, addr, poly):
        for i, w in enumerate(self.new_token(dom, poly)):
            self.ex.store(addr + 8 * i, 8, w)

    def words_poly(self, dom, ws):
        sp = getattr(dom, 'split', None)
        if sp is not None:
            return self.words_poly(sp, ws[:dom.n]) + self.words_poly(sp, ws[dom.n:]) * dom.R.var('u!')
        at = getattr(dom, 'atoms', None)
        if at is not None and not all(type(w) is int for w in ws):
            r = self.words_poly(at, ws[:dom.n]) + self.words_poly(at, ws[dom.n:]) * dom.R.var('u!')
            for i in r.vars():
                if i in self.halfv:
                    r = r.subst(i, self.halfv[i])
            return r
        if all(type(w) is int for w in ws):
            c = []
            for j in range(dom.k):
                v = sum(w << (64 * i) for i, w in enumerate(ws[j * dom.n:(j + 1) * dom.n]))
                if v >= dom.f.p:
                    raise Unsupported('non-canonical constant element')
                c.append(dom.f.unmont(v))
            r = dom.R.const(c[0])
            if dom.k == 2 and c[1]:
                r = r + Poly(dom.R, {1: c[1]}, 1)
            return r
        w0 = ws[0]
        if T.isT(w0) and w0.op == 'var':
            nm = w0.a[0]
            t = self.tok.get(nm)
            if t and t[0].R is dom.R:
                b = nm[:-2]
                if all(T.isT(w) and w.op == 'var' and w.a[0] == '%s_%d' % (b, i) for i, w in enumerate(ws)):
                    return t[1]
        # a word-wise selection between elements
        for w in ws:
            if T.isT(w) and w.op == 'ite':
                c = w.a[0]
                r = self.ex.decide(c)
                return self.words_poly(dom, [self.cofactor(x, c, r) for x in ws])
        if dom.k == 2:
            # coordinates known separately
            lo = self.words_half(dom, ws[:dom.n])
            hi = self.words_half(dom, ws[dom.n:])
            if lo is not None and hi is not None:
                return lo + hi * dom.R.var('u!')
        if dom.k == 1 and not any(T.isT(w) and self.is_token(w) for w in ws):
            v, ok = self.rawint(dom, ws)
            return v * dom.f.Rinv
        raise Unsupported('limbs of an abstract element are mixed: %s' % ([str(w)[:40] for w in ws[:3]],))

    def is_token(self, w):
        return any(v.op == 'var' and v.a[0].startswith('e') and v.a[0].split('_')[0] + '_0' in self.tok for v in leaf_vars(w))

    def rawint(self, dom, ws):
        """the integer with the given words: (its residue as Poly, bit 'it is below p')"""
        if all(type(w) is int for w in ws):
            v = sum(w << (64 * i) for i, w in enumerate(ws))
            return dom.R.const(v), int(v < dom.f.p)
        k = (id(dom.R), tuple(w if type(w) is int else 't%d' % w.id for w in ws))
        r = self.raw.get(k)
        if r is None:
            n = len(self.raw)
            self.fb['rok%d' % n] = ('canonical', ws)
            r = self.raw[k] = (dom.R.var('v%d' % n), T.var('rok%d' % n, 1))
            self.rawkeep = getattr(self, 'rawkeep', []) + [ws]
            self.byv = getattr(self, 'byv', {})
            self.byv[frozenset(r[0].m.items())] = (ws, r[1])
        return r

    def montwords(self, dom, poly):
        """words of the canonical integer of an element"""
        c = poly.const()
        if c is not None:
            return [(c >> (64 * i)) & T.M(64) for i in range(dom.n)]
        kk = frozenset(poly.m.items())
        r = getattr(self, 'byv', {}).get(kk)
        if r and self.ex.facts.get(r[1]) is True and len(r[0]) == dom.n:
            return list(r[0])
        k = (id(dom.R), kk)
        ws = self.mont.get(k)
        if ws is None:
            n = len(self.mont)
            ws = self.mont[k] = [T.var('r%d_%d' % (n, i), 64) for i in range(dom.n)]
            self.raw[(id(dom.R), tuple('t%d' % w.id for w in ws))] = (poly, 1)
        return ws

    def lex(self, dom, x):
        """bit: canonical integer of x exceeds (p-1)/2"""
        x = self.reduce(self.clear(self.reduce(x))) if not self.rels else self.reduce(x)
        c = x.const()
        if c is not None:
            return int(2 * c > dom.f.p)
        if self.bit(self.zero(x)):
            return 0
        neg = x.m[max(x.m)] * 2 > dom.f.p
        y = -x if neg else x
        k = (id(dom.R), frozenset(y.m.items()))
        n = self.lexk.get(k)
        if n is None:
            n = self.lexk[k] = 'lex%d' % len(self.lexk)
            self.fb[n] = ('lex', y)
        b = T.var(n, 1)
        return T.not_(b) if neg else b

    def cmp(self, dom, x, y):
        if self.bit(self.zero(x - y)):
            return 0
        a, b = frozenset(x.m.items()), frozenset(y.m.items())
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            return 255 if cx < cy else 1
        sw = sorted(map(str, a)) > sorted(map(str, b))
        k = ('cmp', id(dom.R)) + ((b, a) if sw else (a, b))
        n = self.lexk.get(k)
        if n is None:
            n = self.lexk[k] = 'lt%d' % len(self.lexk)
            self.fb[n] = ('lt', (y, x) if sw else (x, y))
        lt = self.ex.decide(T.var(n, 1)) != sw
        return 255 if lt else 1

    def words_half(self, dom, ws):
        if all(type(w) is int for w in ws):
            v = sum(w << (64 * i) for i, w in enumerate(ws))
            return dom.R.const(dom.f.unmont(v))
        return None

    def cofactor(self, x, c, r):
        while T.isT(x) and x.op == 'ite':
            k = x.a[0]
            if k is c:
                x = x.a[1] if r else x.a[2]
            else:
                x = x.a[1] if self.ex.decide(k) else x.a[2]
        return x

    def get(self, dom, addr):
        return self.words_poly(dom, [self.ex.load(addr + 8 * i, 8) for i in range(dom.n * dom.k)])

    # ---- zero tests
    def zero(self, poly):
        poly = self.reduce(self.clear(self.reduce(poly)))
        if poly.is0():
            return 1
        if getattr(poly.R, 'split', False):
            c0, c1 = halves(poly)
            if not c1.is0():
                a, b = self.zero(c0), self.zero(c1)
                return T.and_(a, b, 1)
        if poly.isconst():
            return 0
        k = (id(poly.R), poly.key())
        n = self.zkey.get(k)
        if n is None:
            n = self.zkey[k] = 'z%d' % len(self.zkey)
            self.zv[n] = poly
        return T.var(n, 1)

    def sync(self):
        pc = self.ex.pc
        while self.seen < len(pc):
            c, r = pc[self.seen]
            self.seen += 1
            if c.op == 'var' and c.a[0] in self.zv:
                self.assume(self.zv[c.a[0]], r)

    def assume(self, poly, r):
        x = self.reduce(poly)
        if r:
            if x.is0():
                return
            if x.isconst():
                raise Infeasible()
            self.add_zero(x)
            for y in self.nz:
                if self.reduce(y).is0():
                    raise Infeasible()
            for y in self.hyp:
                y = self.reduce(y)
                if y.isconst() and not y.is0():
                    raise Infeasible()
        else:
            if x.is0():
                raise Infeasible()
            self.nz.append(poly)

    def add_zero(self, x):
        # a variable occurring only linearly, with constant coefficient
        for i in reversed(x.vars()):
            if x.R.beta is not None and i == 0:
                continue
            c = x.coeffs(i)
            if set(c) <= {0, 1} and c[1].isconst():
                self.sub.append((x.R, i, -(c.get(0, x.R.const(0)) * c[1].cinv())))
                return
        self.hyp.append(x)

    def reduce(self, x):
        for R, i, q in self.sub:
            if R is x.R:
                x = x.subst(i, q)
        for h in getattr(self, 'reducers', ()):
            x = h(x)
        return x

    def oracle(self, ex, c):
        self.sync()
        if c.op == 'var':
            poly = self.zv.get(c.a[0])
            if poly is None:
                return None
            x = self.reduce(poly)
            if x.is0():
                return True
            if x.isconst():
                return False
            k = x.key()
            for y in self.nz:
                if y.R is x.R:
                    y = self.reduce(y)
                    if not y.is0() and y.key() == k:
                        return False
            # factor out variables
            f = self.monomial_factors(x)
            if f:
                for v in f:
                    if ex.decide(self.zero(v)):
                        return True
                return False
            return None
        leaves = leaf_vars(c)
        if leaves and all(v.op == 'var' and (v.a[0] in self.zv or v.a[0] in self.fb) for v in leaves):
            return bool(self.value(c))
        return None

    def monomial_factors(self, x):
        R = x.R
        g = None
        for k in x.m:
            e = {i: n for i, n in R.powers(k) if not (R.beta is not None and i == 0)}
            g = e if g is None else {i: min(n, e[i]) for i, n in g.items() if i in e}
            if not g:
                return None
        s = sum(n << (W * i) for i, n in g.items())
        rest = Poly(R, {k - s: v for k, v in x.m.items()}, x.d)
        fs = [Poly(R, {1 << (W * i): 1}, 1) for i in g]
        if not rest.isconst():
            fs.append(rest)
        if len(fs) == 1 and sum(g.values()) == 1:
            return None
        return fs

    def bit(self, c):
        """decide a Choice byte / bool term"""
        if type(c) is int:
            return bool(c & 1)
        w = c.w
        if w == 1:
            return self.ex.decide(c)
        if c.op == 'zext':
            return self.bit(c.a[0])
        return self.ex.decide(T.trunc(c, w, 1))

    def value(self, t):
        """make an integer result concrete by deciding the zero tests in it"""
        if not T.isT(t):
            return t
        leaves = sorted(leaf_vars(t), key=lambda x: x.id)
        env = {}
        for v in leaves:
            if v.w != 1 or v.op != 'var':
                raise Unsupported('result depends on %s' % str(v)[:60])
            r = partial(t, env)
            if r is not None:
                return r
            env[v.a[0]] = int(self.ex.decide(v))
        return T.evaluate(t, env)

    # ---- inverse
    def inverse(self, x):
        """Poly for 1/x on a path where x != 0"""
        if x.isconst():
            return x.cinv()
        if getattr(x.R, 'split', False):
            c0, c1 = halves(x)
            if not c1.is0():
                u = x.R.var('u!')
                return (c0 - c1 * u) * self.inverse(self.reduce(c0 * c0 - c1 * c1 * x.R.beta))
        k = (id(x.R), frozenset(x.m.items()))
        w = self.invc.get(k)
        if w is None:
            i = x.R.vid('w%d' % len(self.rels))
            # a reused name must not keep old hypotheses: names are per path
            self.rels.append((x.R, i, x))
            w = self.invc[k] = Poly(x.R, {1 << (W * i): 1}, 1)
        return w

    def clear(self, g):
        """numerator of g: eliminate the inverse variables"""
        for R, i, f in reversed(self.rels):
            if R is not g.R:
                continue
            n = g.degree_in(i)
            if not n:
                continue
            c = g.coeffs(i)
            r = R.const(0)
            pw = {0: R.const(1)}
            for e in range(1, n + 1):
                pw[e] = pw[e - 1] * f
            for e, x in c.items():
                r = r + x * pw[n - e]
            g = r
        return g

    def sqrt(self, dom, x):
        """(bit: x is a square, a root of it): the root is a fresh element whose square is x"""
        if self.bit(self.zero(x)):
            return 1, x.R.const(0)
        k = (id(x.R), frozenset(x.m.items()))
        r = self.sq.get(k)
        if r is None:
            n = len(self.sq)
            nm = 'sq%d' % n
            self.fb[nm] = ('square', x)
            if getattr(dom, 'split', None) is not None:
                s = x.R.var('s%d_0' % n) + x.R.var('s%d_1' % n) * x.R.var('u!')
            else:
                s = x.R.var('s%d' % n)
                i = x.R.idx['s%d' % n]
                self.reducers = list(getattr(self, 'reducers', [])) + [sq_red(i, x)]
            r = self.sq[k] = (T.var(nm, 1), s, x)
        return r[0], r[1]

    def links(self, zero=None):
        """what the path says about the abstract words and bits (1-bit terms that hold); zero(x): True, False or None"""
        r = []
        known = {}

        def lt(ws, p):
            t = 0
            for i, w in enumerate(ws):
                c = (p >> (64 * i)) & T.M(64)
                t = T.or_(T.ult(w, c, 64), T.and_(T.eq(w, c, 64), t, 1), 1)
            return t

        def isz(ws):
            t = 1
            for w in ws:
                t = T.and_(t, T.eq(w, 0, 64), 1)
            return t
        for (rid, kk), ws in self.mont.items():
            d = next(d for d in self.doms if id(d.R) == rid and d.k == 1)
            x = self.reduce(Poly(d.R, dict(kk), 1))
            c = x.const()
            if c is not None:
                exp = [(c >> (64 * i)) & T.M(64) for i in range(len(ws))]
            else:
                exp = known.setdefault((rid, frozenset(x.m.items())), ws)
                if exp is ws:
                    r += [lt(ws, d.f.p), T.eq(self.zero(x), isz(ws), 1)]
                    continue
            r += [T.eq(a, b, 64) for a, b in zip(ws, exp)]
        for m, (ws, ok) in getattr(self, 'byv', {}).items():
            for d in self.doms:
                if len(ws) != d.n or d.k != 1 or not hasattr(d, 'f') or any(T.isT(w) and w.w != 64 for w in ws):
                    continue
                # the bit is what it says; a canonical integer is zero exactly when its words are
                x = Poly(d.R, dict(m), 1)
                r.append(T.eq(ok, lt(ws, d.f.p), 1))
                r.append(T.or_(T.not_(ok) if T.isT(ok) else 1 - ok, T.eq(self.zero(x), isz(ws), 1), 1))
                break
        for y in self.nz:
            r.append(T.eq(self.zero(y), 0, 1))
        for y in self.hyp:
            r.append(T.eq(self.zero(y), 1, 1))
        if zero:
            for n, x in list(self.zv.items()):
                z = zero(x)
                r.append(T.eq(T.var(n, 1), int(z) if z is not None else self.zero(x), 1))
        if any(not T.isT(t) and not t for t in r):
            raise Infeasible()
        return [t for t in r if T.isT(t)]

    # ---- hooks
    def field(self, dom):
        self.doms.append(dom)
        ex = self.ex
        P = re.escape(dom.path)
        get, put = self.get, self.put
        A = r'core::ops::arith::'

        def binop(fn):
            def h(e, name, a):
                if len(a) == 3:
                    x, y = get(dom, a[1]), get(dom, a[2])
                    put(dom, a[0], fn(x, y))
                else:
                    x, y = get(dom, a[0]), get(dom, a[1])
                    put(dom, a[0], fn(x, y))
            return h

        def unop(fn):
            def h(e, name, a):
                put(dom, a[0], fn(get(dom, a[1])))
            return h
        for n, fn in (('Add', lambda x, y: x + y), ('Sub', lambda x, y: x - y), ('Mul', lambda x, y: x * y)):
            l = n.lower()
            ex.add_hook(r'^<&?%s as %s%s(<&?%s>)?>::%s$' % (P, A, n, P, l), binop(fn))
            ex.add_hook(r'^<%s as %s%sAssign(<&?%s>)?>::%s_assign$' % (P, A, n, P, l), binop(fn))
            ex.add_hook(r'^<%s>::%s$' % (P, l), binop(fn))
            ex.add_hook(r'^<%s>::%s_assign$' % (P, l), binop(fn))
        ex.add_hook(r'^<%s>::mul_const$' % P, binop(lambda x, y: x * y))
        ex.add_hook(r'^<&?%s as %sNeg>::neg$' % (P, A), unop(lambda x: -x))
        ex.add_hook(r'^<%s>::neg$' % P, unop(lambda x: -x))
        for n, fn in (('double', lambda x: x + x), ('square', lambda x: x * x), ('cube', lambda x: x * x * x)):
            ex.add_hook(r'^<%s as ff::Field>::%s$' % (P, n), unop(fn))
            ex.add_hook(r'^<%s>::%s$' % (P, n), unop(fn))

        def z8(e, name, a):
            return T.zext(self.zero(get(dom, a[0])), 1, 8) if True else None

        def z1(e, name, a):
            return self.zero(get(dom, a[0]))

        def eq8(e, name, a):
            return T.zext(self.zero(get(dom, a[0]) - get(dom, a[1])), 1, 8)

        def eq1(e, name, a):
            return self.zero(get(dom, a[0]) - get(dom, a[1]))

        def ne1(e, name, a):
            return T.not_(self.zero(get(dom, a[0]) - get(dom, a[1])))

        def ne8(e, name, a):
            return T.zext(T.not_(self.zero(get(dom, a[0]) - get(dom, a[1]))), 1, 8)
        ex.add_hook(r'^<%s as ff::Field>::is_zero$' % P, z8)
        ex.add_hook(r'^<%s as ff::Field>::is_zero_vartime$' % P, z1)
        ex.add_hook(r'^<%s as subtle::ConstantTimeEq>::ct_eq$' % P, eq8)
        ex.add_hook(r'^<%s as subtle::ConstantTimeEq>::ct_ne$' % P, ne8)
        ex.add_hook(r'^<%s as core::cmp::PartialEq>::eq$' % P, eq1)
        ex.add_hook(r'^<%s as core::cmp::PartialEq>::ne$' % P, ne1)

        def sel(e, name, a):
            c = a[3]
            x, y = get(dom, a[1]), get(dom, a[2])
            put(dom, a[0], x if x.m == y.m else (y if self.bit(c) else x))

        def asg(e, name, a):
            c = a[2]
            x, y = get(dom, a[0]), get(dom, a[1])
            put(dom, a[0], x if x.m == y.m else (y if self.bit(c) else x))

        def swap(e, name, a):
            x, y = get(dom, a[0]), get(dom, a[1])
            if self.bit(a[2]):
                put(dom, a[0], y)
                put(dom, a[1], x)
        ex.add_hook(r'^<%s as subtle::ConditionallySelectable>::conditional_select$' % P, sel)
        ex.add_hook(r'^<%s as subtle::ConditionallySelectable>::conditional_assign$' % P, asg)
        ex.add_hook(r'^<%s as subtle::ConditionallySelectable>::conditional_swap$' % P, swap)

        def inv(e, name, a):
            x = self.reduce(get(dom, a[1]))
            if self.bit(self.zero(x)):
                self.nt += 1
                put(dom, a[0], dom.R.var('junk%d' % self.nt))
                e.store(a[0] + dom.size, 1, 0)
            else:
                put(dom, a[0], self.inverse(x))
                e.store(a[0] + dom.size, 1, 1)
        def root(e, name, a):
            x = self.reduce(get(dom, a[1]))
            ok, r = self.sqrt(dom, x)
            put(dom, a[0], r)
            e.store(a[0] + dom.size, 1, T.zext(ok, 1, 8) if T.isT(ok) else ok)
        if getattr(self, 'roots', False):
            ex.add_hook(r'^<%s as ff::Field>::sqrt$' % P, root)
            ex.add_hook(r'^<%s>::sqrt$' % P, root)
        n = dom.n
        if dom.k == 1:
            def from_mont(e, name, a):
                for i, w in enumerate(self.montwords(dom, get(dom, a[1]))):
                    e.store(a[0] + 8 * i, 8, w)

            def less(e, name, a):
                ws = [e.load(a[0] + 8 * i, 8) for i in range(n)]
                return self.rawint(dom, ws)[1]

            def lexi(e, name, a):
                b = self.lex(dom, get(dom, a[0]))
                return T.zext(b, 1, 8)

            def cmp(e, name, a):
                return self.cmp(dom, get(dom, a[0]), get(dom, a[1]))

            def uniform(e, name, a):
                m = int(re.search(r'FromUniformBytes<(\d+)>', e.m.demangle(name)).group(1))
                ws = [e.load(a[1] + 8 * i, min(8, m - 8 * i)) for i in range((m + 7) // 8)]
                put(dom, a[0], self.rawint(dom, ws)[0])
            ex.add_hook(r'^<%s>::from_mont$' % P, from_mont)
            ex.add_hook(r'^<%s>::is_less_than_modulus$' % P, less)
            ex.add_hook(r'^<%s>::lexicographically_largest$' % P, lexi)
            ex.add_hook(r'^<%s as core::cmp::Ord>::cmp$' % P, cmp)
            ex.add_hook(r'^<%s as ff::FromUniformBytes<\d+>>::from_uniform_bytes$' % P, uniform)
        ex.add_hook(r'^<%s as ff::Field>::invert$' % P, inv)
        ex.add_hook(r'^<%s>::invert$' % P, inv)


def sq_red(i, rhs):
    """v^2 = rhs"""
    def h(x):
        if x.R is not rhs.R or x.degree_in(i) < 2:
            return x
        r = x.R.const(0)
        v = Poly(x.R, {1 << (W * i): 1}, 1)
        for e, c in x.coeffs(i).items():
            t = c * rhs ** (e >> 1)
            r = r + (t * v if e & 1 else t)
        return r
    return h


def halves(poly):
    """coordinates of c0 + c1 u"""
    R = poly.R
    if poly.degree_in(0) == 0:
        return poly, R.const(0)
    c = poly.coeffs(0)
    return c.get(0, R.const(0)), c.get(1, R.const(0))


def partial(t, env, memo=None):
    """value of t under a partial assignment, or None"""
    if type(t) is int:
        return t
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    if t.op == 'var':
        r = env.get(t.a[0])
    elif t.op == 'ite':
        c = partial(t.a[0], env, memo)
        r = None if c is None else partial(t.a[1] if c else t.a[2], env, memo)
    else:
        a = [partial(x, env, memo) if T.isT(x) else x for x in t.a]
        if t.op in ('and', 'mul') and 0 in a:
            r = 0
        elif t.op == 'or' and T.M(t.w) in a:
            r = T.M(t.w)
        elif None in a or t.op not in T.EV:
            r = None
        else:
            r = T.EV[t.op](t, a)
    memo[t.id] = r
    return r


def leaf_vars(t):
    seen, st, r = set(), [t], set()
    while st:
        x = st.pop()
        if not T.isT(x) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            r.add(x)
        elif x.op not in T.EV:
            r.add(x)
        st.extend(x.a)
    return r


def span(goal, rels):
    """coefficients l with goal = sum l_i rels_i over F_p, or None (Gaussian elimination)"""
    p = goal.R.p
    rows = []
    n = len(rels)
    piv = []
    for j, r in enumerate(rels):
        v, c = dict(r.m), {j: 1}
        for (k, pv, pc) in piv:
            t = v.get(k)
            if t:
                for a, b in pv.items():
                    s = (v.get(a, 0) - t * b) % p
                    if s:
                        v[a] = s
                    else:
                        v.pop(a, None)
                for a, b in pc.items():
                    c[a] = (c.get(a, 0) - t * b) % p
        if v:
            k = max(v)
            i = pow(v[k], -1, p)
            piv.append((k, {a: b * i % p for a, b in v.items()}, {a: b * i % p for a, b in c.items()}))
    v, c = dict(goal.m), {}
    for (k, pv, pc) in piv:
        t = v.get(k)
        if t:
            for a, b in pv.items():
                s = (v.get(a, 0) - t * b) % p
                if s:
                    v[a] = s
                else:
                    v.pop(a, None)
            for a, b in pc.items():
                c[a] = (c.get(a, 0) + t * b) % p
    if v:
        return None
    return c
