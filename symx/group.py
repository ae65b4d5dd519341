"""Level 2: curve points as linear forms.

Points are formal combinations of generator symbols with integer coefficients that are multilinear polynomials in
scalar bits; the point operations (decided by C11/C12) are intercepted.  A constant-time selection by a function of
few bits is the multilinear interpolation of that function, which a bit-vector query confirms."""
import re, random, itertools
from . import terms as T, native, bvq
from .interp import Exec, explore, Unsupported
from .ob import Ob, NotProved
from .ring import Ring, Poly, Dom, Eng, decl, leaf_vars, W, MASK

BIG = (1 << 521) - 1        # integers below 2^520 in absolute value are compared as residues modulo this prime


class GDom:
    """path: type of the points; nw words per element; dec: words of a constant -> Poly or None"""
    def __init__(self, eng, path, nw, R, dec):
        self.eng, self.path, self.n, self.k, self.size, self.R, self.decode = eng, path, nw, 1, 8 * nw, R, dec


class Bits:
    """bit variables of symbolic words in a ring"""
    def __init__(self, eng, R):
        self.eng, self.R = eng, R
        self.var = {}          # (word name, i) -> Poly
        self.isbit = set()
        self.off = set()       # bits known to be zero
        self.defs = {}         # term id -> (term, support, coefficients)
        self.widths = {}

    def bit(self, name, i):
        v = self.var.get((name, i))
        if v is None:
            v = self.var[(name, i)] = self.R.var('b:%s:%d' % (name, i))
            self.isbit.add(self.R.idx['b:%s:%d' % (name, i)])
        return v

    def idem(self, x):
        """b^2 = b"""
        if x.R is not self.R:
            return x
        if self.off:
            x = Poly(self.R, {k: v for k, v in x.m.items() if not any(i in self.off for i, e in self.R.powers(k))}, x.d)
        r = None
        for k in x.m:
            nk = k
            for i, e in self.R.powers(k):
                if e > 1 and i in self.isbit:
                    nk -= (e - 1) << (W * i)
            if nk != k:
                if r is None:
                    r = {}
        if r is None:
            return x
        for k, v in x.m.items():
            nk = k
            for i, e in self.R.powers(k):
                if e > 1 and i in self.isbit:
                    nk -= (e - 1) << (W * i)
            r[nk] = (r.get(nk, 0) + v) % self.R.p
        return Poly(self.R, {k: v for k, v in r.items() if v}, x.d)

    def poly(self, t):
        """a 1-bit term as a multilinear polynomial in bits, or None"""
        if type(t) is int:
            return self.R.const(t & 1)
        d = self.defs.get(t.id)
        if d is None:
            sup = support(t)
            if sup is None or len(sup[0]) > 9:
                return None
            sup = sorted(sup[0], key=lambda b: (b[0], b[1]))
            ws = sorted(set(b[0] for b in sup))
            n = len(sup)
            tab = []
            for m in range(1 << n):
                env = {w: 0 for w in ws}
                for j, (w, i) in enumerate(sup):
                    if m >> j & 1:
                        env[w] |= 1 << i
                for v in leaf_vars(t):
                    env.setdefault(v.a[0], 0)
                tab.append(T.evaluate(t, env) & 1)
            for j in range(n):
                for m in range(1 << n):
                    if m >> j & 1:
                        tab[m] -= tab[m ^ (1 << j)]
            d = self.defs[t.id] = (t, sup, tab)
        t, sup, tab = d
        r = self.R.const(0)
        for m, c in enumerate(tab):
            if c:
                x = self.R.const(c)
                for j, (w, i) in enumerate(sup):
                    if m >> j & 1:
                        x = x * self.bit(w, i)
                r = r + x
        return r

    def query(self):
        """the interpolations differ from the terms somewhere"""
        if not self.defs:
            return None
        b = bvq.BV()
        gs = []
        for t, sup, tab in self.defs.values():
            w = len(sup) + 3
            bits = []
            for (nm, i) in sup:
                W_ = next(v.w for v in leaf_vars(t) if v.a[0] == nm)
                b._var(nm, W_)
                bits.append('((_ zero_extend %d) ((_ extract %d %d) |%s|))' % (w - 1, i, i, nm))
            ts = [b.const(0, w)]
            for m, c in enumerate(tab):
                if c:
                    fs = [b.const(c % (1 << w), w)] + [bits[j] for j in range(len(sup)) if m >> j & 1]
                    e = fs[0]
                    for y in fs[1:]:
                        e = '(bvmul %s %s)' % (e, y)
                    ts.append(e)
            e = ts[0]
            for y in ts[1:]:
                e = '(bvadd %s %s)' % (e, y)
            gs.append('(distinct ((_ zero_extend %d) %s) %s)' % (w - 1, b.tr(t, 1), e))
        return b.script(['(or %s)' % ' '.join(gs + ['false'])]) + '\n(check-sat)\n'


def top_bits(eng, words, p):
    """the bits of a canonical integer above the modulus: marks them zero, returns the query that they are"""
    n, nb = 64 * len(words), p.bit_length()
    if nb == n:
        return None
    for i in range(nb, n):
        w = words[i // 64]
        eng.bits.bit(w.a[0], i % 64)
        eng.bits.off.add(eng.bits.R.idx['b:%s:%d' % (w.a[0], i % 64)])
    return '(declare-fun k () (_ BitVec %d))\n(assert (bvult k (_ bv%d %d)))\n(assert (distinct ((_ extract %d %d) k) (_ bv0 %d)))\n(check-sat)\n' % (n, p, n, n - 1, nb, n - nb)


def support(t, memo=None):
    """per-bit sets of leaf bits (over-approximation): list of frozensets, low bit first; None when too wide"""
    if memo is None:
        memo = {}
    E = frozenset()
    st = [t]
    while st:
        x = st[-1]
        if type(x) is int or x.id in memo:
            st.pop()
            continue
        todo = [c for c in x.a if T.isT(c) and c.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        w, op, a = x.w, x.op, x.a
        g = lambda c, ww=w: memo[c.id] if T.isT(c) else [E] * ww
        if op == 'var':
            r = [frozenset([(a[0], i)]) for i in range(w)]
        elif op in ('and', 'or', 'xor'):
            r = [E] * w
            for c in a:
                s = g(c)
                if op == 'and' and type(c) is int:
                    continue
                r = [p | q for p, q in zip(r, s)]
            for c in a:
                if op == 'and' and type(c) is int:
                    r = [p if c >> i & 1 else E for i, p in enumerate(r)]
        elif op == 'not':
            r = list(g(a[0]))
        elif op == 'ite':
            c = g(a[0], 1)[0]
            r = [c | p | q for p, q in zip(g(a[1]), g(a[2]))]
        elif op == 'zext':
            r = list(g(a[0])) + [E] * (w - a[0].w)
        elif op == 'sext':
            s = list(g(a[0]))
            r = s + [s[-1]] * (w - len(s))
        elif op == 'trunc':
            r = g(a[0])[:w]
        elif op == 'byte':
            s = g(a[0])[8 * a[1]:8 * a[1] + 8]
            r = s + [E] * (8 - len(s))
        elif op == 'concat':
            r = [b for c in a for b in g(c, 8)]
        elif op in ('shl', 'lshr', 'ashr') and type(a[1]) is int:
            s, k = list(g(a[0])), a[1]
            if op == 'shl':
                r = ([E] * k + s)[:w]
            else:
                r = s[k:] + [E if op == 'lshr' else s[-1]] * k
                r = r[:w]
        elif op in ('add', 'sub', 'mul'):
            r, acc = [], E
            ss = [g(c) for c in a]
            for i in range(w):
                for s in ss:
                    acc = acc | s[i]
                r.append(acc)
        else:
            u = E
            for c in a:
                if T.isT(c):
                    for s in memo[c.id]:
                        u = u | s
            r = [u] * w
        memo[x.id] = r
    return memo[t.id]


class GEng(Eng):
    def words_poly(self, dom, ws):
        if isinstance(dom, GDom):
            if all(type(w) is int for w in ws):
                x = dom.decode(ws)
                if x is None:
                    raise Unsupported('unknown constant point')
                return x
            w0 = next(w for w in ws if T.isT(w))
            if w0.op == 'ite':
                c = w0.a[0]
                x = self.words_poly(dom, [self.cof1(w, c, True) for w in ws])
                y = self.words_poly(dom, [self.cof1(w, c, False) for w in ws])
                return self.choose(dom, c, y, x)
            if ws[0] is w0 and w0.op == 'var':
                t = self.tok.get(w0.a[0])
                if t and t[0] is dom:
                    b = w0.a[0][:-2]
                    if all(T.isT(w) and w.op == 'var' and w.a[0] == '%s_%d' % (b, i) for i, w in enumerate(ws)):
                        return t[1]
            raise Unsupported('words of an abstract point are mixed: %s' % str(ws[0])[:60])
        return Eng.words_poly(self, dom, ws)

    def cof1(self, x, c, r):
        while T.isT(x) and x.op == 'ite' and x.a[0] is c:
            x = x.a[1] if r else x.a[2]
        return x

    def new_token(self, dom, poly):
        if isinstance(dom, GDom):
            k = (id(dom), frozenset(poly.m.items()))
            nm = self.bykey.get(k)
            if nm is None:
                self.nt += 1
                nm = self.bykey[k] = 'e%d' % self.nt
                self.tok[nm + '_0'] = (dom, poly)
            return [T.var('%s_%d' % (nm, i), 64) for i in range(dom.n)]
        return Eng.new_token(self, dom, poly)

    def choose(self, dom, c, x, y):
        """y when c else x"""
        if x.m == y.m:
            return x
        if T.isT(c) and c.w > 1:
            c = T.trunc(c, c.w, 1)
        if type(c) is int:
            return y if c & 1 else x
        if not any(v.op == 'var' and (v.a[0] in self.zv or v.a[0] in self.fb) for v in leaf_vars(c)):
            b = self.bits.poly(c)
            if b is not None:
                return self.bits.idem(x + b * (y - x))
        return y if self.bit(c) else x

    def group(self, G, A):
        """intercept the operations of projective points G and affine points A"""
        self.doms += [G, A]
        ex = self.ex
        g, a = re.escape(G.path), re.escape(A.path)
        get, put = self.get, self.put
        AR = r'core::ops::arith::'

        def binop(X, Y, fn, Z=G):
            def h(e, name, ar):
                if len(ar) == 3:
                    put(Z, ar[0], fn(get(X, ar[1]), get(Y, ar[2])))
                else:
                    put(X, ar[0], fn(get(X, ar[0]), get(Y, ar[1])))
            return h
        for op, fn in (('Add', lambda x, y: x + y), ('Sub', lambda x, y: x - y)):
            l = op.lower()
            for X, px in ((G, g), (A, a)):
                for Y, py in ((G, g), (A, a)):
                    arg = r'(<&?%s>)%s' % (py, '?' if X is Y else '')
                    ex.add_hook(r'^<&?%s as %s%s%s>::%s$' % (px, AR, op, arg, l), binop(X, Y, fn))
                    if X is G:
                        ex.add_hook(r'^<%s as %s%sAssign%s>::%s_assign$' % (px, AR, op, arg, l), binop(X, Y, fn))

        def un(X, Z, fn):
            def h(e, name, ar):
                put(Z, ar[0], fn(get(X, ar[1])))
            return h
        for X, px in ((G, g), (A, a)):
            ex.add_hook(r'^<&?%s as %sNeg>::neg$' % (px, AR), un(X, X, lambda x: -x))

            def sel(e, name, ar, X=X):
                put(X, ar[0], self.choose(X, ar[3], get(X, ar[1]), get(X, ar[2])))

            def asg(e, name, ar, X=X):
                put(X, ar[0], self.choose(X, ar[2], get(X, ar[0]), get(X, ar[1])))

            def cneg(e, name, ar, X=X):
                x = get(X, ar[0])
                put(X, ar[0], self.choose(X, ar[1], x, -x))
            ex.add_hook(r'^<%s as subtle::ConditionallySelectable>::conditional_select$' % px, sel)
            ex.add_hook(r'^<%s as subtle::ConditionallySelectable>::conditional_assign$' % px, asg)
            ex.add_hook(r'^<%s as subtle::ConditionallyNegatable>::conditional_negate$' % px, cneg)

            def ident(e, name, ar, X=X):
                put(X, ar[0], X.R.const(0))
            ex.add_hook(r'^<%s as (group::Group|group::prime::PrimeCurveAffine|group::cofactor::CofactorCurveAffine)>::identity$' % px, ident)
            ex.add_hook(r'^<%s>::identity$' % px, ident)
            ex.add_hook(r'^<%s as core::default::Default>::default$' % px, ident)
            ex.add_hook(r'^<%s as (group::Group|group::prime::PrimeCurveAffine|group::cofactor::CofactorCurveAffine)>::is_identity$' % px,
                        lambda e, name, ar, X=X: T.zext(self.zero(get(X, ar[0])), 1, 8))
            ex.add_hook(r'^<%s as subtle::ConstantTimeEq>::ct_eq$' % px, lambda e, n, ar, X=X: T.zext(self.zero(get(X, ar[0]) - get(X, ar[1])), 1, 8))
            ex.add_hook(r'^<%s as core::cmp::PartialEq>::eq$' % px, lambda e, n, ar, X=X: self.zero(get(X, ar[0]) - get(X, ar[1])))
            ex.add_hook(r'^<%s as core::cmp::PartialEq>::ne$' % px, lambda e, n, ar, X=X: T.not_(self.zero(get(X, ar[0]) - get(X, ar[1]))))
        ex.add_hook(r'^<%s as group::Group>::double$' % g, un(G, G, lambda x: x + x))
        ex.add_hook(r'^<%s as core::convert::From<&?%s>>::from$' % (g, a), un(A, G, lambda x: x))
        ex.add_hook(r'^<%s as core::convert::From<&?%s>>::from$' % (a, g), un(G, A, lambda x: x))
        ex.add_hook(r'^<%s as (group::Curve|group::cofactor::CofactorCurve)>::to_affine$' % g, un(G, A, lambda x: x))
        ex.add_hook(r'^<%s as (group::prime::PrimeCurveAffine|group::cofactor::CofactorCurveAffine)>::to_curve$' % a, un(A, G, lambda x: x))

    def fork_ok(self):
        pass


def const_decoder(R, f, k, proj):
    def dec(ws):
        n = f.n * k
        vals = [sum(w << (64 * i) for i, w in enumerate(ws[j * n:(j + 1) * n])) for j in range(3 if proj else 2)]
        if proj and vals[2] == 0 or not proj and not any(vals):
            return R.const(0)
        return None
    return dec


class GS:
    """what the specification of a level-2 operation sees"""
    def __init__(self, eng, R):
        self.eng, self.R = eng, R
        self.pt, self.bits, self.out, self.ret = {}, {}, [], None


class GOp:
    """args: ('outg', n) ('outa', n) points written; ('g', name) ('a', name) points; ('s', name) scalar; ('int', value, bits)
    lin(S): list of expected Polys, in the order of the outputs; conc(c, pts, ks): the expected concrete points"""
    def __init__(self, name, entry, args, lin, conc, ret=None, ring=None, weight=1, maxpaths=256, prep=None, inputs=None):
        self.__dict__.update(name=name, entry=entry, args=args, lin=lin, conc=conc, ret=ret, ring=ring, weight=weight, maxpaths=maxpaths, prep=prep, inputs=inputs)


def scalar_value(S, name):
    """sum of 2^i bit_i over the canonical integer of scalar `name`"""
    r = S.R.const(0)
    for j, w in enumerate(S.words[name]):
        for i in range(64):
            r = r + S.eng.bits.bit(w.a[0], i) * (1 << (64 * j + i))
    return r


def enc_pt(c, P, l=None):
    """memory of a point; projective when a scaling l is given"""
    F, f = c.F, c.f
    e = lambda x: b''.join(f.enc(y) for y in (x if c.k == 2 else (x,)))
    if l is None:
        return e(F.zero) * 2 if P is None else e(P[0]) + e(P[1])
    if P is None:
        return e(F.zero) + e(l) + e(F.zero)
    return e(F.mul(P[0], l)) + e(F.mul(P[1], l)) + e(l)


def dec_pts(c, b, n, proj):
    """list of points, 'bad' for what is no point"""
    f, F = c.f, c.F
    sz = 8 * f.n

    def el(o):
        v = [int.from_bytes(b[o + sz * i:o + sz * i + sz], 'little') for i in range(c.k)]
        if any(x >= f.p for x in v):
            return None
        v = [f.unmont(x) for x in v]
        return v[0] if c.k == 1 else tuple(v)
    r = []
    es = sz * c.k
    for i in range(n):
        m = 3 if proj else 2
        xs = [el(es * (m * i + j)) for j in range(m)]
        if None in xs:
            r.append('bad')
        elif proj:
            if xs[2] == F.zero:
                r.append(None if xs[0] == F.zero and xs[1] != F.zero else 'bad')
            else:
                z = F.inv(xs[2])
                r.append((F.mul(xs[0], z), F.mul(xs[1], z)))
        else:
            r.append(None if xs[0] == F.zero and xs[1] == F.zero else tuple(xs))
    return r


def special_scalars(q, rng):
    t = rng.random()
    nb = q.bit_length()
    if t < 0.25:
        return rng.randrange(q)
    if t < 0.5:
        return rng.choice((0, 1, 2, 3, q - 1, q - 2, (q - 1) // 2, (q + 1) // 2, 1 << (nb - 1), (1 << (nb - 1)) - 1, (1 << 64) - 1, 1 << 64, (1 << 128) - 1, 1 << 128)) % q
    if t < 0.7:
        return (1 << rng.randrange(nb)) % q
    if t < 0.85:
        return sum(1 << rng.randrange(nb) for _ in range(rng.randrange(2, 6))) % q
    return ((1 << rng.randrange(1, nb)) - (1 << rng.randrange(nb))) % q


def g_obligation(mod, so, c, op, sf=None, evals=3, search=400):
    """sf: scalar field (Fld)"""
    sf = sf or c.scalar

    def mk():
        ex = Exec(mod)
        eng = GEng(ex)
        R = Ring(op.ring or BIG)
        eng.bits = Bits(eng, R)
        n = c.f.n * c.k
        G = GDom(eng, c.path, 3 * n, R, const_decoder(R, c.f, c.k, True))
        A = GDom(eng, c.path + 'Affine', 2 * n, R, const_decoder(R, c.f, c.k, False))
        eng.group(G, A)
        sd = Dom(eng, sf, Ring(sf.p))
        eng.field(sd)
        if op.prep:
            op.prep(ex, eng, G, A, sd)
        return ex, eng, G, A, sd

    def symrun(ex, eng, G, A, sd):
        eng.reset()
        R = G.R
        eng.reducers = [eng.bits.idem]
        S = GS(eng, R)
        S.words, S.sc = {}, {}
        args, outs = [], []
        for s in op.args:
            if s[0] in ('outg', 'outa'):
                D = G if s[0] == 'outg' else A
                a = ex.new(D.size * s[1], 'out')
                outs.append((D, a, s[1]))
                args.append(a)
            elif s[0] in ('g', 'a'):
                D = G if s[0] == 'g' else A
                a = ex.new(D.size, s[1])
                S.pt[s[1]] = R.var(s[1])
                eng.put(D, a, S.pt[s[1]])
                args.append(a)
            elif s[0] == 's':
                a = ex.new(sd.size, s[1])
                x = S.sc[s[1]] = sd.R.var(s[1])
                eng.put(sd, a, x)
                S.words[s[1]] = eng.montwords(sd, x)
                args.append(a)
            elif s[0] == 'int':
                args.append(s[1])
        S.ret = ex.call(op.entry, args)
        for D, a, n in outs:
            S.out += [eng.get(D, a + D.size * i) for i in range(n)]
        eng.sync()
        want = op.lin(S)
        goals = [('output %d' % i, eng.bits.idem(eng.reduce(x)), eng.bits.idem(eng.reduce(y))) for i, (x, y) in enumerate(zip(S.out, want))]
        return goals

    def inputs(rng):
        if op.inputs:
            return op.inputs(c, rng)
        pts, ks = {}, {}
        pool = c.pool()
        for s in op.args:
            if s[0] in ('g', 'a'):
                P = rng.choice(pool) if rng.random() < 0.9 else None
                pts[s[1]] = P
            elif s[0] == 's':
                ks[s[1]] = special_scalars(sf.p, rng)
        return pts, ks

    def call(inp, rng):
        pts, ks = inp
        a = []
        for s in op.args:
            if s[0] == 'outg':
                a.append(native.Out(24 * c.f.n * c.k * s[1]))
            elif s[0] == 'outa':
                a.append(native.Out(16 * c.f.n * c.k * s[1]))
            elif s[0] == 'g':
                l = c.F.rnd(rng)
                a.append(native.In(enc_pt(c, pts[s[1]], c.F.one if rng.random() < 0.3 or l == c.F.zero else l)))
            elif s[0] == 'a':
                a.append(native.In(enc_pt(c, pts[s[1]])))
            elif s[0] == 's':
                a.append(native.In(sf.enc(ks[s[1]])))
            elif s[0] == 'int':
                a.append(native.Int(s[1], s[2]))
        return (op.entry, a, op.ret)

    def verdict(inp, r):
        if r[0] == 'skipped':
            return None
        if r[0] != 'ok':
            return 'native run: ' + r[0]
        got = []
        bs = iter(r[2])
        for s in op.args:
            if s[0] in ('outg', 'outa'):
                got += dec_pts(c, next(bs), s[1], s[0] == 'outg')
        want = op.conc(c, *inp)
        for i, (x, y) in enumerate(zip(got, want)):
            if x != y:
                return 'output %d is not the expected point' % i
        return None

    def try_native(rng, n):
        ins = [inputs(rng) for _ in range(n)]
        for inp, r in zip(ins, native.batch(so, [call(i, rng) for i in ins])):
            w = verdict(inp, r)
            if w:
                pts, ks = inp
                return dict(entry=op.entry, violated=w, points={k: str(v) for k, v in pts.items()}, scalars={k: hex(v) for k, v in ks.items()})
        return None

    def run(rec):
        ex, eng, G, A, sd = mk()
        paths = list(explore(lambda: symrun(ex, eng, G, A, sd), ex, op.maxpaths))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        w = try_native(random.Random(3), evals)
        if w:
            raise NotProved(w['violated'], 'native run differs')
        q = eng.bits.query()
        if q:
            rec.prove('interpolation of selections', q, 120)
        for pc, (st, goals) in paths:
            if st == 'panic':
                raise NotProved('panic reachable: %s' % goals[:120], 'sat')
            for what, x, y in goals:
                if not (x - y).is0():
                    raise NotProved(what, 'sat')
            # bits take the values 0/1 and points are arbitrary: the two linear forms have the same coefficients
            for i in range(0, len(goals), 8):
                part = goals[i:i + 8]
                txt = decl([p for _, x, y in part for p in (x, y)]) + '(assert (or %s))\n(check-sat)\n' % ' '.join(
                    '(not (= (mod (- %s %s) %d) 0))' % (x.text(), y.text(), x.R.p) for _, x, y in part)
                rec.prove('; '.join(g[0] for g in part), txt, 120)

    def find(e):
        return try_native(random.Random(11), search)
    o = Ob(op.name, run, find, op.weight, op.entry)
    o.light = True
    return o


def c13(w):
    from .curves import CURVES
    obs = []
    for c in CURVES.values():
        for form, n in (('g', 6), ('a', 4)):
            def lin(S, n=n):
                return [scalar_value(S, 'k') * S.pt['P']] * n

            def conc(c, pts, ks, n=n):
                return [c.mul(pts['P'], ks['k'])] * n
            nm = 'mul' if form == 'g' else 'mul_a'
            op = GOp('%s_%s' % (c.name, nm), '%s_%s' % (c.name, nm), [('outg', n), (form, 'P'), ('s', 'k')], lin, conc)
            obs.append(g_obligation(w.mod(), w.so(), c, op))
    return obs
