"""Curves: reference data, concrete group law and obligations (C11, C12)."""
import random, itertools
from . import terms as T
from .fields import FIELDS
from .rob import ROp, r_obligation, flat, el_poly, el_conc
from .ring import Ring, Poly


class CF:
    """concrete field: ints (k=1) or pairs (k=2, u^2 = beta)"""
    def __init__(self, p, beta=None):
        self.p, self.beta = p, beta
        self.k = 1 if beta is None else 2
        self.q = p ** self.k
        self.zero, self.one = self.of(0), self.of(1)

    def of(self, a, b=0):
        return a % self.p if self.k == 1 else (a % self.p, b % self.p)

    def add(self, a, b):
        p = self.p
        return (a + b) % p if self.k == 1 else ((a[0] + b[0]) % p, (a[1] + b[1]) % p)

    def sub(self, a, b):
        p = self.p
        return (a - b) % p if self.k == 1 else ((a[0] - b[0]) % p, (a[1] - b[1]) % p)

    def neg(self, a):
        return self.sub(self.zero, a)

    def mul(self, a, b):
        p = self.p
        if self.k == 1:
            return a * b % p
        return ((a[0] * b[0] + self.beta * a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)

    def sqr(self, a):
        return self.mul(a, a)

    def inv(self, a):
        p = self.p
        if self.k == 1:
            return pow(a, -1, p)
        n = pow(a[0] * a[0] - self.beta * a[1] * a[1], -1, p)
        return (a[0] * n % p, -a[1] * n % p)

    def pow(self, a, e):
        if self.k == 1:
            return pow(a, e, self.p)
        r = self.one
        for c in bin(e)[2:]:
            r = self.sqr(r)
            if c == '1':
                r = self.mul(r, a)
        return r

    def rnd(self, rng):
        return self.of(rng.randrange(self.p), rng.randrange(self.p))

    def is_sq(self, a):
        if a == self.zero:
            return True
        if self.k == 2:
            return pow(a[0] * a[0] - self.beta * a[1] * a[1], (self.p - 1) // 2, self.p) in (0, 1)
        return pow(a, (self.p - 1) // 2, self.p) == 1

    def sqrt(self, a):
        """a square root or None (Cipolla over F_p; norms for the extension)"""
        p = self.p
        if not self.is_sq(a):
            return None
        if self.k == 1:
            a %= p
            if a == 0:
                return 0
            if p % 4 == 3:
                return pow(a, (p + 1) // 4, p)
            t = 1
            while pow(t * t - a, (p - 1) // 2, p) != p - 1:
                t += 1
            E = CF(p, (t * t - a) % p)
            return E.pow((t, 1), (p + 1) // 2)[0]
        B = CF(p)
        if a[1] == 0:
            s = B.sqrt(a[0])
            if s is not None:
                return (s, 0)
            return (0, B.sqrt(a[0] * pow(self.beta, -1, p) % p))
        n = B.sqrt((a[0] * a[0] - self.beta * a[1] * a[1]) % p)
        h = pow(2, -1, p)
        d = (a[0] + n) * h % p
        if not B.is_sq(d):
            d = (a[0] - n) * h % p
        x = B.sqrt(d)
        return (x, a[1] * h * pow(x, -1, p) % p)


class Crv:
    def __init__(self, name, fld, beta, a, b, order, scalar, path):
        self.name, self.f, self.beta, self.order, self.scalar, self.path = name, FIELDS[fld], beta, order, FIELDS[scalar], path
        self.F = CF(self.f.p, beta)
        self.k = self.F.k
        self.a, self.b = self.F.of(*a) if isinstance(a, tuple) else self.F.of(a), self.F.of(*b) if isinstance(b, tuple) else self.F.of(b)
        self._pool = None

    def rhs(self, x):
        F = self.F
        return F.add(F.mul(F.add(F.sqr(x), self.a), x), self.b)

    def neg(self, P):
        return P if P is None else (P[0], self.F.neg(P[1]))

    def add(self, P, Q):
        F = self.F
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == F.zero:
                return None
            l = F.mul(F.add(F.mul(F.of(3), F.sqr(P[0])), self.a), F.inv(F.add(P[1], P[1])))
        else:
            l = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
        x = F.sub(F.sub(F.sqr(l), P[0]), Q[0])
        return (x, F.sub(F.mul(l, F.sub(P[0], x)), P[1]))

    def mul(self, P, n):
        if n < 0:
            return self.mul(self.neg(P), -n)
        R = None
        for c in bin(n)[2:]:
            R = self.add(R, R)
            if c == '1':
                R = self.add(R, P)
        return R

    def on(self, P):
        return P is None or self.F.sqr(P[1]) == self.rhs(P[0])

    def lift(self, x, flip=0):
        y = self.F.sqrt(self.rhs(x))
        if y is None:
            return None
        return (x, self.F.neg(y) if flip else y)

    def random(self, rng):
        while True:
            P = self.lift(self.F.rnd(rng), rng.getrandbits(1))
            if P:
                return P

    def pool(self):
        """points of the curve, some of them special"""
        if self._pool is None:
            rng = random.Random(5)
            L = [self.random(rng) for _ in range(6)]
            for x in range(6):
                for P in (self.lift(self.F.of(x)), self.lift(self.F.of(-x))):
                    if P:
                        L.append(P)
            if self.k == 2:
                for _ in range(4):
                    for x in (self.F.of(0, rng.randrange(self.f.p)), self.F.of(rng.randrange(self.f.p), 0)):
                        P = self.lift(x)
                        if P:
                            L.append(P)
            L += [self.add(L[0], L[0]), self.add(L[0], L[1])]
            z = self.zeta()
            if self.a == self.F.zero:
                L += [(self.F.mul(z, P[0]), P[1]) for P in L[:3]]
            self._pool = L
        return self._pool

    def zeta(self):
        F = self.F
        x = 2
        while True:
            z = F.pow(F.of(x), (F.q - 1) // 3)
            if z != F.one:
                return z
            x += 1

    def no2torsion(self):
        """x^3 + a x + b has no root in the field"""
        F = self.F
        if self.a == F.zero:
            return F.pow(F.neg(self.b), (F.q - 1) // 3) != F.one
        # x^q mod f, then gcd with f
        f = [self.b, self.a, F.zero, F.one]

        def mulmod(u, v):
            r = [F.zero] * 5
            for i, a in enumerate(u):
                for j, b in enumerate(v):
                    r[i + j] = F.add(r[i + j], F.mul(a, b))
            for d in (4, 3):
                c = r[d]
                for i in range(4):
                    r[d - 3 + i] = F.sub(r[d - 3 + i], F.mul(c, f[i]))
            return r[:3]
        x = [F.zero, F.one, F.zero]
        r = [F.one, F.zero, F.zero]
        for c in bin(F.q)[2:]:
            r = mulmod(r, r)
            if c == '1':
                r = mulmod(r, x)
        g = [F.sub(a, b) for a, b in zip(r, x)]
        a, b = f, g
        while True:
            while b and b[-1] == F.zero:
                b = b[:-1]
            if not b:
                return len(a) == 1
            while len(a) >= len(b):
                if a[-1] != F.zero:
                    c = F.mul(a[-1], F.inv(b[-1]))
                    s = len(a) - len(b)
                    a = a[:s] + [F.sub(a[s + i], F.mul(c, b[i])) for i in range(len(b))]
                a = a[:-1]
            a, b = b, a


BN_P, BN_R = FIELDS['bn256_fq'].p, FIELDS['bn256_fr'].p
_bnF2 = CF(BN_P, -1)
_b2 = _bnF2.mul(_bnF2.of(3), _bnF2.inv((9, 1)))
PE_P, PE_Q = FIELDS['pe_fp'].p, FIELDS['pe_fq'].p
C = 'halo2curves::'
CURVES = {c.name: c for c in [
    Crv('bn_g1', 'bn256_fq', None, 0, 3, BN_R, 'bn256_fr', C + 'bn256::curve::G1'),
    Crv('bn_g2', 'bn256_fq', -1, 0, _b2, BN_R, 'bn256_fr', C + 'bn256::curve::G2'),
    Crv('grumpkin', 'bn256_fr', None, 0, -17, BN_P, 'bn256_fq', C + 'grumpkin::curve::G1'),
    Crv('bls_g1', 'bls_fq', None, 0, 4, FIELDS['bls_fr'].p, 'bls_fr', C + 'bls12381::g1::G1'),
    Crv('bls_g2', 'bls_fq', -1, 0, (4, 4), FIELDS['bls_fr'].p, 'bls_fr', C + 'bls12381::g2::G2'),
    Crv('k1', 'k1_fp', None, 0, 7, FIELDS['k1_fq'].p, 'k1_fq', C + 'secp256k1::curve::Secp256k1'),
    Crv('secq', 'k1_fq', None, 0, 7, FIELDS['k1_fp'].p, 'k1_fp', C + 'secq256k1::curve::Secq256k1'),
    Crv('r1', 'r1_fp', None, -3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b, FIELDS['r1_fq'].p, 'r1_fq', C + 'secp256r1::curve::Secp256r1'),
    Crv('pluto', 'pe_fp', None, 0, 57, PE_Q, 'pe_fq', C + 'pluto_eris::curve::G1'),
    Crv('eris', 'pe_fq', None, 0, 57, PE_P, 'pe_fp', C + 'pluto_eris::curve::Eris'),
    Crv('triton', 'pe_fp', -5, 0, (3, 1), PE_Q, 'pe_fq', C + 'pluto_eris::curve::G2'),
]}


# ---- obligations over points
def poly2(c, R, x):
    return el_poly(R, x)


class PI:
    """symbolic description of the input points of one case.
    kinds: per point 'P' (affine point), 'O' (identity), '=i' (same affine point as point i), '-i' (its opposite)"""
    def __init__(self, c, kinds, forms, distinct=()):
        self.c, self.kinds, self.forms, self.distinct = c, kinds, forms, distinct
        self.sig = []
        for i, (k, fm) in enumerate(zip(kinds, forms)):
            if k == 'P':
                self.sig += [('var', 'x%d' % i, 1), ('var', 'y%d' % i, 1)]
            if fm == 'g':
                self.sig.append(('var', 'l%d' % i, 1))

    def pt(self, S, i):
        k = self.kinds[i]
        if k == 'P':
            return (S.inp['x%d' % i][0], S.inp['y%d' % i][0])
        if k == 'O':
            return None
        P = self.pt(S, int(k[1:]))
        if P is None or k[0] == '=':
            return P
        return (P[0], -P[1])

    def arg(self, i):
        fm = self.forms[i]

        def fn(S):
            P = self.pt(S, i)
            if fm == 'a':
                return list(P) if P else [S.const(0), S.const(0)]
            l = S.inp['l%d' % i][0]
            return [P[0] * l, P[1] * l, l] if P else [S.const(0), l, S.const(0)]
        return ('inx', fn, 3 if fm == 'g' else 2)

    def hyps(self, S):
        e, R = S.eng, S.R
        red = []
        for i, (k, fm) in enumerate(zip(self.kinds, self.forms)):
            if k == 'P':
                x, y = S.inp['x%d' % i][0], S.inp['y%d' % i][0]
                rhs = (x * x + el_poly(R, self.c.a)) * x + el_poly(R, self.c.b)
                red.append((R.vid('y%d0' % i), rhs))
            if fm == 'g':
                e.assume(S.inp['l%d' % i][0], False)
        e.reducers = [ysq(v, r) for v, r in red]
        for i, k in enumerate(self.kinds):
            if k == 'P':
                e.assume(S.inp['y%d' % i][0], False)      # no 2-torsion
        for i, j in self.distinct:
            e.assume(S.inp['x%d' % i][0] - S.inp['x%d' % j][0], False)

    def gen(self, op, f, rng, count):
        c, F = self.c, self.c.F
        pool = c.pool()
        sv = [F.one, F.neg(F.one), F.of(2), F.inv(F.of(2))]
        for t in range(count):
            v = {}
            pts = []
            for i, k in enumerate(self.kinds):
                if k == 'P':
                    while True:
                        P = rng.choice(pool)
                        m = rng.random()
                        if m < 0.3:
                            P = c.add(P, rng.choice(pool))
                        if P is None:
                            continue
                        if rng.random() < 0.5:
                            P = c.neg(P)
                        if t % 7 == 0 and pts and c.a == F.zero and pts[0]:
                            P = (F.mul(pts[0][0], c.zeta()), pts[0][1] if t % 2 else F.neg(pts[0][1]))
                        if all(not pts[j] or pts[j][0] != P[0] for j in range(i) if (i, j) in self.distinct or (j, i) in self.distinct):
                            break
                    v['x%d' % i], v['y%d' % i] = [P[0]], [P[1]]
                    pts.append(P)
                else:
                    pts.append(None)
                if self.forms[i] == 'g':
                    while True:
                        l = F.rnd(rng) if rng.random() < 0.6 else rng.choice(sv)
                        if l != F.zero:
                            break
                    v['l%d' % i] = [l]
            for s in op.sig:
                if s[0] == 'sint':
                    v[s[1]] = rng.getrandbits(1)
            yield v


def ysq(i, rhs):
    def h(x):
        if x.R is not rhs.R or x.degree_in(i) < 2:
            return x
        r = x.R.const(0)
        yv = Poly(x.R, {1 << (10 * i): 1}, 1)
        for e, c in x.coeffs(i).items():
            t = c * rhs ** (e >> 1)
            r = r + (t * yv if e & 1 else t)
        return r
    return h


def nonvanish(S, what, p, facs):
    """p is a constant times a product of polynomials known not to vanish"""
    e = S.eng
    p = e.reduce(e.clear(e.reduce(p)))
    if p.is0():
        S.check(what, False)
        return
    if S.zero(p) is False:
        return
    fs = e.monomial_factors(p)
    mono = S.const(1)
    if fs:
        for v in fs:
            if len(v.m) == 1 and not v.isconst():
                if S.zero(v) is not False:
                    S.check(what + ' (a factor may vanish)', False)
                    return
        rest = [v for v in fs if len(v.m) > 1]
        q = rest[0] if rest else S.const(1)
    else:
        q = p
    if q.isconst():
        return
    key = q.key()
    facs = [e.reduce(x) for x in facs] + [e.reduce(y) for y in e.nz if y.R is p.R and len(y.m) > 1]
    facs = [x for x in facs if not x.isconst()]
    uniq = {}
    for x in facs:
        uniq.setdefault(x.key(), x)
    facs = list(uniq.values())
    for tot in range(1, 5):
        for comb in itertools.combinations_with_replacement(facs, tot):
            m = comb[0]
            for x in comb[1:]:
                m = m * x
            m = e.reduce(m)
            f2 = e.monomial_factors(m)
            if f2:
                r2 = [v for v in f2 if len(v.m) > 1]
                m = r2[0] if r2 else S.const(1)
            if not m.isconst() and m.key() == key:
                kmax = max(m.m)
                S.eq(what, q * m.m[kmax], m * q.m[kmax]) if S.R.beta is None else S.check(what, True)
                return
    S.check(what, False)


def case(S, P, Q):
    """relation between two described points on this case: decided from polynomials"""
    if P is None or Q is None:
        return 'P' if Q is None else 'Q'
    if (P[0] - Q[0]).is0():
        return 'dbl' if (P[1] - Q[1]).is0() else 'opp'
    return 'gen'


def is_point(S, what, out, P):
    """projective out represents the described point P (None: identity)"""
    X, Y, Z = out
    if P is None:
        S.eq(what + ': X', X, S.const(0))
        S.eq(what + ': Z', Z, S.const(0))
        if S.symbolic:
            nonvanish(S, what + ': Y is not 0', Y, S.facs)
        else:
            S.check(what + ': Y is not 0', not Y.is0())
        return
    S.eq(what + ': X = x Z', X, P[0] * Z)
    S.eq(what + ': Y = y Z', Y, P[1] * Z)
    if S.symbolic:
        nonvanish(S, what + ': Z is not 0', Z, S.facs)
    else:
        S.check(what + ': Z is not 0', not Z.is0())


def poly_pt(R, P):
    return None if P is None else (el_poly(R, P[0]), el_poly(R, P[1]))


def is_sum(S, c, what, out, P, Q):
    X, Y, Z = out
    if not S.symbolic:
        a = [None if p is None else tuple(el_conc(c.k, x) for x in p) for p in (P, Q)]
        is_point(S, what, out, poly_pt(S.R, c.add(*a)))
        return
    k = case(S, P, Q)
    S.facs = [A[1] for A in (P, Q) if A]
    if k == 'P':
        return is_point(S, what, out, P)
    if k == 'Q':
        return is_point(S, what, out, Q)
    a = el_poly(S.R, c.a)
    x1, y1 = P
    n2, d2 = x1 * x1 * 3 + a, y1 * 2
    t = n2 * n2 - x1 * d2 * d2 * 2
    D2 = n2 * (x1 * d2 * d2 - t) - y1 * d2 * d2 * d2      # 8 y^3 y(2P)
    if k == 'opp':
        S.facs = [y1, D2]
        return is_point(S, what, out, None)
    x2, y2 = Q
    if k == 'dbl':
        d, n, s = d2, n2, x1 * 2
        S.facs = [y1, D2]
    else:
        d, n, s = x2 - x1, y2 - y1, x1 + x2
        m = -y2 - y1
        D = m * (x1 * d * d - (m * m - s * d * d)) - y1 * d * d * d     # d^3 y(P-Q)
        S.facs = [d, D, y1, y2]
    t = n * n - s * d * d
    S.eq(what + ': X', X * d * d, Z * t)
    S.eq(what + ': Y', Y * d * d * d, Z * (n * (x1 * d * d - t) - y1 * d * d * d))
    nonvanish(S, what + ': Z is not 0', Z, S.facs)


def pts(xs, k=3):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def opp(P):
    return None if P is None else (P[0], -P[1])


def cop(c, name, entry, pi, nout, spec, outk=3, extra=(), **kw):
    sig = ([('out', nout * outk)] if nout else []) + list(extra) + pi.sig + [pi.arg(i) for i in range(len(pi.kinds))]
    return ROp('%s_%s' % (c.name, name), '%s_%s' % (c.name, entry), sig, spec, hyps=pi.hyps, gen=pi.gen, k=c.k, beta=c.beta, along=False, search=1500, **kw)


PAIRS = [('gen', ['P', 'P'], ((0, 1),)), ('eq', ['P', '=0'], ()), ('opp', ['P', '-0'], ()), ('PO', ['P', 'O'], ()), ('OQ', ['O', 'P'], ()), ('OO', ['O', 'O'], ())]


def group_ops(c):
    L = []

    def pair(entry, forms, sub, nout):
        for nm, kinds, dist in PAIRS:
            pi = PI(c, kinds, forms, dist)

            def spec(S, pi=pi):
                P, Q = pi.pt(S, 0), pi.pt(S, 1)
                if sub:
                    Q = opp(Q)
                os = pts(S.out[0])
                is_sum(S, c, entry, os[0], P, Q)
                for j, o in enumerate(os[1:]):
                    if all((a - b).is0() for a, b in zip(o, os[0])):
                        continue
                    is_sum(S, c, entry + '#%d' % (j + 1), o, P, Q)
            L.append(cop(c, entry + '#' + nm, entry, pi, nout, spec, weight=3 if nm == 'gen' else 1))
    pair('add', 'gg', False, 6)
    pair('sub', 'gg', True, 6)
    pair('add_pa', 'ga', False, 10)
    pair('sub_pa', 'ga', True, 6)
    pair('sub_ap', 'ag', True, 4)
    pair('add_aa', 'aa', False, 4)
    pair('sub_aa', 'aa', True, 4)
    pair('sum2', 'gg', False, 2)
    for kind in 'PO':
        pi = PI(c, [kind], 'g')

        def dbl(S, pi=pi):
            P = pi.pt(S, 0)
            is_sum(S, c, 'double', S.out[0], P, P)

        def neg(S, pi=pi):
            S.facs = []
            for j, o in enumerate(pts(S.out[0])):
                is_point(S, 'neg#%d' % j, o, opp(pi.pt(S, 0)))
        L.append(cop(c, 'dbl#' + kind, 'dbl', pi, 1, dbl))
        L.append(cop(c, 'neg#' + kind, 'neg', pi, 2, neg))
        pa = PI(c, [kind], 'a')

        def nega(S, pa=pa):
            P = pa.pt(S, 0)
            for j, o in enumerate(pts(S.out[0], 2)):
                S.eq('neg_a#%d' % j, o, list(opp(P)) if P else [0, 0])
        L.append(cop(c, 'neg_a#' + kind, 'neg_a', pa, 2, nega, outk=2))

    def consts(S):
        g, a = pts(S.out[0]), pts(S.out[1], 2)
        for j in (0, 1):
            S.eq('identity#%d: X, Z' % j, [g[j][0], g[j][2]], [0, 0])
            S.check('identity#%d: Y' % j, not g[j][1].is0())
        for j in (0, 1, 4):
            S.eq('affine identity#%d' % j, a[j], [0, 0])
    L.append(ROp(c.name + '_consts', c.name + '_consts', [('out', 12), ('out', 12)], consts, ret='u8', k=c.k, beta=c.beta, along=False, search=3))
    return L


def c11(w):
    obs = []
    for c in CURVES.values():
        if not c.no2torsion():
            raise Exception('2-torsion on ' + c.name)
        for op in group_ops(c):
            obs.append(r_obligation(w.mod(), w.so(), c.f, op, evals=3))
    return obs


# ---- C12
def aff_is(S, what, o, P):
    S.eq(what, list(o), list(P) if P else [S.const(0), S.const(0)])


def conv_ops(c):
    L = []
    for kind in 'PO':
        pi = PI(c, [kind], 'g')

        def toaff(S, pi=pi):
            for j, o in enumerate(pts(S.out[0], 2)):
                aff_is(S, 'to_affine#%d' % j, o, pi.pt(S, 0))
        L.append(cop(c, 'to_affine#' + kind, 'to_affine', pi, 3, toaff, outk=2))
        pa = PI(c, [kind], 'a')

        def tocurve(S, pa=pa):
            S.facs = []
            for j, o in enumerate(pts(S.out[0])):
                is_point(S, 'to_curve#%d' % j, o, pa.pt(S, 0))
        L.append(cop(c, 'to_curve#' + kind, 'to_curve', pa, 4, tocurve))

        def jac(S, pi=pi):
            X, Y, Z = S.out[0]
            P = pi.pt(S, 0)
            if P is None:
                S.eq('jacobian coordinates of the identity: Z', Z, S.const(0))
                return
            S.eq('jacobian X = x Z^2', X, P[0] * Z * Z)
            S.eq('jacobian Y = y Z^3', Y, P[1] * Z * Z * Z)
            S.facs = []
            if S.symbolic:
                nonvanish(S, 'jacobian Z is not 0', Z, [])
            else:
                S.check('jacobian Z is not 0', not Z.is0())
        L.append(cop(c, 'jacobian#' + kind, 'jacobian', pi, 1, jac))
        L.append(cop(c, 'is_identity#' + kind, 'is_identity', pi, 0, lambda S, kind=kind: S.check('is_identity', S.ret == int(kind == 'O')), ret='u8'))
        L.append(cop(c, 'is_identity_a#' + kind, 'is_identity_a', pa, 0, lambda S, kind=kind: S.check('is_identity', S.ret == (3 if kind == 'O' else 0)), ret='u8'))

        def coords(S, pa=pa):
            P = pa.pt(S, 0)
            if P is None:
                return      # identity: unspecified
            S.check('coordinates exist', S.ret == 1)
            if S.ret:
                S.eq('coordinates', S.out[0], list(P))
        L.append(cop(c, 'coordinates#' + kind, 'coordinates', pa, 1, coords, outk=2, ret='u8'))
    for nm, kinds, dist in PAIRS + [('any', ['P', 'P'], ())]:
        for forms, entry in (('gg', 'eq'), ('aa', 'eq_a')):
            pi = PI(c, kinds, forms, dist)

            def eqs(S, pi=pi, nm=nm):
                same = {'gen': False, 'eq': True, 'opp': False, 'PO': False, 'OQ': False, 'OO': True}.get(nm)
                if same is None:
                    P, Q = pi.pt(S, 0), pi.pt(S, 1)
                    z = [S.zero(P[0] - Q[0]), S.zero(P[1] - Q[1])]
                    same = False if False in z else (True if z == [True, True] else None)
                S.check('equality', same is not None and S.ret == (3 if same else 12))
            L.append(cop(c, entry + '#' + nm, entry, pi, 0, eqs, ret='u8'))

    def onc(S, X, Y, Z):
        a, b = el_poly(S.R, c.a), el_poly(S.R, c.b)
        return S.zero(Z * Y * Y - X * X * X - a * X * Z * Z - b * Z * Z * Z)
    one = lambda S: S.const(1)

    def on_curve(S):
        X, Y, Z = S.inp['p']
        if S.zero(Y) is True and S.zero(Z) is True:
            # (x, 0, 0) satisfies Z Y^2 = X^3 + a X Z^2 + b Z^3 only for x = 0, and (0, 0, 0) is no point
            S.check('(x, 0, 0) is refused', S.ret == 0)
            return
        e = onc(S, X, Y, Z)
        if e is False:
            S.check('a point off the curve is refused', S.ret == 0)
        elif e is True:
            # Z Y^2 = X^3 + a X Z^2 + b Z^3; (0, 0, 0) is no point
            if S.zero(Z) is False or S.zero(Y) is False:
                S.check('a point of the curve is accepted', S.ret == 1)
            else:
                S.check('membership depends on more than was tested', False)
        else:
            S.check('membership depends on the curve equation', False)
    G = lambda k: gen_coords(c, k)
    kw = dict(ret='u8', k=c.k, beta=c.beta, along=False, search=3000)
    L.append(ROp(c.name + '_on_curve', c.name + '_on_curve', [('in', 'p', 3)], on_curve, gen=G(3), **kw))

    def on_curve_a(S):
        x, y = S.inp['p']
        want = member(S, x, y)
        S.check('affine membership', want is not None and S.ret == int(want))

    def member(S, x, y):
        z = [S.zero(x), S.zero(y)]
        e = onc(S, x, y, one(S))
        if z == [True, True]:
            return True
        return e

    def from_xy(S, io=0):
        x, y = S.inp['x'] + S.inp['y'] if 'x' in S.inp else S.inp['p']
        want = member(S, x, y)
        S.check('accepted exactly on the curve', want is not None and S.ret == int(want))
        if S.ret:
            S.eq('coordinates kept', S.out[0], [x, y])
    L.append(ROp(c.name + '_on_curve_a', c.name + '_on_curve_a', [('in', 'p', 2)], on_curve_a, gen=G(2), **kw))
    L.append(ROp(c.name + '_from_xy', c.name + '_from_xy', [('out', 2), ('in', 'x', 1), ('in', 'y', 1)], from_xy, gen=gen_xy(c), **kw))
    L.append(ROp(c.name + '_coordinates', c.name + '_coordinates', [('out', 2), ('in', 'p', 2)], coords_any(member), gen=G(2), **kw))

    def new_jac(S):
        X, Y, Z = S.inp['p']
        z = S.zero(Z)
        if z is True:
            S.check('Z = 0 denotes the identity', S.ret == 1)
            if S.ret:
                o = S.out[0]
                S.eq('Z = 0 denotes the identity', [o[0], o[2]], [0, 0])
                S.check('Z = 0 denotes the identity', S.zero(o[1]) is False)
            return
        a, b = el_poly(S.R, c.a), el_poly(S.R, c.b)
        Z2 = Z * Z
        e = S.zero(Y * Y - X * X * X - a * X * Z2 * Z2 - b * Z2 * Z2 * Z2)
        S.check('accepted exactly on the curve', z is False and e is not None and S.ret == int(e))
        if S.ret:
            o = S.out[0]
            S.eq('X', o[0] * Z2, X * o[2])
            S.eq('Y', o[1] * Z2 * Z, Y * o[2])
            S.check('Z not 0', S.zero(o[2]) is False)
    L.append(ROp(c.name + '_new_jacobian', c.name + '_new_jacobian', [('out', 3), ('in', 'p', 3)], new_jac, gen=gen_jac(c), **kw))

    def sel(S):
        S.eq('select', S.out[0], S.inp['q' if S.inp['c'] else 'p'])
    for n, k in (('select', 3), ('select_a', 2)):
        L.append(ROp(c.name + '_' + n, c.name + '_' + n, [('out', k), ('in', 'p', k), ('in', 'q', k), ('sint', 'c', 1)], sel, gen=gen_two(c, k), k=c.k, beta=c.beta, along=False, search=500))
    for n in (0, 1, 2, 3):
        for kinds in itertools.product('PO', repeat=n):
            pi = PI(c, list(kinds), 'g' * n)

            def bat(S, pi=pi, n=n):
                if n:
                    for j, o in enumerate(pts(S.out[0], 2)):
                        aff_is(S, 'batch_normalize[%d]' % j, o, pi.pt(S, j))
            L.append(cop(c, 'batch%d#%s' % (n, ''.join(kinds)), 'batch%d' % n, pi, n, bat, outk=2))
    return L


def coords_any(member):
    def spec(S):
        x, y = S.inp['p']
        want = member(S, x, y)
        if want is True and S.zero(x) is True and S.zero(y) is True:
            return
        S.check('accepted exactly on the curve', want is not None and S.ret == int(want))
        if S.ret:
            S.eq('coordinates kept', S.out[0], [x, y])
    return spec


def some_coords(c, rng, k):
    F = c.F
    t = rng.random()
    P = rng.choice(c.pool())
    if k == 2:
        v = [P[0], P[1]]
    else:
        l = rng.choice([F.one, F.rnd(rng), F.zero])
        v = [F.mul(P[0], l), F.mul(P[1], l), l] if rng.random() < 0.8 else [F.zero, F.rnd(rng), F.zero]
    if t < 0.4:
        i = rng.randrange(k)
        v[i] = rng.choice([F.zero, F.one, F.rnd(rng), F.neg(v[i]), F.add(v[i], F.one)] + ([F.mul(v[i], c.zeta())] if i == 0 else []))
    elif t < 0.6:
        v = [rng.choice([F.zero, F.one, F.neg(F.one), F.rnd(rng)]) for _ in range(k)]
    return v


def gen_coords(c, k):
    def gen(op, f, rng, count):
        for _ in range(count):
            yield {'p': some_coords(c, rng, k)}
    return gen


def gen_xy(c):
    def gen(op, f, rng, count):
        for _ in range(count):
            x, y = some_coords(c, rng, 2)
            yield {'x': [x], 'y': [y]}
    return gen


def gen_jac(c):
    def gen(op, f, rng, count):
        F = c.F
        for _ in range(count):
            v = some_coords(c, rng, 2)
            l = rng.choice([F.one, F.rnd(rng), F.rnd(rng), F.zero])
            yield {'p': [F.mul(v[0], F.sqr(l)), F.mul(v[1], F.mul(l, F.sqr(l))), l] if rng.random() < 0.8 else some_coords(c, rng, 3)}
    return gen


def gen_two(c, k):
    def gen(op, f, rng, count):
        for _ in range(count):
            yield {'p': some_coords(c, rng, k), 'q': some_coords(c, rng, k), 'c': rng.getrandbits(1)}
    return gen


def c12(w):
    return [r_obligation(w.mod(), w.so(), c.f, op, evals=12 if 'curve' in op.entry else 4) for c in CURVES.values() for op in conv_ops(c)]
