"""Extension towers: Python definition and obligations (C08, C09)."""
from .fields import FIELDS
from . import terms as T
from .rob import ROp, r_obligation, flat
from .ring import Poly


class Tw:
    def __init__(self, name, f, beta, xi, paths):
        self.name, self.f, self.beta, self.xi, self.paths = name, f, beta, xi, paths


TOWERS = {
    'bn': Tw('bn', FIELDS['bn256_fq'], -1, (9, 1), 'bn256'),
    'bls': Tw('bls', FIELDS['bls_fq'], -1, (1, 1), 'bls12381'),
    'pe': Tw('pe', FIELDS['pe_fp'], -5, None, 'pluto_eris'),
}
# pluto: v^3 = 57/(u+3), u^2 = -5:  57/(u+3) = 57(3-u)/14
_p = TOWERS['pe'].f.p
_c = 57 * pow(14, -1, _p) % _p
TOWERS['pe'].xi = (3 * _c % _p, -_c % _p)


# generic arithmetic: an element is nested tuples of anything with + - * (Polys or ints)
def add(a, b):
    return tuple(add(x, y) for x, y in zip(a, b)) if isinstance(a, tuple) else a + b


def sub(a, b):
    return tuple(sub(x, y) for x, y in zip(a, b)) if isinstance(a, tuple) else a - b


def neg(a):
    return tuple(neg(x) for x in a) if isinstance(a, tuple) else a * -1


def mul2(t, a, b):
    return (a[0] * b[0] + a[1] * b[1] * t.beta, a[0] * b[1] + a[1] * b[0])


def xi2(t, a):
    return mul2(t, a, t.xi)


def mul6(t, a, b):
    r = [None] * 5
    for i in range(3):
        for j in range(3):
            x = mul2(t, a[i], b[j])
            r[i + j] = x if r[i + j] is None else add(r[i + j], x)
    return (add(r[0], xi2(t, r[3])), add(r[1], xi2(t, r[4])), r[2])


def v6(t, a):
    return (xi2(t, a[2]), a[0], a[1])


def mul12(t, a, b):
    return (add(mul6(t, a[0], b[0]), v6(t, mul6(t, a[1], b[1]))), add(mul6(t, a[0], b[1]), mul6(t, a[1], b[0])))


MUL = {2: mul2, 6: mul6, 12: mul12}


def shape(k, xs):
    xs = list(xs)
    if k == 1:
        return xs[0]
    if k == 2:
        return (xs[0], xs[1])
    if k == 6:
        return tuple(shape(2, xs[2 * i:2 * i + 2]) for i in range(3))
    return tuple(shape(6, xs[6 * i:6 * i + 6]) for i in range(2))


def nonres(t, k, a):
    if k == 2:
        return xi2(t, a)     # the crate's Fq2::mul_by_nonresidue multiplies by the sextic non-residue
    if k == 6:
        return v6(t, a)
    return None


def modp(t, a):
    return tuple(modp(t, x) for x in a) if isinstance(a, tuple) else a % t.f.p


def powi(t, k, a, e):
    """concrete power"""
    r = shape(k, [1] + [0] * (k - 1))
    for c in bin(e)[2:]:
        r = modp(t, MUL[k](t, r, r))
        if c == '1':
            r = modp(t, MUL[k](t, r, a))
    return r


_fro = {}


def frob_basis(t, k, n):
    """images of the basis elements under x -> x^(p^n)"""
    n %= k
    key = (t.name, k, n)
    if key not in _fro:
        if n == 0:
            r = [shape(k, [int(i == j) for j in range(k)]) for i in range(k)]
        elif n == 1:
            r = [powi(t, k, shape(k, [int(i == j) for j in range(k)]), t.f.p) for i in range(k)]
        else:
            b1, bn = frob_basis(t, k, 1), frob_basis(t, k, n - 1)
            r = []
            for x in bn:
                s = shape(k, [0] * k)
                for c, y in zip(flat(x), b1):
                    s = add(s, scal(c, y))
                r.append(modp(t, s))
        _fro[key] = r
    return _fro[key]


def scal(c, a):
    return tuple(scal(c, x) for x in a) if isinstance(a, tuple) else a * c


def frob(t, k, a, n):
    s = None
    for x, y in zip(flat(a), frob_basis(t, k, n)):
        z = shape(k, [x * c for c in flat(y)])
        s = z if s is None else add(s, z)
    return s


def norm2(t, a):
    return a[0] * a[0] - a[1] * a[1] * t.beta


def many(S, what, k, o, exp, start=0):
    """every element in output list o equals exp"""
    for j in range(start, len(o) // k):
        S.eq('%s#%d' % (what, j), o[j * k:(j + 1) * k], list(flat(exp)))


def allzero(S, xs):
    r = 1
    for x in flat(xs):
        r = T.and_(r, S.eng.zero(x), 1)
    return r


def ring_ops(t, k):
    n = '%s_fq%d' % (t.name, k) if t.name != 'pe' else 'pe_fp%d' % k
    I = lambda x: ('in', x, k)
    sh = lambda xs: shape(k, xs)
    L = []

    def op(name, sig, spec, **kw):
        L.append(ROp('%s_%s' % (n, name), '%s_%s' % (n, name.split('#')[0]), sig, spec, **kw))
    a = lambda S, x='a': sh(S.inp[x])
    op('add', [('out', 7 * k), I('a'), I('b')], lambda S: many(S, 'a+b', k, S.out[0], add(a(S), a(S, 'b'))))
    op('sub', [('out', 7 * k), I('a'), I('b')], lambda S: many(S, 'a-b', k, S.out[0], sub(a(S), a(S, 'b'))))
    op('mul', [('out', 8 * k), I('a'), I('b')], lambda S: many(S, 'a*b', k, S.out[0], MUL[k](t, a(S), a(S, 'b'))), weight=k)
    op('neg', [('out', 3 * k), I('a')], lambda S: many(S, '-a', k, S.out[0], neg(a(S))))
    op('dbl', [('out', 2 * k), I('a')], lambda S: many(S, '2a', k, S.out[0], add(a(S), a(S))))
    op('sqr', [('out', 3 * k), I('a')], lambda S: many(S, 'a^2', k, S.out[0], MUL[k](t, a(S), a(S))))
    if k < 12:
        op('cube', [('out', k), I('a')], lambda S: many(S, 'a^3', k, S.out[0], MUL[k](t, a(S), MUL[k](t, a(S), a(S)))), weight=k)
        op('prod3', [('out', k), I('a'), I('b'), I('c')],
           lambda S: many(S, 'abc', k, S.out[0], MUL[k](t, a(S, 'c'), MUL[k](t, a(S), a(S, 'b')))), weight=k)
    else:
        op('cube', [('out', k), I('a')], lambda S: many(S, 'a^3', k, S.out[0], MUL[k](t, a(S), MUL[k](t, a(S), a(S)))), weight=20)
    op('sum3', [('out', k), I('a'), I('b'), I('c')], lambda S: many(S, 'a+b+c', k, S.out[0], add(a(S, 'c'), add(a(S), a(S, 'b')))))

    def consts(S):
        for j, v in enumerate((0, 1, 0, 1, 0)):
            S.eq('const#%d' % j, S.out[0][j * k:(j + 1) * k], [v] + [0] * (k - 1))
    op('consts', [('out', 5 * k)], consts)
    if k < 12:
        op('nonres', [('out', k), I('a')], lambda S: many(S, 'nonresidue', k, S.out[0], nonres(t, k, a(S))))

    def inv(S):
        one = shape(k, [S.const(int(i == 0)) for i in range(k)])
        z = S.zero(S.inp['a'])
        if S.ret & 1:
            S.check('non-zero element is invertible', S.ret == 1)
            S.eq('a * a^-1', list(flat(MUL[k](t, a(S), sh(S.out[0])))), list(flat(one)))
        elif S.symbolic:
            S.check('no inverse exactly for zero', S.ret == 0 and S.none_iff_zero)
        else:
            S.check('no inverse exactly for zero', z)
    if k == 2:
        def inv2(S):
            if S.symbolic:
                # N(a) = 0 iff a = 0, beta being a non-residue (ground fact checked below)
                S.none_iff_zero = S.zero(norm2(t, a(S))) and pow(t.beta, (t.f.p - 1) // 2, t.f.p) == t.f.p - 1
            inv(S)
        op('invert', [('out', k), I('a')], inv2, ret='u8')
    if k == 6:
        def inv6(S):
            if S.symbolic:
                # determinant of multiplication by a over Fq2, then norm to Fq
                x = a(S)
                c0 = sub(mul2(t, x[0], x[0]), xi2(t, mul2(t, x[1], x[2])))
                c1 = sub(xi2(t, mul2(t, x[2], x[2])), mul2(t, x[0], x[1]))
                c2 = sub(mul2(t, x[1], x[1]), mul2(t, x[0], x[2]))
                d = add(mul2(t, x[0], c0), xi2(t, add(mul2(t, x[2], c1), mul2(t, x[1], c2))))
                q = t.f.p ** 2
                cube = powi(t, 2, t.xi, (q - 1) // 3) != (1, 0)
                S.none_iff_zero = S.zero(norm2(t, d)) and cube and pow(t.beta, (t.f.p - 1) // 2, t.f.p) == t.f.p - 1
            inv(S)
        op('invert', [('out', k), I('a')], inv6, ret='u8', weight=30)

    def isz(S):
        if S.symbolic:
            S.claim('is_zero', T.eq(S.ret, T.ite(allzero(S, S.inp['a']), 3, 0, 8), 8))
        else:
            S.check('is_zero', S.ret == (3 if S.zero(S.inp['a']) else 0))
    op('is_zero', [I('a')], isz, ret='u8', termret=True)

    def eq(S):
        d = [x - y for x, y in zip(S.inp['a'], S.inp['b'])]
        if S.symbolic:
            S.claim('equality', T.eq(S.ret, T.ite(allzero(S, d), 3, 4, 8), 8))
        else:
            S.check('equality', S.ret == (3 if S.zero(d) else 4))
    op('eq', [I('a'), I('b')], eq, ret='u8', termret=True, maxpaths=5000)

    def sel(S):
        S.eq('select', S.out[0], S.inp['b' if S.inp['c'] else 'a'])
    op('select', [('out', k), I('a'), I('b'), ('sint', 'c', 1)], sel)
    if k in (2, 12):
        h = k // 2

        def conj(S):
            S.eq('conjugate', S.out[0], S.inp['a'][:h] + [x * -1 for x in S.inp['a'][h:]])
        op('conj', [('out', k), I('a')], conj)

        def nrm(S):
            x = a(S)
            if k == 2:
                S.eq('norm', S.out[0], [norm2(t, x)])
            else:
                S.eq('norm', S.out[0], list(flat(sub(mul6(t, x[0], x[0]), v6(t, mul6(t, x[1], x[1]))))))
        op('norm', [('out', h), I('a')], nrm)
    zero2 = lambda S: (S.const(0), S.const(0))
    i2 = lambda S, x: shape(2, S.inp[x])
    if k == 6:
        J = lambda x: ('in', x, 2)
        op('mul_by_1', [('out', 6), I('a'), J('b')], lambda S: many(S, 'a*(b v)', 6, S.out[0], mul6(t, a(S), (zero2(S), i2(S, 'b'), zero2(S)))))
        op('mul_by_01', [('out', 6), I('a'), J('b'), J('c')], lambda S: many(S, 'a*(b+c v)', 6, S.out[0], mul6(t, a(S), (i2(S, 'b'), i2(S, 'c'), zero2(S)))))
    if k == 12:
        J = lambda x: ('in', x, 2)
        op('mul_by_014', [('out', 12), I('a'), J('b'), J('c'), J('d')],
           lambda S: many(S, 'a*(b+c v+d v w)', 12, S.out[0], mul12(t, a(S), ((i2(S, 'b'), i2(S, 'c'), zero2(S)), (zero2(S), i2(S, 'd'), zero2(S))))))
        op('mul_by_034', [('out', 12), I('a'), J('b'), J('c'), J('d')],
           lambda S: many(S, 'a*(b+c w+d v w)', 12, S.out[0], mul12(t, a(S), ((i2(S, 'b'), zero2(S), zero2(S)), (i2(S, 'c'), i2(S, 'd'), zero2(S))))))
    return L


def c08(w):
    obs = []
    for t in TOWERS.values():
        for k in (2, 6, 12):
            for op in ring_ops(t, k):
                obs.append(r_obligation(w.mod(), w.so(), t.f, op))
    return obs


# concrete inverses
def inv2(t, a):
    p = t.f.p
    n = pow(norm2(t, a) % p, -1, p)
    return (a[0] * n % p, -a[1] * n % p)


def inv6(t, x):
    c0 = sub(mul2(t, x[0], x[0]), xi2(t, mul2(t, x[1], x[2])))
    c1 = sub(xi2(t, mul2(t, x[2], x[2])), mul2(t, x[0], x[1]))
    c2 = sub(mul2(t, x[1], x[1]), mul2(t, x[0], x[2]))
    d = add(mul2(t, x[0], c0), xi2(t, add(mul2(t, x[2], c1), mul2(t, x[1], c2))))
    i = inv2(t, modp(t, d))
    return modp(t, tuple(mul2(t, c, i) for c in (c0, c1, c2)))


def inv12(t, a):
    n = modp(t, sub(mul6(t, a[0], a[0]), v6(t, mul6(t, a[1], a[1]))))
    i = inv6(t, n)
    return modp(t, (mul6(t, a[0], i), neg(mul6(t, a[1], i))))


def to_cyclotomic(t, a):
    """a^((p^6-1)(p^2+1))"""
    c = (a[0], neg(a[1]))
    g = modp(t, mul12(t, c, inv12(t, a)))
    return modp(t, mul12(t, frob(t, 12, g, 2), g))


def gen_cyclotomic(t, names=('a',)):
    def gen(op, f, rng, count):
        for c in range(count):
            v = {}
            for n in names:
                if c == 0:
                    x = shape(12, [1] + [0] * 11)
                elif rng.random() < 0.2 and c > 3:
                    # elements of small subfields
                    x = shape(12, [rng.randrange(f.p) if rng.random() < 0.4 else 0 for i in range(12)])
                else:
                    x = shape(12, [rng.randrange(f.p) for i in range(12)])
                try:
                    x = to_cyclotomic(t, x)
                except (ValueError, ZeroDivisionError):
                    x = shape(12, [1] + [0] * 11)
                v[n] = list(flat(x))
            for s in op.sig:
                if s[0] == 'sint':
                    v[s[1]] = rng.getrandbits(s[2])
            yield v
    return gen


def cyc_relations(t, a):
    """a^(p^4) a = a^(p^2) and a^(p^6) a = 1"""
    l = list(flat(sub(mul12(t, frob(t, 12, a, 4), a), frob(t, 12, a, 2))))
    m = list(flat(mul12(t, (a[0], neg(a[1])), a)))
    m[0] = m[0] - 1
    return l + m


def c09(w, tier):
    obs = []
    for t in TOWERS.values():
        for k in (2, 6, 12):
            n = '%s_fq%d' % (t.name, k) if t.name != 'pe' else 'pe_fp%d' % k
            for e in list(range(0, 2 * k + 2)) + [47, 48, (1 << 63) + 5]:
                def spec(S, k=k, e=e, t=t):
                    S.eq('frobenius^%d' % e, S.out[0], list(flat(frob(t, k, shape(k, S.inp['a']), e))))
                op = ROp('%s_frob_%d' % (n, e), n + '_frob', [('out', k), ('in', 'a', k), ('int', 'k', 64, e)], spec)
                obs.append(r_obligation(w.mod(), w.so(), t.f, op, evals=2))
        n = ('%s_fq12' if t.name != 'pe' else '%s_fp12') % t.name

        def hyps(S, t=t):
            for r in cyc_relations(t, shape(12, S.inp['a'])):
                if not r.is0():
                    S.eng.hyp.append(r)

        def spec(S, t=t):
            x = shape(12, S.inp['a'])
            many(S, 'a^2', 12, S.out[0], mul12(t, x, x))
        op = ROp(n + '_cyclo', n + '_cyclo', [('out', 12), ('in', 'a', 12)], spec, hyps=hyps, gen=gen_cyclotomic(t))
        obs.append(r_obligation(w.mod(), w.so(), t.f, op))
    return obs


# ------------------------------------------------------------------ encodings (C10)
from . import terms as T


def le_words(S, ws, be):
    """little-endian words of one chunk of memory words"""
    return [T.bswap(w, 64) if T.isT(w) else int.from_bytes(w.to_bytes(8, 'little'), 'big') for w in reversed(ws)] if be else list(ws)


def elem_words(S, poly, be):
    """memory words of the canonical encoding of an element"""
    ws = S.eng.montwords(S.dom, S.eng.reduce(poly))
    return le_words(S, ws, be)


def same_words(S, what, got, exp):
    S.check(what, len(got) == len(exp))
    for x, y in zip(got, exp):
        S.claim(what, T.eq(x, y, 64))


def fact(S, bit):
    if type(bit) is int:
        return bool(bit)
    return S.eng.ex.facts.get(bit)


def enc_ops(t):
    n = 'pe_fp2' if t.name == 'pe' else t.name + '_fq2'
    f = t.f
    nl, sz = f.n, f.size
    L = []
    U = {'bn': 96, 'bls': 128, 'pe': 128}[t.name]

    def op(name, sig, spec, **kw):
        L.append(ROp('%s_%s' % (n, name), '%s_%s' % (n, name.split('#')[0]), sig, spec, **kw))

    def to_bytes(S):
        for j, be in ((0, f.be), (1, False)):
            if S.symbolic:
                exp = [w for x in S.inp['a'] for w in elem_words(S, x, be)]
                same_words(S, 'encoding %d' % j, S.out[j], exp)
            else:
                S.check('encoding %d' % j, S.out[j] == b''.join(x.const().to_bytes(sz, 'big' if be else 'little') for x in S.inp['a']))
    op('to_bytes', [('outb', 2 * sz), ('outb', 2 * sz), ('in', 'a', 2)], to_bytes)

    def dec(be, raw=False, ln=None):
        def spec(S):
            if ln is not None and ln < 2 * sz:
                S.check('short input refused', S.ret == 0)
                return
            if S.symbolic:
                c = [S.eng.rawint(S.dom, le_words(S, S.inp['a'][i * nl:(i + 1) * nl], be)) for i in range(2)]
                S.claim('accepts exactly canonical coordinates', T.eq(S.ret, T.zext(T.and_(c[0][1], c[1][1], 1), 1, 8), 8))
                vals = [v for v, _ in c]
            else:
                b = S.inp['a']
                vals = [int.from_bytes(b[i * sz:(i + 1) * sz], 'big' if be else 'little') for i in range(2)]
                S.check('accepts exactly canonical coordinates', S.ret == int(all(v < f.p for v in vals)))
                vals = [S.const(v) for v in vals]
            if S.ret:
                S.eq('decoded value', S.out[0], [v * f.Rinv for v in vals] if raw else vals)
        return spec
    op('from_bytes', [('out', 2), ('inb', 'a', 2 * sz)], dec(f.be), ret='u8')
    op('from_repr', [('out', 2), ('inb', 'a', 2 * sz)], dec(False), ret='u8')
    for ln in (2 * sz, 2 * sz - 1, 2 * sz + 1, sz, 0):
        def exact(S, ln=ln):
            if ln != 2 * sz:
                S.check('wrong length refused', S.ret == 0)
            else:
                dec(False, True, ln)(S)
        sig = [('out', 2), ('inb', 'a', max(8, ln)), ('int', 'n', 64, ln)]
        op('from_raw_bytes#%d' % ln, sig, exact, ret='u8')
        op('read_raw#%d' % ln, sig, dec(False, True, ln), ret='u8')

    def to_raw(S):
        for j in range(2):
            if S.symbolic:
                exp = [w for x in S.inp['a'] for w in S.eng.new_token(S.dom, x)]
                same_words(S, 'raw form %d' % j, S.out[j], exp)
            else:
                S.check('raw form %d' % j, S.out[j] == b''.join(f.enc(x.const()) for x in S.inp['a']))
    op('to_raw_bytes', [('outb', 2 * sz), ('outb', 2 * sz), ('in', 'a', 2)], to_raw)

    def unchecked(S):
        if S.symbolic:
            vals = [S.eng.rawint(S.dom, S.inp['a'][i * nl:(i + 1) * nl])[0] * f.Rinv for i in range(2)]
        else:
            b = S.inp['a']
            vals = [S.const(int.from_bytes(b[i * sz:(i + 1) * sz], 'little') * f.Rinv) for i in range(2)]
        S.eq('unchecked value', S.out[0], vals + vals)

    def gen_raw(op, f, rng, count):
        for _ in range(count):
            yield dict(a=b''.join(rng.randrange(f.p).to_bytes(sz, 'little') for _ in range(2)))
    op('unchecked', [('out', 4), ('inb', 'a', 2 * sz)], unchecked, gen=gen_raw)

    def uniform(S):
        h = U // 2
        if S.symbolic:
            w = S.inp['a']
            hw = h // 8
            vals = [S.eng.rawint(S.dom, w[hw:])[0], S.eng.rawint(S.dom, w[:hw])[0]]
        else:
            b = S.inp['a']
            vals = [S.const(int.from_bytes(b[h:], 'little')), S.const(int.from_bytes(b[:h], 'little'))]
        S.eq('reduced halves', S.out[0], vals)
    op('uniform', [('out', 2), ('inb', 'a', U)], uniform)

    def gen_rb(op, f, rng, count):
        for _ in range(count):
            yield dict(a=rng.randbytes(U))
    L[-1].gen = gen_rb
    return L


def c10(w):
    obs = []
    for t in TOWERS.values():
        for op in enc_ops(t):
            obs.append(r_obligation(w.mod(), w.so(), t.f, op))
    return obs


def ord_ops(t):
    """order, sign and parity conventions of the quadratic extension (part of C24)"""
    n = 'pe_fp2' if t.name == 'pe' else t.name + '_fq2'
    f = t.f
    L = []

    def op(name, sig, spec, **kw):
        L.append(ROp('%s_%s' % (n, name), '%s_%s' % (n, name.split('#')[0]), sig, spec, **kw))

    def from_u64(S):
        if S.symbolic:
            S.eq('from u64', S.out[0], [S.eng.rawint(S.dom, [S.inp['a']] + [0] * (f.n - 1))[0], S.const(0)])
        else:
            S.eq('from u64', S.out[0], [S.const(S.inp['a']), S.const(0)])

    def cmp(S):
        a, b = S.inp['a'], S.inp['b']
        if S.symbolic:
            e = S.eng
            exp = None
            if S.zero(a[1] - b[1]) is False:
                exp = e.cmp(S.dom, a[1], b[1])
            elif S.zero(a[1] - b[1]):
                exp = e.cmp(S.dom, a[0], b[0])
            S.check('lexicographic order', exp is not None and S.ret & 255 == exp)
        else:
            x, y = [v.const() for v in a][::-1], [v.const() for v in b][::-1]
            S.check('lexicographic order', S.ret & 255 == (255 if x < y else (0 if x == y else 1)))
    op('cmp', [('in', 'a', 2), ('in', 'b', 2)], cmp, ret='u8')

    def lexi(S):
        a = S.inp['a']
        if S.symbolic:
            e = S.eng
            z = S.zero(a[1])
            exp = None
            if z is True:
                exp = e.lex(S.dom, a[0])
            elif z is False:
                exp = e.lex(S.dom, a[1])
            S.claim('larger than its negation', 0 if exp is None else T.eq(S.ret, T.zext(exp, 1, 8), 8))
        else:
            x = a[1].const() or a[0].const()
            S.check('larger than its negation', S.ret == int(2 * x > f.p))
    op('lexi', [('in', 'a', 2)], lexi, ret='u8', termret=True)
    return L


def c24(w):
    obs = []
    for t in TOWERS.values():
        for op in ord_ops(t):
            obs.append(r_obligation(w.mod(), w.so(), t.f, op))
    return obs
