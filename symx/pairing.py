"""Pairing (C21) and target group (C22).

The target field is written additively: an element is an integer combination of symbols (its logarithm), multiplication is
addition, squaring doubling, Frobenius multiplication by p; these operations are decided by C08/C09."""
import random, re, itertools, math
from . import terms as T, native
from .fields import FIELDS
from .interp import Exec, explore, Unsupported
from .ob import Ob, NotProved
from .ring import Ring, Poly, Dom, Eng, decl, halves, W
from .rob import Sym
from .group import GDom, GEng, Bits, BIG, special_scalars, top_bits
from .curves import CURVES, CF
from . import tower
from .tower import TOWERS, shape, flat, mul12, frob, inv12, modp, to_cyclotomic

H = 'halo2curves::'


class PC:
    """sign, T: the loop computes div sign*(T[Q] + tail - [T Q + tail])"""
    def __init__(self, name, tw, path, g1, g2, loop, tail, sign, mtwist, h2, u):
        self.name, self.t, self.mod, self.loop, self.tail, self.sign, self.mtwist = name, TOWERS[tw], H + path, loop, tail, sign, mtwist
        self.g1, self.g2, self.h2, self.u = CURVES[g1], CURVES[g2], h2, u
        f = self.t.f
        self.r, self.sf = self.g1.order, self.g1.scalar
        base = f.path
        q = H + 'ff_ext::quadratic::QuadExtField<%s>'
        self.f2 = q % base
        self.f12 = q % ((H + 'ff_ext::cubic::CubicExtField<%s>') % self.f2)
        self.N = f.p ** 12 - 1
        self.engine = self.mod + '::engine::'


_bnu = 4965661367192848881
_blsx = -0xd201000000010000
_peu = -0x4000000000001000008780000000
_pbn, _rbn = FIELDS['bn256_fq'].p, FIELDS['bn256_fr'].p
_ppe, _rpe = FIELDS['pe_fp'].p, FIELDS['pe_fq'].p
PAIRINGS = [
    PC('bn', 'bn', 'bn256', 'bn_g1', 'bn_g2', 6 * _bnu + 2, True, 1, False, 2 * _pbn - _rbn, _bnu),
    PC('bls', 'bls', 'bls12381', 'bls_g1', 'bls_g2', _blsx, False, 1, True,
       (_blsx ** 8 - 4 * _blsx ** 7 + 5 * _blsx ** 6 - 4 * _blsx ** 4 + 6 * _blsx ** 3 - 4 * _blsx ** 2 - 4 * _blsx + 13) // 9, _blsx),
    # the code computes the inverse of the optimal ate function here (the parameter is negative)
    PC('pe', 'pe', 'pluto_eris', 'pluto', 'triton', 6 * _peu + 2, True, 1, False, 2 * _ppe - _rpe, _peu),
]


def fe_exponent(pc):
    """the exponent of the final exponentiation: a fixed multiple of (p^12-1)/r"""
    p, r, u = pc.t.f.p, pc.r, pc.u
    easy = (p ** 6 - 1) * (p ** 2 + 1)
    hard = (p ** 4 - p ** 2 + 1) // r
    return easy * hard * (3 if pc.mtwist else 1)


# ---- the multiplicative group of the target field
def log_hooks(eng, F, p, conj, unit, cyc):
    """F: GDom of the target field; conj: exponent of conjugation; cyc(x): is the element in the cyclotomic subgroup"""
    ex, P = eng.ex, re.escape(F.path)
    get, put = eng.get, eng.put
    A = r'core::ops::arith::'

    def binop(e, name, a):
        if len(a) == 3:
            put(F, a[0], get(F, a[1]) + get(F, a[2]))
        else:
            put(F, a[0], get(F, a[0]) + get(F, a[1]))

    def un(c):
        def h(e, name, a):
            if len(a) == 1:
                put(F, a[0], get(F, a[0]) * c)
            else:
                put(F, a[0], get(F, a[1]) * c)
        return h
    arg = r'(<&?%s>)?' % P
    ex.add_hook(r'^<&?%s as %sMul%s>::mul$' % (P, A, arg), binop)
    ex.add_hook(r'^<%s as %sMulAssign%s>::mul_assign$' % (P, A, arg), binop)
    ex.add_hook(r'^<%s( as halo2curves::ff_ext::quadratic::QuadExtFieldArith)?>::(mul|mul_assign)$' % P, binop)
    ex.add_hook(r'^<%s( as halo2curves::ff_ext::quadratic::QuadExtFieldArith| as ff::Field)?>::(square|square_assign)$' % P, un(2))
    ex.add_hook(r'^<%s as ff::Field>::cube$' % P, un(3))
    ex.add_hook(r'^<%s>::conjugate$' % P, un(conj))

    def cyclo(e, name, a):
        x = get(F, a[0])
        if not cyc(x):
            raise NotProved('cyclotomic squaring of an element outside the cyclotomic subgroup', 'sat')
        put(F, a[0], x + x)
    ex.add_hook(r'^<%s>::cyclotomic_square$' % P, cyclo)

    def fro(e, name, a):
        n = a[1]
        if T.isT(n):
            raise Unsupported('symbolic Frobenius power')
        put(F, a[0], get(F, a[0]) * pow(p, n, F.R.p))
    ex.add_hook(r'^<%s as halo2curves::ff_ext::ExtField>::frobenius_map$' % P, fro)

    def inv(e, name, a):
        # the element is not zero (assumption of these obligations)
        put(F, a[0], -get(F, a[1]))
        e.store(a[0] + F.size, 1, 1)
    ex.add_hook(r'^<%s( as ff::Field)?>::invert$' % P, inv)

    def one(e, name, a):
        put(F, a[0], F.R.const(0))
    ex.add_hook(r'^<%s>::one$' % P, one)

    def sel(e, n, a):
        if type(a[3]) is int:
            put(F, a[0], get(F, a[2 if a[3] & 1 else 1]))
        else:
            put(F, a[0], eng.choose(F, a[3], get(F, a[1]), get(F, a[2])))
    ex.add_hook(r'^<%s as subtle::ConditionallySelectable>::conditional_select$' % P, sel)
    ex.add_hook(r'^<%s as subtle::ConditionallySelectable>::conditional_assign$' % P,
                lambda e, n, a: put(F, a[0], eng.choose(F, a[2], get(F, a[0]), get(F, a[1]))))
    z = lambda a: eng.zero(get(F, a[0]) - get(F, a[1]))
    ex.add_hook(r'^<%s as subtle::ConstantTimeEq>::ct_eq$' % P, lambda e, n, a: T.zext(z(a), 1, 8))
    ex.add_hook(r'^<%s as core::cmp::PartialEq>::eq$' % P, lambda e, n, a: z(a))
    ex.add_hook(r'^<%s as core::cmp::PartialEq>::ne$' % P, lambda e, n, a: T.not_(z(a)))


def one_decoder(R, f):
    def dec(ws):
        n = f.n
        v = sum(w << (64 * i) for i, w in enumerate(ws[:n]))
        return R.const(0) if v == f.R % f.p and not any(ws[n:]) else None
    return dec


def enc12(f, x):
    return b''.join(f.enc(c) for c in flat(x))


def dec12(f, b, n):
    r = []
    for i in range(n):
        v = [int.from_bytes(b[8 * f.n * (12 * i + j):8 * f.n * (12 * i + j + 1)], 'little') for j in range(12)]
        r.append(None if any(x >= f.p for x in v) else shape(12, [f.unmont(x) for x in v]))
    return r


def pow12(t, a, e):
    if e < 0:
        return pow12(t, inv12(t, a), -e)
    return tower.powi(t, 12, a, e) if e else shape(12, [1] + [0] * 11)


def rnd12(t, rng, unit=True):
    x = shape(12, [rng.randrange(t.f.p) if rng.random() < 0.8 else 0 for _ in range(12)])
    try:
        return to_cyclotomic(t, x)
    except ValueError:
        return shape(12, [1] + [0] * 11)


class LOp:
    """operation on target group elements: args ('out', n) ('t', name) ('s', name) ('bit', name); lin(S) expected logarithms;
    conc(pc, elems, ks): expected elements"""
    def __init__(self, name, args, lin, conc, ret=None, spec=None, cret=None, weight=1, search=60):
        self.__dict__.update(name=name, args=args, lin=lin, conc=conc, ret=ret, spec=spec, cret=cret, weight=weight, search=search)


def report(entry, w, **kw):
    return dict(entry=entry, violated=w, **kw)


def gt_obligation(w, pc, op):
    t, f = pc.t, pc.t.f
    entry = pc.name + '_gt_' + op.name

    def symrun(ex, eng, F, sd):
        eng.reset()
        R = F.R
        eng.reducers = [eng.bits.idem]
        args, outs = [], []
        S = type('S', (), {})()
        S.R, S.eng, S.t, S.words, S.b = R, eng, {}, {}, {}
        for s in op.args:
            if s[0] == 'out':
                a = ex.new(F.size * s[1], 'out')
                outs.append((a, s[1]))
            elif s[0] == 't':
                a = ex.new(F.size, s[1])
                S.t[s[1]] = R.var(s[1])
                eng.put(F, a, S.t[s[1]])
            elif s[0] == 's':
                a = ex.new(sd.size, s[1])
                x = sd.R.var(s[1])
                eng.put(sd, a, x)
                S.words[s[1]] = eng.montwords(sd, x)
                eng.topq = top_bits(eng, S.words[s[1]], pc.sf.p)
            elif s[0] == 'bit':
                v = T.var(s[1], 1)
                S.b[s[1]] = eng.bits.bit(s[1], 0)
                a = T.zext(v, 1, 8)
            args.append(a)
        S.ret = ex.call(entry, args)
        out = [eng.get(F, a + F.size * i) for a, n in outs for i in range(n)]
        eng.sync()
        idem = lambda x: eng.bits.idem(eng.reduce(x))
        goals = [('output %d' % i, idem(x), idem(y)) for i, (x, y) in enumerate(zip(out, op.lin(S)))]
        if op.spec:
            S.zero = Sym(eng, R).zero
            S.ret = eng.value(S.ret)
            eng.sync()
            goals += [(wh, None, ok) for wh, ok in op.spec(S)]
        return goals

    def run(rec):
        ex = Exec(w.mod())
        eng = GEng(ex)
        R = Ring(BIG)
        eng.bits = Bits(eng, R)
        F = GDom(eng, pc.f12, 12 * f.n, R, one_decoder(R, f))
        eng.doms.append(F)
        # elements of the target group have order dividing r, a divisor of p^6+1: conjugation inverts them
        log_hooks(eng, F, f.p, -1, True, lambda x: True)
        sd = Dom(eng, pc.sf, Ring(pc.sf.p))
        eng.field(sd)
        paths = list(explore(lambda: symrun(ex, eng, F, sd), ex, 64))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        v = native_try(random.Random(3), 3)
        if v:
            raise NotProved(v['violated'], 'native run differs')
        q = eng.bits.query()
        if q:
            rec.prove('interpolation of selections', q, 120)
        if getattr(eng, 'topq', None):
            rec.prove('bits above the modulus', eng.topq, 60)
        for pcond, (st, goals) in paths:
            if st == 'panic':
                raise NotProved('panic reachable: %s' % goals[:120], 'sat')
            for what, x, y in goals:
                if x is None:
                    if not y:
                        raise NotProved(what, 'sat')
                elif not (x - y).is0():
                    raise NotProved(what, 'sat')
            part = [g for g in goals if g[1] is not None]
            if part:
                txt = decl([p for _, x, y in part for p in (x, y)]) + '(assert (or %s))\n(check-sat)\n' % ' '.join(
                    '(not (= (mod (- %s %s) %d) 0))' % (x.text(), y.text(), x.R.p) for _, x, y in part)
                rec.prove('; '.join(g[0] for g in part), txt, 120)

    def inputs(rng):
        e, ks = {}, {}
        for s in op.args:
            if s[0] == 't':
                m = rng.random()
                if m < 0.15:
                    e[s[1]] = shape(12, [1] + [0] * 11)
                elif m < 0.4 and e:
                    x = rng.choice(list(e.values()))
                    e[s[1]] = x if rng.random() < 0.5 else inv12(t, x)
                else:
                    e[s[1]] = rnd12(t, rng)
            elif s[0] == 's':
                ks[s[1]] = special_scalars(pc.sf.p, rng)
            elif s[0] == 'bit':
                ks[s[1]] = rng.getrandbits(1)
        return e, ks

    def call(inp):
        e, ks = inp
        a = []
        for s in op.args:
            if s[0] == 'out':
                a.append(native.Out(96 * f.n * s[1]))
            elif s[0] == 't':
                a.append(native.In(enc12(f, e[s[1]])))
            elif s[0] == 's':
                a.append(native.In(pc.sf.enc(ks[s[1]])))
            else:
                a.append(native.Int(ks[s[1]], 8))
        return (entry, a, op.ret)

    def verdict(inp, r):
        if r[0] == 'skipped':
            return None
        if r[0] != 'ok':
            return 'native run: ' + r[0]
        got = []
        bs = iter(r[2])
        for s in op.args:
            if s[0] == 'out':
                got += dec12(f, next(bs), s[1])
        want = op.conc(pc, *inp)
        for i, (x, y) in enumerate(zip(got, want)):
            if x != y:
                return 'output %d is not the expected element' % i
        if op.cret and op.cret(pc, *inp) != r[1]:
            return 'result %s' % r[1]
        return None

    def native_try(rng, n):
        ins = [inputs(rng) for _ in range(n)]
        for inp, r in zip(ins, native.batch(w.so(), [call(i) for i in ins])):
            v = verdict(inp, r)
            if v:
                return report(entry, v, elements={k: [hex(c) for c in flat(x)] for k, x in inp[0].items()}, scalars={k: hex(x) for k, x in inp[1].items()})
        return None
    o = Ob('%s_gt_%s' % (pc.name, op.name), run, lambda e: native_try(random.Random(11), op.search), op.weight, entry)
    o.light = op.weight <= 2
    return o


def gt_ops():
    one = shape(12, [1] + [0] * 11)
    m = lambda pc, x, y: modp(pc.t, mul12(pc.t, x, y))
    inv = lambda pc, x: inv12(pc.t, x)

    def kval(S):
        r = S.R.const(0)
        for j, wd in enumerate(S.words['k']):
            for i in range(64):
                r = r + S.eng.bits.bit(wd.a[0], i) * (1 << (64 * j + i))
        return r

    def pspec(S):
        d = S.zero(S.t['a'] - S.t['b'])
        i = S.zero(S.t['a'])
        yield 'equality decided', d is not None and i is not None
        yield 'equality', S.ret == (5 if d else 2) | (8 if i else 0)
    return [
        LOp('add', [('out', 6), ('t', 'a'), ('t', 'b')], lambda S: [S.t['a'] + S.t['b']] * 6, lambda pc, e, k: [m(pc, e['a'], e['b'])] * 6),
        LOp('sub', [('out', 6), ('t', 'a'), ('t', 'b')], lambda S: [S.t['a'] - S.t['b']] * 6, lambda pc, e, k: [m(pc, e['a'], inv(pc, e['b']))] * 6),
        LOp('neg', [('out', 2), ('t', 'a')], lambda S: [-S.t['a']] * 2, lambda pc, e, k: [inv(pc, e['a'])] * 2),
        LOp('dbl', [('out', 2), ('t', 'a')], lambda S: [S.t['a'] * 2] * 2, lambda pc, e, k: [m(pc, e['a'], e['a'])] * 2),
        LOp('ident', [('out', 2)], lambda S: [S.R.const(0)] * 2, lambda pc, e, k: [one] * 2),
        LOp('sum', [('out', 2), ('t', 'a'), ('t', 'b'), ('t', 'c')], lambda S: [S.t['a'] + S.t['b'] + S.t['c']] * 2,
            lambda pc, e, k: [m(pc, e['a'], m(pc, e['b'], e['c']))] * 2),
        LOp('select', [('out', 1), ('t', 'a'), ('t', 'b'), ('bit', 'c')], lambda S: [S.t['a'] + S.b['c'] * (S.t['b'] - S.t['a'])],
            lambda pc, e, k: [e['b' if k['c'] else 'a']]),
        LOp('pred', [('t', 'a'), ('t', 'b')], lambda S: [], lambda pc, e, k: [], ret='u8', spec=pspec,
            cret=lambda pc, e, k: (5 if e['a'] == e['b'] else 2) | (8 if e['a'] == one else 0)),
        LOp('mul', [('out', 6), ('t', 'a'), ('s', 'k')], lambda S: [kval(S) * S.t['a']] * 6, lambda pc, e, k: [pow12(pc.t, e['a'], k['k'])] * 6, weight=8, search=24),
    ]


def c22(w):
    return [gt_obligation(w, pc, op) for pc in PAIRINGS for op in gt_ops()]


# ---- C21: reference pairing
def line(F, A, B):
    """(slope, point A) of the line through A and B, which is the tangent when they are equal; not vertical"""
    if A == B:
        l = F.mul(F.mul(F.of(3), F.sqr(A[0])), F.inv(F.add(A[1], A[1])))
    else:
        l = F.mul(F.sub(B[1], A[1]), F.inv(F.sub(B[0], A[0])))
    return l


def line_at(pc, A, l, P):
    """the line with slope l through the (untwisted) A at P, up to a factor from a proper subfield"""
    F = pc.g2.F
    z = (0, 0)
    c, lx = F.sub(F.mul(l, A[0]), A[1]), F.mul(l, (-P[0] % pc.t.f.p, 0))
    y = (P[1], 0)
    if pc.mtwist:
        return ((c, lx, z), (z, y, z))
    return ((y, z, z), (lx, c, z))


def untwist_frob(pc, Q, n):
    """the map on the twist that corresponds to the n-th power of Frobenius"""
    F, t = pc.g2.F, pc.t
    p = t.f.p
    for _ in range(n):
        cj = lambda a: (a[0], -a[1] % p)
        e = -1 if pc.mtwist else 1
        gx, gy = tower.powi(t, 2, t.xi, (p - 1) // 3), tower.powi(t, 2, t.xi, (p - 1) // 2)
        if e < 0:
            gx, gy = F.inv(gx), F.inv(gy)
        Q = (F.mul(cj(Q[0]), gx), F.mul(cj(Q[1]), gy))
    return Q


def ref_miller(pc, P, Q):
    t, F, g2 = pc.t, pc.g2.F, pc.g2
    n = abs(pc.loop)
    f = shape(12, [1] + [0] * 11)
    R = Q
    m = lambda a, b: modp(t, mul12(t, a, b))
    conj = lambda a: modp(t, (a[0], tower.neg(a[1])))

    def step(f, R, B):
        l = line(F, R, B)
        return m(f, line_at(pc, R, l, P)), g2.add(R, B)
    for c in bin(n)[3:]:
        f = m(f, f)
        f, R = step(f, R, R)
        if c == '1':
            f, R = step(f, R, Q)
    if pc.loop < 0:
        f, R = conj(f), g2.neg(R)
    if pc.tail:
        f, R = step(f, R, untwist_frob(pc, Q, 1))
        f, R = step(f, R, g2.neg(untwist_frob(pc, Q, 2)))
    return conj(f) if pc.name == 'pe' else f


def ref_fe(pc, f):
    t = pc.t
    g = to_cyclotomic(t, f)
    e = fe_exponent(pc) // ((t.f.p ** 6 - 1) * (t.f.p ** 2 + 1))
    # base p digits with Frobenius
    p = t.f.p
    r = shape(12, [1] + [0] * 11)
    ds = []
    while e:
        ds.append(e % p)
        e //= p
    fs = [g]
    for _ in ds[1:]:
        fs.append(modp(t, frob(t, 12, fs[-1], 1)))
    for i in range(p.bit_length() - 1, -1, -1):
        r = modp(t, mul12(t, r, r))
        for d, b in zip(ds, fs):
            if d >> i & 1:
                r = modp(t, mul12(t, r, b))
    return r


def ref_pairing(pc, pairs):
    f = shape(12, [1] + [0] * 11)
    for P, Q in pairs:
        if P is not None and Q is not None:
            f = modp(pc.t, mul12(pc.t, f, ref_miller(pc, P, Q)))
    return ref_fe(pc, f)


_pp = {}


def pair_pool(pc):
    if pc.name not in _pp:
        rng = random.Random(9)
        g1 = [pc.g1.random(rng) for _ in range(3)] + [pc.g1.pool()[6]]
        g2 = [pc.g2.mul(pc.g2.random(rng), pc.h2) for _ in range(2)]
        _pp[pc.name] = g1, g2
    return _pp[pc.name]


def enc_aff(c, P):
    f = c.f
    z = (0,) * c.k
    xs = [z, z] if P is None else [x if c.k == 2 else (x,) for x in P]
    return b''.join(f.enc(v) for x in xs for v in x)


def native_pairing(w, pc, rng, count, which):
    """compare with the textbook pairing; which: list of numbers of terms, 'p' pairing forms, 'fe' final exponentiation"""
    g1, g2 = pair_pool(pc)
    f = pc.t.f
    calls, want, desc = [], [], []
    for c in range(count):
        k = which[c % len(which)]
        if k == 'fe':
            x = shape(12, [rng.randrange(f.p) if rng.random() < 0.7 or i == 0 else 0 for i in range(12)])
            if c == 0:
                x = shape(12, [rng.randrange(1, f.p)] + [0] * 11)
            calls.append((pc.name + '_fe', [native.Out(96 * f.n), native.In(enc12(f, x))], None))
            want.append([ref_fe(pc, x)])
            desc.append([hex(v) for v in flat(x)])
            continue
        n = 1 if k == 'p' else k
        prs = [(rng.choice(g1) if rng.random() < 0.8 else None, rng.choice(g2) if rng.random() < 0.8 else None) for _ in range(n)]
        if c == 0:
            prs = [(g1[i], g2[i % 2]) for i in range(n)]
        elif n > 1 and rng.random() < 0.3:
            prs[1] = (pc.g1.neg(prs[0][0]), prs[0][1])
        pb, qb = b''.join(enc_aff(pc.g1, P) for P, _ in prs), b''.join(enc_aff(pc.g2, Q) for _, Q in prs)
        ref = ref_pairing(pc, prs)
        if k == 'p':
            calls.append((pc.name + '_pairing', [native.Out(3 * 96 * f.n), native.In(pb), native.In(qb)], None))
            want.append([ref] * 3)
        else:
            calls.append((pc.name + '_mml_fe', [native.Out(96 * f.n), native.In(pb), native.In(qb), native.Int(n, 64)], None))
            want.append([ref])
        desc.append([str(x) for x in prs])
    for c, d, wt, r in zip(calls, desc, want, native.batch(w.so(), calls)):
        if r[0] == 'skipped':
            continue
        if r[0] != 'ok':
            return report(c[0], 'native run: ' + r[0], inputs=d)
        got = dec12(f, r[2][0], len(wt))
        if got != wt:
            return report(c[0], 'result is not the pairing value', inputs=d)
    return None


def fe_obligation(w, pc):
    t, f = pc.t, pc.t.f
    entry = pc.name + '_fe'
    cyc = (f.p ** 6 - 1) * (f.p ** 2 + 1)

    def run(rec):
        ex = Exec(w.mod())
        eng = GEng(ex)
        R = Ring(pc.N)
        eng.bits = Bits(eng, R)
        F = GDom(eng, pc.f12, 12 * f.n, R, one_decoder(R, f))
        eng.doms.append(F)

        def iscyc(x):
            return all(v % cyc == 0 for v in x.m.values())
        log_hooks(eng, F, f.p, pow(f.p, 6), False, iscyc)

        def go():
            eng.reset()
            o, a = ex.new(F.size, 'out'), ex.new(F.size, 'a')
            eng.put(F, a, R.var('a'))
            ex.call(entry, [o, a])
            return eng.get(F, o)
        paths = list(explore(go, ex, 8))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        v = native_pairing(w, pc, random.Random(3), 1, ['fe'])
        if v:
            raise NotProved(v['violated'], 'native run differs')
        for pcond, (st, x) in paths:
            if st == 'panic':
                raise NotProved('panic reachable: %s' % x[:120], 'sat')
            y = R.var('a') * (fe_exponent(pc) % pc.N)
            if not (x - y).is0():
                raise NotProved('exponent of the final exponentiation', 'sat')
            # killed by r, not trivial
            txt = decl([x, y]) + '(assert (or (not (= (mod (- %s %s) %d) 0)) (not (= (mod (* %d %s) %d) 0))))\n(check-sat)\n' % (
                x.text(), y.text(), pc.N, pc.r, x.text(), pc.N)
            rec.prove('final exponentiation is the fixed power', txt, 120)
    return Ob(entry, run, lambda e: native_pairing(w, pc, random.Random(11), 6, ['fe']), 3, entry)


def poly2v(R, nm):
    """element of the quadratic extension with base-field coordinates"""
    return R.var(nm + '_0') + R.var(nm + '_1') * R.var('u!')


class Pts:
    """formal points: combinations of Q_i and their Frobenius images; divisors: combinations of classes of points"""
    def __init__(self, pc, R, n):
        self.pc, self.R, self.Z = pc, R, Ring(BIG)
        self.D = Ring(BIG)
        self.table = []

    def key(self, x, y):
        return (frozenset(x.m.items()), frozenset(y.m.items()))

    def add_known(self, x, y, pt):
        self.table.append((x, y, pt))

    def div(self, i, pt):
        """the class of a point in the divisor of the function of P_i: vertical lines are dropped, so [-A] = -[A]"""
        if pt.is0():
            return self.D.const(0)
        lead = pt.m[max(pt.m)]
        s = 1
        if lead > BIG // 2:
            pt, s = -pt, -1
        nm = 'd%d:%s' % (i, ','.join('%s*%d' % ('.'.join('%s^%d' % (self.Z.names[j], e) for j, e in self.Z.powers(k)), v) for k, v in sorted(pt.m.items())))
        return self.D.var(nm) * s


def mml_obligation(w, pc, n):
    """the Miller loop computes the function with the divisor of the (optimal) ate pairing, for every pattern of identities"""
    t, f = pc.t, pc.t.f
    entry = pc.name + '_mml'
    p = f.p

    def run(rec):
        ex = Exec(w.mod())
        eng = GEng(ex)
        dom = Dom(eng, f, Ring(p, t.beta))
        R = dom.R
        R.split = True
        d2 = eng.dom2 = Dom(eng, f, R, pc.f2, 2)
        d2.split = dom
        eng.field(d2)
        eng.field(dom)
        pts = Pts(pc, R, n)
        F = GDom(eng, pc.f12, 12 * f.n, pts.D, one_decoder(pts.D, f))
        eng.bits = Bits(eng, pts.D)
        eng.doms.append(F)
        log_hooks(eng, F, p, -1, True, lambda x: False)
        e = re.escape(pc.engine)
        st = {}

        def pindex(a):
            k = pts.key(eng.reduce(eng.get(dom, a)), eng.reduce(eng.get(dom, a + dom.size)))
            i = next((i for i, xy in enumerate(st['P']) if pts.key(*map(eng.reduce, xy)) == k), None)
            if i is None:
                raise NotProved('a line is evaluated at something that is no input point', 'sat')
            return i

        def el3(a):
            return tuple(eng.reduce(eng.get(d2, a + d2.size * i)) for i in range(3))

        def known(x, y):
            k = pts.key(x, y)
            return next((v for a, b, v in pts.table if pts.key(eng.reduce(a), eng.reduce(b)) == k), None)

        def point(a):
            k = tuple(frozenset(x.m.items()) for x in el3(a))
            r = st['R'].get(k)
            if r is None:
                x, y, z = el3(a)
                if z.const() == 1:
                    r = known(x, y)
            if r is None:
                raise NotProved('the running point is unknown', 'sat')
            return r

        def newpoint(a, pt):
            m = len(st['R'])
            xs = [poly2v(R, 'R%d%s' % (m, c)) for c in 'xyz']
            for i, x in enumerate(xs):
                eng.put(d2, a + d2.size * i, x)
            st['R'][tuple(frozenset(x.m.items()) for x in xs)] = pt

        def dbl(_, name, a):
            i, A = pindex(a[2]), point(a[1])
            eng.put(F, a[0], eng.get(F, a[0]) + pts.div(i, A) * 2 - pts.div(i, A * 2))
            newpoint(a[1], A * 2)

        def add(_, name, a):
            i, A = pindex(a[3]), point(a[1])
            x, y = eng.reduce(eng.get(d2, a[2])), eng.reduce(eng.get(d2, a[2] + d2.size))
            B = known(x, y)
            if B is None:
                raise NotProved('a line goes through an unknown point', 'sat')
            eng.put(F, a[0], eng.get(F, a[0]) + pts.div(i, A) + pts.div(i, B) - pts.div(i, A + B))
            newpoint(a[1], A + B)
        ex.add_hook('^%sdouble$' % e, dbl)
        ex.add_hook('^%sadd$' % e, add)
        xi = R.const(t.xi[0]) + R.var('u!') * t.xi[1]

        def cpoly(c):
            return R.const(c[0]) + R.var('u!') * c[1]

        def go():
            eng.reset()
            st.update(P=[], R={})
            pts.table = []
            o = ex.new(F.size, 'out')
            pa, qa = ex.new(2 * dom.size * n, 'p'), ex.new(2 * d2.size * n, 'q')
            Ps, Qs = [], []
            for i in range(n):
                x, y = R.var('px%d' % i), R.var('py%d' % i)
                eng.put(dom, pa + 2 * dom.size * i, x)
                eng.put(dom, pa + 2 * dom.size * i + dom.size, y)
                Ps.append((x, y))
                qx, qy = poly2v(R, 'qx%d' % i), poly2v(R, 'qy%d' % i)
                eng.put(d2, qa + 2 * d2.size * i, qx)
                eng.put(d2, qa + 2 * d2.size * i + d2.size, qy)
                Qs.append((qx, qy))
                st['P'].append((x, y))

            def cj(x):
                a, b = halves(x)
                return a - b * R.var('u!')
            gx, gy = tower.powi(t, 2, t.xi, (p - 1) // 3), tower.powi(t, 2, t.xi, (p - 1) // 2)
            if pc.mtwist:
                gx, gy = pc.g2.F.inv(gx), pc.g2.F.inv(gy)
            for i, (x, y) in enumerate(Qs):
                for k in range(4):
                    v = pts.Z.var('Q%d' % i if k == 0 else 'Q%d_%d' % (i, k))
                    pts.add_known(x, y, v)
                    pts.add_known(x, -y, -v)
                    x, y = cj(x) * cpoly(gx), cj(y) * cpoly(gy)
            ex.call(entry, [o, pa, qa, n])
            got = eng.get(F, o)
            eng.sync()
            S = Sym(eng, R)
            want = pts.D.const(0)
            live = []
            for i in range(n):
                zp, zq = S.zero(list(Ps[i])), S.zero(list(Qs[i]))
                # every path must know which inputs are the identity
                if zp is True or zq is True:
                    continue
                if zp is None or zq is None:
                    raise NotProved('identity of an input not decided', 'sat')
                live.append(i)
                if S.zero(Qs[i][0]) is True or S.zero(Qs[i][1]) is True:
                    return None       # a point of order 3 or 2, outside the prime-order subgroup
                Q = pts.Z.var('Q%d' % i)
                M = Q * pc.loop
                d = pts.div(i, Q) * pc.loop
                if pc.tail:
                    q1, q2 = pts.Z.var('Q%d_1' % i), -pts.Z.var('Q%d_2' % i)
                    d = d + pts.div(i, q1) + pts.div(i, q2)
                    M = M + q1 + q2
                d = d - pts.div(i, M)
                want = want + (-d if pc.name == 'pe' else d)
            return got, want, live
        paths = list(explore(go, ex, 4 ** n * 16))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        v = native_pairing(w, pc, random.Random(3), 1, [n])
        if v:
            raise NotProved(v['violated'], 'native run differs')
        goals = []
        seen = set()
        for pcond, (s, r) in paths:
            if s == 'panic':
                raise NotProved('panic reachable: %s' % r[:120], 'sat')
            if r is None:
                continue
            got, want, live = r
            seen.add(tuple(live))
            if not (got - want).is0():
                raise NotProved('the divisor of the Miller function (terms %s)' % live, 'sat')
            goals.append((got, want))
        if len(seen) != 1 << n:
            raise NotProved('identity patterns not all reached', 'sat')
        for i in range(0, len(goals), 8):
            part = goals[i:i + 8]
            txt = decl([x for g in part for x in g]) + '(assert (or %s))\n(check-sat)\n' % ' '.join('(not (= (mod (- %s %s) %d) 0))' % (x.text(), y.text(), BIG) for x, y in part)
            rec.prove('divisor of the Miller function', txt, 120)
    return Ob('%s#%d' % (entry, n), run, lambda e: native_pairing(w, pc, random.Random(11), 8, [n]), 3 * n, entry)


def ratio(x, y):
    """the constant c with x = c y, or None"""
    if x.is0() or y.is0():
        return None
    k = max(y.m)
    if k not in x.m:
        return None
    c = x.m[k] * pow(y.m[k], -1, y.R.p) % y.R.p
    return c if (x - y * c).is0() else None


def line_obligation(w, pc, kind):
    """the step functions of the loop: the running point and the coefficients of the line at P"""
    t, f = pc.t, pc.t.f

    def run(rec):
        ex = Exec(w.mod())
        eng = GEng(ex)
        dom = Dom(eng, f, Ring(f.p, t.beta))
        R = dom.R
        d2 = Dom(eng, f, R, pc.f2, 2)
        d2.atoms = dom
        F = GDom(eng, pc.f12, 12 * f.n, Ring(BIG), lambda ws: None)
        eng.bits = Bits(eng, F.R)
        eng.field(d2)
        eng.field(dom)
        eng.doms.append(F)
        got = []

        def sparse(_, name, a):
            got.append((name, [eng.get(d2, x) for x in a[1:4]]))
        ex.add_hook('^<%s as halo2curves::ff_ext::quadratic::QuadSparseMul>::mul_by_0[13]4$' % re.escape(F.path), sparse)
        ent = ex.m.find('%s%s' % (pc.engine, kind))

        def go():
            eng.reset()
            got.clear()
            fa, ra, qa, pa = ex.new(F.size, 'f'), ex.new(3 * d2.size, 'r'), ex.new(2 * d2.size, 'q'), ex.new(2 * dom.size, 'p')
            eng.put(F, fa, F.R.var('f'))
            X, Y, Z, xq, yq = (R.var(n) for n in ('X', 'Y', 'Z', 'xq', 'yq'))
            px, py = R.var('px'), R.var('py')
            for i, x in enumerate((X, Y, Z)):
                eng.put(d2, ra + d2.size * i, x)
            for i, x in enumerate((xq, yq)):
                eng.put(d2, qa + d2.size * i, x)
            for i, x in enumerate((px, py)):
                eng.put(dom, pa + dom.size * i, x)
            ex.call(ent, [fa, ra, pa] if kind == 'double' else [fa, ra, qa, pa])
            o = [eng.get(d2, ra + d2.size * i) for i in range(3)]
            if len(got) != 1:
                raise Unsupported('%d sparse products in a step' % len(got))
            name, co = got[0]
            if ('014' in ex.m.demangle(name)) != pc.mtwist:
                raise NotProved('the line has the wrong shape', 'sat')
            if pc.mtwist:
                co = co[::-1]
            if kind == 'double':
                d, n = Y * Z * 2, X * X * 3
                x3 = n * n - X * Y * Y * 8
                y3 = n * (X * Y * Y * 4 - x3) - Y ** 4 * 8
                c = ratio(o[2], d)
                # slope n/d at the point (X/Z^2, Y/Z^3)
                L = [py * d * Z * Z, n * px * Z * Z * -1, n * X - Y * Y * 2]
            else:
                Hh, n = xq * Z * Z - X, yq * Z ** 3 - Y
                d = Z * Hh
                x3 = n * n - Hh ** 3 - X * Hh * Hh * 2
                y3 = n * (X * Hh * Hh - x3) - Y * Hh ** 3
                c = ratio(o[2], d)
                L = [py * d, n * px * -1, n * xq - yq * d]
            cl = ratio(co[0], L[0])
            if c is None or cl is None:
                raise NotProved('scale of the running point or of the line', 'unknown')
            return [('x', o[0], x3 * (c * c)), ('y', o[1], y3 * (c ** 3)), ('z', o[2], d * c)] + [('line %d' % i, x, y * cl) for i, (x, y) in enumerate(zip(co, L))]
        paths = list(explore(go, ex, 8))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        for pcond, (st, goals) in paths:
            if st == 'panic':
                raise NotProved('panic reachable: %s' % goals[:120], 'sat')
            for what, x, y in goals:
                if not (x - y).is0():
                    raise NotProved(what, 'sat')
                txt = decl([x, y]) + '(assert (not (= (mod (- %s %s) %d) 0)))\n(check-sat)\n' % (x.text(), y.text(), f.p)
                rec.prove(what, txt, 120)
    return Ob('%s_line_%s' % (pc.name, kind), run, lambda e: native_pairing(w, pc, random.Random(11), 6, [1]), 2, kind)


def glue_obligation(w, pc):
    """pairing entry points: the final exponentiation of the Miller loop of the one pair"""
    t, f = pc.t, pc.t.f
    entry = pc.name + '_pairing'

    def run(rec):
        ex = Exec(w.mod())
        eng = GEng(ex)
        F = GDom(eng, pc.f12, 12 * f.n, Ring(BIG), one_decoder(None, f))
        eng.bits = Bits(eng, F.R)
        eng.doms.append(F)
        m = F.R.var('miller')
        e = re.escape(pc.engine)
        n1, n2 = 16 * f.n, 32 * f.n

        def mml(_, name, a):
            # (out, slice pointer, length)
            if a[2] != 1:
                raise NotProved('number of pairs', 'sat')
            p, q = ex.load(a[1], 8), ex.load(a[1] + 8, 8)
            for b, nm, k in ((p, 'p', n1), (q, 'q', n2)):
                for i in range(k // 8):
                    x = ex.load(b + 8 * i, 8)
                    if not (T.isT(x) and x.op == 'var' and x.a[0] == '%s_%d' % (nm, i)):
                        raise NotProved('the Miller loop does not receive the two points', 'sat')
            eng.put(F, a[0], m)
        ex.add_hook('^%smulti_miller_loop$' % e, mml)
        ex.add_hook('^<%s as pairing::MillerLoopResult>::final_exponentiation$' % re.escape(F.path),
                    lambda _, name, a: eng.put(F, a[0], eng.get(F, a[1]) * 7))

        def go():
            eng.reset()
            o, p, q = ex.new(3 * F.size, 'out'), ex.new(n1, 'p'), ex.new(n2, 'q')
            for b, nm, k in ((p, 'p', n1), (q, 'q', n2)):
                for i in range(k // 8):
                    ex.store(b + 8 * i, 8, T.var('%s_%d' % (nm, i), 64))
            ex.call(entry, [o, p, q])
            return [eng.get(F, o + F.size * i) for i in range(3)]
        paths = list(explore(go, ex, 8))
        rec.saw(ex)
        v = native_pairing(w, pc, random.Random(3), 1, ['p'])
        if v:
            raise NotProved(v['violated'], 'native run differs')
        for pcond, (st, xs) in paths:
            if st == 'panic':
                raise NotProved('panic reachable: %s' % xs[:120], 'sat')
            for x in xs:
                if not (x - m * 7).is0():
                    raise NotProved('the pairing is not the exponentiated Miller value', 'sat')
                rec.prove('pairing', decl([x]) + '(assert (not (= (mod (- %s %s) %d) 0)))\n(check-sat)\n' % (x.text(), (m * 7).text(), BIG), 60)
    return Ob(entry, run, lambda e: native_pairing(w, pc, random.Random(11), 6, ['p']), 3, entry)


def c21(w):
    obs = []
    for pc in PAIRINGS:
        obs += [fe_obligation(w, pc), line_obligation(w, pc, 'double'), line_obligation(w, pc, 'add'), glue_obligation(w, pc)]
        for n in (1, 2, 3) if w.tier == 'thorough' else (1, 2):
            obs.append(mml_obligation(w, pc, n))
    return obs
