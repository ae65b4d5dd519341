"""C23: subgroup tests, cofactor clearing and entry to the subgroup.

Points are g(s) P with g an integer polynomial in the curve endomorphism s (Frobenius of the twist, or the cube-root
endomorphism) and P an arbitrary point; the operations of the group are intercepted (C11) and the code is executed from
LLVM IR.  What a form g vanishing on a point means is settled by identities between integer polynomials modulo the
relations that every point of the curve satisfies; the certificates are found by integer elimination and checked by the
solver."""
import random, re
from . import terms as T, native, tower
from .interp import Exec, explore, Unsupported
from .ob import Ob, NotProved
from .ring import Ring, Poly, Dom, Eng, halves, leaf_vars, decl
from .group import GDom, GEng, Bits, BIG, const_decoder, enc_pt, dec_pts
from .fields import *
from .curves import CURVES
from .pairing import poly2v

BN_X = 4965661367192848881
BLS_X = -0xd201000000010000


def isq(n):
    import math
    s = math.isqrt(n)
    assert s * s == n
    return s


class Sub:
    """number of points, relations of the endomorphism s on all points, eigenvalue of s on the prime-order subgroup"""
    def __init__(self, name, n, rels=(), names=None, psi=None, eigen=None, clear=None):
        self.c, self.n, self.rels, self.names, self.psi, self.eigen, self.clear = CURVES[name], n, list(rels), names or {}, psi, eigen, clear
        self.r = self.c.order
        self.h = n // self.r
        assert self.h * self.r == n and (self.h == 1 or self.h % self.r)


def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def padd(a, b, k=1):
    r = [0] * max(len(a), len(b))
    for i, x in enumerate(a):
        r[i] += x
    for i, x in enumerate(b):
        r[i] += k * x
    return r


def peval(a, x, m):
    return sum(c * pow(x, i, m) for i, c in enumerate(a)) % m


def combination(target, gens, deg):
    """integer polynomials q_i with sum q_i gens_i = target, or None: integer elimination on shifts of the generators"""
    rows = []
    for i, g in enumerate(gens):
        g = list(g)
        while g and g[-1] == 0:
            g.pop()
        if not g:
            continue
        for k in range(deg + 2 - len(g)):
            v = [0] * k + g + [0] * (deg + 1 - k - len(g))
            rows.append((v, {(i, k): 1}))
    piv = []
    for col in range(deg, -1, -1):
        live = [x for x in rows if x[0][col]]
        rest = [x for x in rows if not x[0][col]]
        while len(live) > 1:
            live.sort(key=lambda x: abs(x[0][col]))
            a = live[0]
            out = [a]
            for b in live[1:]:
                q = b[0][col] // a[0][col]
                v = [y - q * x for x, y in zip(a[0], b[0])]
                d = dict(b[1])
                for kk, x in a[1].items():
                    d[kk] = d.get(kk, 0) - q * x
                (out if v[col] else rest).append((v, d))
            live = out
        if live:
            piv.append((col, live[0]))
        rows = rest
    v = list(target) + [0] * (deg + 1 - len(target))
    co = {}
    for col, (pv, d) in piv:
        if v[col] % pv[col]:
            return None
        q = v[col] // pv[col]
        if q:
            v = [y - q * x for x, y in zip(pv, v)]
            for kk, x in d.items():
                co[kk] = co.get(kk, 0) + q * x
    if any(v):
        return None
    qs = [[0] * (deg + 1) for _ in gens]
    for (i, k), x in co.items():
        qs[i][k] += x
    return qs


def num(n):
    return str(n) if n >= 0 else '(- %d)' % -n


def certify(rec, what, target, gens, deg=6):
    """solver-checked: target is an integer combination of the generators"""
    gens = [list(g) for g in gens]
    qs = combination(target, gens, deg)
    if qs is None:
        raise NotProved(what, 'sat')
    top = 2 * deg + 2
    bad = []
    for k in range(top):
        ts = []
        for q, g in zip(qs, gens):
            ts += ['(* %s %s)' % (num(q[k - j]), num(g[j])) for j in range(len(g)) if 0 <= k - j < len(q) and q[k - j] and g[j]]
        bad.append('(not (= %s %s))' % ('(+ %s 0)' % ' '.join(ts) if ts else '0', num(target[k] if k < len(target) else 0)))
    rec.prove(what, '(assert (or %s))\n' % ' '.join(bad), 60)


def vanishes(rec, what, g, lam, r):
    """solver-checked: g(lam) = 0 modulo r"""
    e = '0'
    for c in reversed(g):
        e = '(mod (+ (* %s %d) %s) %d)' % (e, lam, num(c), r)
    rec.prove(what, '(assert (not (= %s 0)))\n' % e, 60)


# ---- the curves
def subs():
    out = []
    for nm in ('bn_g1', 'grumpkin', 'k1', 'secq', 'r1', 'pluto', 'eris'):
        out.append(Sub(nm, CURVES[nm].order))
    out.append(Sub('triton', PE_Q * (2 * PE_P - PE_Q), clear=lambda s: [2 * PE_P - PE_Q]))
    p, r = BN_P, BN_R
    t = p + 1 - r
    phi12 = [1, 0, -1, 0, 1]
    out.append(Sub('bn_g2', r * (2 * p - r), [[p, -t, 1], phi12], {'halo2curves::bn256::curve::psi': [0, 1]}, 'bn', p % r))
    p, r, x = BLS_P, BLS_R, BLS_X
    t = x + 1
    n1 = p + 1 - t
    h2 = (x ** 8 - 4 * x ** 7 + 5 * x ** 6 - 4 * x ** 4 + 6 * x ** 3 - 4 * x ** 2 - 4 * x + 13) // 9
    g2 = '<halo2curves::bls12381::g2::G2>::'
    out.append(Sub('bls_g2', r * h2, [[p, -t, 1], phi12], {g2 + 'psi': [0, 1], g2 + 'psi2': [0, 0, 1]}, 'bls', p % r, clear=lambda s: [3 * (x * x - 1) * h2]))
    # Frobenius of the first curve is a + b w in terms of the cube-root endomorphism w
    c = CURVES['bls_g1']
    s3 = isq((4 * p - t * t) // 3)
    out.append(Sub('bls_g1', n1, [[1, 1, 1]], {'<%s as pasta_curves::arithmetic::curves::CurveExt>::endo' % c.path: [0, 1]}, 'w', None, clear=lambda s: [1 - x]))
    out[-1].s3, out[-1].t = s3, t
    return out


def wsetup(w, s):
    """which cube root of unity the endomorphism is, and Frobenius in terms of it"""
    c, r = s.c, s.r
    G = point_in(s, random.Random(1))
    res = native.batch(w.so(), [(c.name + '_endo', [native.Out(24 * c.f.n * c.k), native.In(enc_pt(c, G, c.F.one))], None)])[0]
    Q = dec_pts(c, res[2][0], 1, True)[0] if res[0] == 'ok' else 'bad'
    g = 2
    while pow(g, (r - 1) // 3, r) == 1:
        g += 1
    l0 = pow(g, (r - 1) // 3, r)
    ls = [l for l in (l0, l0 * l0 % r) if c.mul(G, l) == Q]
    if len(ls) != 1:
        raise NotProved('the endomorphism has no eigenvalue on the subgroup', 'sat')
    s.eigen = ls[0]
    p = c.f.p
    for sg in (1, -1):
        # pi = t/2 + sg*s3*(2w+1)/2
        a, b = (s.t + sg * s.s3) // 2, sg * s.s3
        if (s.t + sg * s.s3) % 2 == 0 and (a * a - a * b + b * b) == p and (a - 1 + b * s.eigen) % r == 0:
            s.rels = [[1, 1, 1], [a - 1, b]]
            break
    else:
        raise Unsupported('Frobenius in terms of the endomorphism')


def point_any(s, rng):
    c = s.c
    while True:
        x = c.F.rnd(rng)
        y = c.F.sqrt(c.rhs(x))
        if y is not None:
            return (x, y)


def point_in(s, rng):
    while True:
        P = s.c.mul(point_any(s, rng), s.h)
        if P is not None:
            return P


def small_factors(h):
    out, d = [], 2
    while d < 1 << 16:
        if h % d == 0:
            out.append(d)
            while h % d == 0:
                h //= d
        d += 1
    return out


_pts = {}


def points(s, seed=5):
    """points of all kinds: identity, subgroup, full order, of small order, and sums of such"""
    if (s.c.name, seed) in _pts:
        return _pts[s.c.name, seed]
    rng = random.Random(seed)
    c = s.c
    out = [None]
    ins = [point_in(s, rng) for _ in range(3)]
    out += ins + [c.neg(ins[0])]
    if s.h > 1:
        for _ in range(4):
            R = point_any(s, rng)
            out += [R, c.mul(R, s.r)]
        for l in small_factors(s.h):
            for _ in range(4):
                R = c.mul(point_any(s, rng), s.n // l)
                if R is not None and c.mul(R, l) is None:
                    out += [R, c.add(R, ins[0])]
    else:
        out += [point_any(s, rng) for _ in range(4)]
    _pts[s.c.name, seed] = out
    return out


def inside(s, P):
    return s.c.mul(P, s.r) is None


def try_native(so, s, kinds, seed):
    c = s.c
    rng = random.Random(seed)
    for kind in kinds:
        calls, ps = [], points(s)
        for P in ps:
            l = c.F.one if rng.random() < 0.3 else c.F.rnd(rng)
            a = [native.In(enc_pt(c, P, l))]
            if kind != 'torsion':
                a = [native.Out(24 * c.f.n * c.k)] + a
            calls.append(('%s_%s' % (c.name, kind), a, None if kind == 'clear' else 'u8'))
        for P, r in zip(ps, native.batch(so, calls)):
            bad = None
            if r[0] == 'skipped':
                continue
            if r[0] != 'ok':
                bad = 'native run: ' + r[0]
            elif kind == 'torsion':
                if r[1] != int(inside(s, P)):
                    bad = 'the test returns %d for a point %s the subgroup' % (r[1], 'in' if inside(s, P) else 'outside')
            else:
                Q = dec_pts(c, r[2][0], 1, True)[0] if kind == 'clear' or r[1] else None
                if kind == 'clear':
                    if Q == 'bad':
                        bad = 'the result is no point'
                    elif not inside(s, Q):
                        bad = 'the result is outside the subgroup'
                    elif s.h == 1 and Q != P:
                        bad = 'the result differs from the point, on a curve of prime order'
                    elif s.clear and Q != c.mul(P, s.clear(s)[0]):
                        bad = 'the result is not the documented multiple of the point'
                    elif P is not None and inside(s, P) and Q is None:
                        bad = 'a point of the subgroup is sent to the identity'
                else:
                    if r[1] != int(inside(s, P)):
                        bad = 'returns %s for a point %s the subgroup' % ('a point' if r[1] else 'none', 'in' if inside(s, P) else 'outside')
                    elif r[1] and Q != P:
                        bad = 'returns another point'
            if bad:
                return dict(entry='%s_%s' % (c.name, kind), violated=bad, point=str(P))
    return None


def coeffs(R, x, var='P'):
    """g with x = g(s) P"""
    iP, iS = R.idx[var], R.idx['s']
    g = [0] * 12
    for k, v in x.m.items():
        e = dict(R.powers(k))
        if e.pop(iP, 0) != 1 or set(e) - {iS}:
            raise NotProved('a result is no multiple of the point', 'sat')
        g[e.get(iS, 0)] += v if v <= BIG // 2 else v - BIG
    return g


class SEng(GEng):
    def monomial_factors(self, x):
        return None       # g(s) P = 0 does not split into factors


def sub_obligation(w, s, kind):
    c = s.c
    entry = '%s_%s' % (c.name, kind)
    seen = {}

    def run(rec):
        if s.psi == 'w':
            wsetup(w, s)
        check_reference(s)
        bad = try_native(w.so(), s, [kind], 3)
        if bad:
            seen['bad'] = bad
            raise NotProved(bad['violated'], 'native run differs')
        ex = Exec(w.mod())
        ex.m.demangle_all()
        eng = SEng(ex)
        R = Ring(BIG)
        eng.bits = Bits(eng, R)
        n = c.f.n * c.k
        G = GDom(eng, c.path, 3 * n, R, const_decoder(R, c.f, c.k, True))
        A = GDom(eng, c.path + 'Affine', 2 * n, R, const_decoder(R, c.f, c.k, False))
        eng.group(G, A)
        P, sv = R.var('P'), R.var('s')
        for nm, g in s.names.items():
            e = R.const(0)
            for i, x in enumerate(g):
                e = e + (sv ** i if i else R.const(1)) * x

            def h(_, name, a, e=e):
                eng.put(G, a[0], eng.get(G, a[1]) * e)
            ex.add_hook('^%s$' % re.escape(nm), h)

        def go():
            eng.reset()
            a = ex.new(G.size, 'p')
            eng.put(G, a, P)
            if kind == 'torsion':
                return ex.call(entry, [a]), None
            o = ex.new(G.size, 'o')
            r = ex.call(entry, [o, a])
            try:
                x = eng.get(G, o)
            except Unsupported:
                x = None
            return r, x
        paths = list(explore(go, ex, 16))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        one = [[s.n]] + s.rels

        def test_form(g, what):
            if not any(g):
                # always accepted: right when every point is in the subgroup
                if s.h != 1:
                    raise NotProved(what + ': accepts every point', 'sat')
                return
            certify(rec, what + ': an accepted point has order dividing r', [s.r], one + [g])
            if len([x for x in g if x]) == 1 and g[0]:
                rec.prove(what + ': a point of the subgroup is accepted', '(assert (not (= (mod %s %d) 0)))\n' % (num(g[0]), s.r), 60)
            else:
                vanishes(rec, what + ': a point of the subgroup is accepted', g, s.eigen, s.r)

        def truth(t):
            """(form, value when the form vanishes, value otherwise); form None for a constant"""
            if type(t) is int:
                return None, t & 1, t & 1
            vs = list(leaf_vars(t))
            if len(vs) != 1 or vs[0].a[0] not in eng.zv:
                raise Unsupported('test is no comparison of multiples of the point')
            n = vs[0].a[0]
            return coeffs(R, eng.zv[n]), T.evaluate(t, {n: 1}), T.evaluate(t, {n: 0})

        def form_of(t):
            g, y, n = truth(t)
            if (y, n) == (1, 0):
                return g
            if (y, n) == (1, 1):
                return [0]
            raise NotProved('refuses every point' if not y else 'a test with value %d' % y, 'sat')
        forms = []
        for pc, (st, res) in paths:
            if st == 'panic':
                raise NotProved('panic reachable: %s' % str(res)[:100], 'sat')
            r, o = res
            if kind == 'torsion':
                if pc:
                    raise Unsupported('control flow depends on the point')
                test_form(form_of(r), 'torsion test')
            elif kind == 'clear':
                if pc:
                    raise Unsupported('control flow depends on the point')
                if o is None:
                    raise Unsupported('no point returned')
                g = coeffs(R, o)
                rec.info['form'] = str(g)[:200]
                certify(rec, 'the result is in the subgroup', [s.r * x for x in g], one)
                want = [1] if s.h == 1 else s.clear(s) if s.clear else None
                if want:
                    certify(rec, 'the result is the documented multiple', padd(g, want, -1), one)
                # and the map is injective on the subgroup: g(eigenvalue) is invertible modulo r
                lam = s.eigen or 0
                v = peval(g, lam, s.r) if s.eigen else g[0] % s.r
                if v == 0:
                    raise NotProved('the map kills the subgroup', 'sat')
                inv = pow(v, -1, s.r)
                e = '0'
                for x in reversed(g):
                    e = '(mod (+ (* %s %d) %s) %d)' % (e, lam, num(x), s.r)
                rec.prove('the map is injective on the subgroup', '(assert (not (= (mod (* %s %d) %d) 1)))\n' % (e, inv, s.r), 60)
            else:
                if len(pc) > 1:
                    raise Unsupported('control flow depends on the point')
                if not pc:
                    test_form(form_of(r), 'into_subgroup')
                    r = 1
                else:
                    g, y, n = truth(pc[0][0])
                    if (y, n) not in ((1, 0), (0, 1)):
                        raise Unsupported('control flow')
                    van = bool(pc[0][1]) == bool(y)      # on this path the form vanishes
                    g2, y2, n2 = truth(r)
                    r = y2 if van else n2
                    if g2 is not None and g2 != g or r != int(van):
                        raise NotProved('accepts what the test refuses', 'sat')
                    test_form(g, 'into_subgroup')
                if r:
                    if o is None:
                        raise Unsupported('no point returned')
                    g = coeffs(R, o)
                    if g[0] != 1 or any(g[1:]):
                        raise NotProved('returns another point', 'sat')

    def search(e):
        if seen.get('bad'):
            return seen['bad']
        return try_native(w.so(), s, [kind], 11)
    o = Ob(entry, run, search, 8, kind)
    return o


def cj(R, x):
    a, b = halves(x)
    return a - b * R.var('u!')


def psi_consts(s):
    """(u, v): the endomorphism is (x, y) -> (u conj(x), v conj(y)); Frobenius carried over the twist"""
    from .pairing import PAIRINGS
    pc = next(x for x in PAIRINGS if x.name == s.psi)
    t, p = pc.t, pc.t.f.p
    gx, gy = tower.powi(t, 2, t.xi, (p - 1) // 3), tower.powi(t, 2, t.xi, (p - 1) // 2)
    if pc.mtwist:
        gx, gy = s.c.F.inv(gx), s.c.F.inv(gy)
    return pc, gx, gy


def conj(a, p):
    return (a[0], -a[1] % p)


def psi_ref(s, P):
    if P is None:
        return None
    _, u, v = psi_consts(s)
    F = s.c.F
    return (F.mul(u, conj(P[0], F.p)), F.mul(v, conj(P[1], F.p)))


def check_reference(s):
    """the numbers used as reference data fit the reference curve arithmetic on sample points"""
    rng = random.Random(17)
    c = s.c
    for _ in range(2):
        P = point_any(s, rng)
        if c.mul(P, s.n) is not None:
            raise Unsupported('reference: number of points')
        if not s.psi:
            continue
        if s.psi == 'w':
            g = (c.f.p - 1) // 3
            b = next(pow(x, g, c.f.p) for x in range(2, 99) if pow(x, g, c.f.p) != 1)
            ap = [lambda Q, b=b: None if Q is None else (Q[0] * b % c.f.p, Q[1]), lambda Q, b=b: None if Q is None else (Q[0] * b * b % c.f.p, Q[1])]
            G = point_in(s, random.Random(1))
            f = next(f for f in ap if f(G) == c.mul(G, s.eigen))
        else:
            f = lambda Q: psi_ref(s, Q)
            G = point_in(s, rng)
            if f(G) != c.mul(G, s.eigen):
                raise Unsupported('reference: eigenvalue')
        for rel in s.rels:
            acc, Q = None, P
            for k in rel:
                acc = c.add(acc, c.mul(Q, k))
                Q = f(Q)
            if acc is not None:
                raise Unsupported('reference: relation of the endomorphism')


def psi_obligation(w, s, name, power):
    """the code of the endomorphism on coordinates"""
    c = s.c

    def run(rec):
        pc, u, v = psi_consts(s)
        f = pc.t.f
        ex = Exec(w.mod())
        ex.m.demangle_all()
        eng = GEng(ex)
        dom = Dom(eng, f, Ring(f.p, pc.t.beta))
        R = dom.R
        R.split = True
        d2 = eng.dom2 = Dom(eng, f, R, pc.f2, 2)
        d2.split = dom
        eng.bits = Bits(eng, R)
        eng.field(d2)
        eng.field(dom)
        try:
            ent = ex.m.find(name)
        except KeyError:
            raise Unsupported('no function ' + name)

        def go():
            eng.reset()
            o, a = ex.new(3 * d2.size, 'o'), ex.new(3 * d2.size, 'p')
            X = [poly2v(R, n) for n in 'XYZ']
            for i, x in enumerate(X):
                eng.put(d2, a + d2.size * i, x)
            ex.call(ent, [o, a])
            got = [eng.get(d2, o + d2.size * i) for i in range(3)]
            U, V = (R.const(z[0]) + R.var('u!') * z[1] for z in (u, v))
            for _ in range(power):
                X = [cj(R, X[0]) * U, cj(R, X[1]) * V, cj(R, X[2])]
            return got, X
        for pc_, (st, r) in list(explore(go, ex, 8)):
            if st == 'panic' or pc_:
                raise Unsupported('control flow in the endomorphism')
            got, want = r
            bad = []
            ds = [eng.reduce(a - b) for a, b in zip(got, want)]
            if any(not d.is0() for d in ds):
                raise NotProved('coordinates of the endomorphism', 'sat')
            rec.prove('coordinates of the endomorphism', decl(got + want) + '(assert (or %s))\n' % ' '.join(
                '(not (= (mod (- %s %s) %d) 0))' % (a.text(), b.text(), f.p) for a, b in zip(got, want)), 120)
        rec.saw(ex)

    def search(e):
        return try_native(w.so(), s, ['torsion', 'clear', 'into'], 19)
    return Ob('%s_%s' % (c.name, name.split('::')[-1]), run, search, 6, 'psi')


def c23(w):
    obs = []
    for s in subs():
        for k in ('torsion', 'clear', 'into'):
            obs.append(sub_obligation(w, s, k))
        if s.psi in ('bn', 'bls'):
            for nm, g in s.names.items():
                obs.append(psi_obligation(w, s, nm, len(g) - 1))
        if s.psi == 'w':
            from .endo import endo_points
            obs += endo_points(w, ('bls_g1',))
    return obs
