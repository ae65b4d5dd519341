"""C14: splitting a scalar with the curve endomorphism.

The IR of decompose_scalar runs on a symbolic scalar.  256x256-bit products by constants are intercepted and are integer
variables tied to their factors (each one decided from the code of the product routine); field elements are integer linear
forms in those variables modulo the group order, with coefficients of least absolute value; conversions to canonical
integers introduce the quotient.  Everything left is linear integer arithmetic."""
import random, re
from . import terms as T, lia, native
from .interp import Exec, explore, Unsupported
from .ob import Ob, NotProved
from .level0 import LQ
from .fields import Fld, FIELDS, PALLAS_P, VESTA_P

PASTA = 'pasta_curves::fields::'
SCALARS = {
    'bn_g1': FIELDS['bn256_fr'], 'gr_g1': FIELDS['bn256_fq'], 'bls_g1': FIELDS['bls_fr'], 'bls_g2': FIELDS['bls_fr'],
    'ep': Fld('pasta_fq', VESTA_P, 4, False, (), PASTA + 'fq::Fq'), 'eq': Fld('pasta_fp', PALLAS_P, 4, False, (), PASTA + 'fp::Fp'),
}
MUL = 'halo2curves::arithmetic::mul_512'


class ZEng:
    """elements of the scalar field as integer linear forms {variable: coefficient} modulo p ('' is the constant)"""
    def __init__(self, ex, f):
        self.ex, self.f = ex, f
        P, A = re.escape(f.path), r'core::ops::arith::'
        for n, fn in (('Add', lambda x, y: self.comb(x, y, 1)), ('Sub', lambda x, y: self.comb(x, y, -1)), ('Mul', self.prod)):
            l = n.lower()

            def h(e, nm, a, fn=fn):
                o, x, y = a if len(a) == 3 else (a[0], a[0], a[1])
                self.put(o, fn(self.get(x), self.get(y)))
            ex.add_hook(r'^<&?%s as %s%s(<&?%s>)?>::%s$' % (P, A, n, P, l), h)
            ex.add_hook(r'^<%s as %s%sAssign(<&?%s>)?>::%s_assign$' % (P, A, n, P, l), h)
            ex.add_hook(r'^<%s>::%s$' % (P, l), h)

        def neg(e, nm, a):
            self.put(a[0], self.comb({}, self.get(a[1]), -1))
        ex.add_hook(r'^<&?%s as %sNeg>::neg$' % (P, A), neg)
        ex.add_hook(r'^<%s>::neg$' % P, neg)

        def repr_(e, nm, a):
            for i, w in enumerate(self.canon(self.get(a[1]))):
                ex.store(a[0] + 8 * i, 8, w)
        ex.add_hook(r'^<%s as ff::PrimeField>::to_repr$' % P, repr_)

        def raw(e, nm, a):
            self.put(a[0], self.integer([ex.load(a[1] + 8 * i, 8) for i in range(4)]))
        ex.add_hook(r'^<%s>::from_raw$' % P, raw)

        def mul(e, nm, a):
            x, y = ([ex.load(a[k] + 8 * i, 8) for i in range(4)] for k in (1, 2))
            for i, w in enumerate(self.product(x, y)):
                ex.store(a[0] + 8 * i, 8, w)
        ex.add_hook(r'^%s$' % re.escape(MUL), mul)
        self.lemmas = set()
        self.reset()

    lemmas = None

    def reset(self):
        self.form, self.canons, self.prods, self.ncanon = {}, {}, [], 0

    # ---- forms
    def comb(self, x, y, k):
        r = dict(x)
        for v, c in y.items():
            r[v] = (r.get(v, 0) + k * c) % self.f.p
        return {v: c for v, c in r.items() if c}

    def prod(self, x, y):
        if set(x) - {''}:
            x, y = y, x
        if set(x) - {''}:
            raise Unsupported('product of two symbolic scalars')
        k = x.get('', 0)
        return {v: c * k % self.f.p for v, c in y.items() if c * k % self.f.p}

    def get(self, a):
        ws = [self.ex.load(a + 8 * i, 8) for i in range(4)]
        if all(type(w) is int for w in ws):
            v = self.f.unmont(sum(w << (64 * i) for i, w in enumerate(ws)))
            return {'': v} if v else {}
        n = ws[0].a[0] if T.isT(ws[0]) and ws[0].op == 'var' else ''
        if n in self.form and [w.a[0] if T.isT(w) and w.op == 'var' else '' for w in ws] == ['%s_%d' % (n[:-2], i) for i in range(4)]:
            return self.form[n]
        raise Unsupported('words of an abstract scalar are mixed')

    def put(self, a, x):
        if not set(x) - {''}:
            v = self.f.mont(x.get('', 0))
            ws = [(v >> (64 * i)) & T.M(64) for i in range(4)]
        else:
            n = 'z%d' % len(self.form)
            self.form[n + '_0'] = x
            ws = [T.var('%s_%d' % (n, i), 64) for i in range(4)]
        for i, w in enumerate(ws):
            self.ex.store(a + 8 * i, 8, w)

    def canon(self, x):
        """canonical integer of the element, as words"""
        k = tuple(sorted(x.items()))
        if k not in self.canons:
            n = 'r%d' % len(self.canons)
            self.canons[k] = (n, x, [T.var('%s_%d' % (n, i), 64) for i in range(4)])
        return self.canons[k][2]

    # ---- integers of four words
    def words(self, ws):
        """('k', n) constant, or a variable"""
        if all(type(w) is int for w in ws):
            return sum(w << (64 * i) for i, w in enumerate(ws))
        nm = [w.a[0] if T.isT(w) and w.op == 'var' else '' for w in ws]
        m = re.match(r'^([a-z]\d+)_(\d)$', nm[0])
        if m:
            b, o = m.group(1), int(m.group(2))
            if nm == ['%s_%d' % (b, o + i) for i in range(4)]:
                if b[0] == 'r' and o == 0:
                    return 'R' + b
                if b[0] == 'm' and o in (0, 4):
                    return ('lo' if o == 0 else 'hi') + b
        raise Unsupported('operand of a wide product is not an integer known here')

    def product(self, x, y):
        x, y = self.words(x), self.words(y)
        first = type(x) is int
        if not first:
            x, y = y, x
        if type(x) is not int:
            raise Unsupported('wide product of two symbolic integers')
        n = 'm%d' % len(self.prods)
        self.prods.append((n, x, y))
        self.lemmas.add((x, first))
        return [T.var('%s_%d' % (n, i), 64) for i in range(8)]

    def integer(self, ws):
        v = self.words(ws)
        if type(v) is int:
            return {'': v % self.f.p} if v % self.f.p else {}
        return {v: 1}


def cube_root(f):
    g = 2
    while pow(g, (f.p - 1) // 3, f.p) == 1:
        g += 1
    return pow(g, (f.p - 1) // 3, f.p)


def eigen(so, name, f):
    """the eigenvalue of the endomorphism on the generator, from the curve code itself"""
    r = native.batch(so, [(name + '_eigen', [native.In(f.enc(w))], 'u8') for w in (cube_root(f), pow(cube_root(f), 2, f.p))])
    ok = [w for w, x in zip((cube_root(f), pow(cube_root(f), 2, f.p)), r) if x[0] == 'ok' and x[1] == 1]
    if len(ok) != 1:
        raise NotProved('the endomorphism of the curve has no eigenvalue among the cube roots of unity', 'sat')
    return ok[0]


def specials(f, rng, consts):
    t = rng.random()
    p = f.p
    if t < 0.2 or not consts:
        return rng.choice([x for x in f.boundary()])
    if t < 0.6:
        # near the places where one of the roundings changes
        g = rng.choice(consts)
        j = rng.randrange(1, max(2, (g * p >> 256) + 1))
        if rng.random() < 0.3:
            j = rng.choice((1, 2, max(1, (g * p >> 256))))
        return (-((-j << 256) // g) + rng.randrange(-2, 3)) % p
    return rng.randrange(p)


def decomp_obligation(w, name):
    f = SCALARS[name]
    p = f.p

    def spec_fail(k, o, lam):
        k1 = o[0] | o[1] << 64
        k2 = o[3] | o[4] << 64
        if o[2] > 1 or o[5] > 1:
            return 'a sign is not a bit'
        s = (-k1 if o[2] else k1) - (-k2 if o[5] else k2) * lam
        return None if (s - k) % p == 0 else 'the two halves do not recombine to the scalar'

    def try_native(ks, lam):
        rs = native.batch(w.so(), [(name + '_decomp', [native.Out(48), native.In(f.enc(k))], None) for k in ks])
        for k, r in zip(ks, rs):
            if r[0] == 'skipped':
                continue
            bad = 'native run: ' + r[0] if r[0] != 'ok' else spec_fail(k, [int.from_bytes(r[2][0][8 * i:8 * i + 8], 'little') for i in range(6)], lam)
            if bad:
                return dict(entry=name + '_decomp', violated=bad, scalar=hex(k), eigenvalue=hex(lam))
        return None
    info = {}

    def run(rec):
        lam = info['lam'] = eigen(w.so(), name, f)
        ex = Exec(w.mod())
        ex.m.demangle_all()
        eng = ZEng(ex, f)

        def go():
            eng.reset()
            o, k = ex.new(48, 'o'), ex.new(32, 'k')
            eng.put(k, {'k': 1})
            kw = eng.canon({'k': 1})
            ex.call(name + '_decomp', [o, k])
            return [ex.load(o + 8 * i, 8) for i in range(6)], dict(eng.canons), list(eng.prods)
        paths = list(explore(go, ex, 64))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        rng = random.Random(7)
        info['consts'] = sorted(set(x for _, (st, r) in paths if st != 'panic' for _, x, y in r[2]))
        bad = try_native([specials(f, rng, []) for _ in range(50)], lam)
        if bad:
            info['bad'] = bad
            raise NotProved(bad['violated'], 'native run differs')
        for x, first in sorted(eng.lemmas):
            product_lemma(w, rec, x, first, p)
        feasible = 0
        for pc, (st, r) in paths:
            if st == 'panic':
                raise NotProved('panic reachable', 'sat')
            out, canons, prods = r
            q = LQ(rec)
            c = q.c
            K = c.latom(c.var('K', 0, p - 1))
            val = {'k': K}
            R, forms = {}, {}
            byname = {}
            for n, x, ws in canons.values():
                R[n] = q.big(ws)
                q.assume_range(R[n], 0, p - 1)
                val['R' + n] = R[n]
                byname[n] = x
            for n, x, y in prods:
                W = [T.var('%s_%d' % (n, i), 64) for i in range(8)]
                lo, hi = c.latom(c.var('lo' + n, 0, (1 << 256) - 1)), c.latom(c.var('hi' + n, 0, (1 << 256) - 1))
                val['lo' + n], val['hi' + n] = lo, hi
                Y = val[y] if type(y) is not int else c.lconst(y)
                A = c.ladd(c.ladd(lo, c.lscale(hi, 1 << 256)), c.lscale(Y, x), -1)
                q.assume('(= %s 0)' % c.smt(A), A)
                # low half known to be everything: replace it by the product
                q2 = LQ(rec)
                q2.c, q2.asm = c, list(q.asm)
                s = c.smt(hi)
                v = None
                if type(y) is not int:
                    try:
                        q2.goal('high half of %s' % n, '(not (= %s 0))' % s, hi)
                        v = (x, y)
                    except NotProved:
                        pass
                forms['lo' + n] = v

            def expand(x):
                """replace low halves that are whole products; coefficients of least absolute value"""
                r = {}
                for v, k in x.items():
                    if v.startswith('lo') and forms.get(v):
                        k, v = k * forms[v][0], forms[v][1]
                    if v == 'Rr0':
                        v = 'k'
                    r[v] = (r.get(v, 0) + k) % p
                return {v: (k if k <= p // 2 else k - p) for v, k in r.items() if k}
            i = 0
            E = {}
            for n, x, ws in canons.values():
                if x == {'k': 1}:
                    A = c.ladd(R[n], K, -1)
                    q.assume('(= %s 0)' % c.smt(A), A)
                    E[n] = ({'k': 1}, None)
                    continue
                t = c.latom(c.var('t%d' % i, -(1 << 300), 1 << 300))
                i += 1
                e = expand(x)
                A = c.lscale(t, p)
                for v, k in e.items():
                    A = c.ladd(A, c.lscale(val[v] if v else c.lconst(1), k))
                B = c.ladd(R[n], A, -1)
                q.assume('(= %s 0)' % c.smt(B), B)
                E[n] = (e, t)
            for b, v in pc:
                q.assume_bit(b, v)
            try:
                q.goal('path is infeasible', 'true', *R.values())
                continue
            except NotProved:
                pass
            feasible += 1
            # the outputs are low halves of canonical integers whose upper halves vanish
            got = []
            for j in (0, 3):
                neg = c.tr(out[j + 2])
                if neg.const():
                    neg = neg.c
                else:
                    for v in (0, 1):
                        try:
                            q.goal('sign of half %d is %d on its path' % (1 + j // 3, v), '(not (= %s %d))' % (c.smt(neg), v), neg)
                            neg = v
                            break
                        except NotProved as e:
                            last = e
                    else:
                        raise last
                O = q.big(out[j:j + 2])
                hit = None
                for n, x, ws in canons.values():
                    if x == {'k': 1}:
                        continue
                    D = c.ladd(O, R[n], -1)
                    try:
                        q.goal('half %d is a whole canonical integer' % (1 + j // 3), '(not (= %s 0))' % c.smt(D), D)
                        hit = n
                        break
                    except NotProved as e:
                        last = e
                if hit is None:
                    raise last
                if neg not in (0, 1):
                    raise NotProved('sign', 'sat')
                got.append((-1 if neg else 1, hit))
            # signed sum minus the scalar is r times an explicit integer
            (s1, n1), (s2, n2) = got
            tot = {}
            quo = c.lconst(0)
            for s, n in ((s1, n1), (-s2 * lam, n2)):
                e, t = E[n]
                for v, k in e.items():
                    tot[v] = tot.get(v, 0) + s * k
                quo = c.ladd(quo, c.lscale(t, s))
            tot['k'] = tot.get('k', 0) - 1
            for v, k in tot.items():
                if k % p:
                    raise NotProved('the halves recombine to the scalar', 'sat')
                quo = c.ladd(quo, c.lscale(val[v] if v else c.lconst(1), k // p))
            X = c.ladd(c.ladd(c.lscale(R[n1], s1), c.lscale(R[n2], -s2 * lam)), K, -1)
            X = c.ladd(X, c.lscale(quo, p), -1)
            # X = 0 follows from the defining equations of the two halves
            q.goal('the halves recombine to the scalar', '(not (= %s 0))' % c.smt(X), X)
        rec.info['feasible'] = feasible
        if not feasible:
            raise Unsupported('no feasible path')

    def search(e):
        if info.get('bad'):
            return info['bad']
        lam = info.get('lam')
        if lam is None:
            return dict(entry=name + '_eigen', violated=e.what) if e.verdict == 'sat' else None
        m = {k: v for k, v in (e.model or {}).items()}
        ks = []
        if 'K' in m:
            try:
                ks = [(int(m['K']) + d) % f.p for d in range(-3, 4)]
            except (TypeError, ValueError):
                pass
        rng = random.Random(13)
        return try_native(ks + [specials(f, rng, info.get('consts')) for _ in range(4000)], lam)
    return Ob(name + '_decomp', run, search, 30, 'decomp')


def product_lemma(w, rec, x, first, p):
    """the wide product routine with the constant x as first or second operand and any integer below 2^256 as the other"""
    ex = Exec(w.mod())
    ent = ex.m.find(MUL)

    def go():
        o, c, y = ex.new(64, 'o'), ex.new(32, 'c'), ex.new(32, 'y')
        for i in range(4):
            ex.store(c + 8 * i, 8, (x >> (64 * i)) & T.M(64))
            ex.store(y + 8 * i, 8, T.var('b%d' % i, 64))
        ex.call(ent, [o] + ([c, y] if first else [y, c]))
        return [ex.load(o + 8 * i, 8) for i in range(8)]
    for pc, (st, ow) in list(explore(go, ex)):
        if st == 'panic':
            raise NotProved('panic', 'sat')
        q = LQ(rec)
        B = q.big([T.var('b%d' % i, 64) for i in range(4)])
        K = q.c.latom(q.c.var('K', 0, (1 << 256) - 1))
        X = q.big(ow)
        D = q.c.ladd(X, q.c.lscale(B, x), -1)
        E = q.c.ladd(K, B, -1)
        q.assume('(= %s 0)' % q.c.smt(E), E)
        for b, v in pc:
            q.assume_bit(b, v)
        q.goal('wide product by %x' % x, '(not (= %s 0))' % q.c.smt(D), D)
    rec.saw(ex)


def c14(w):
    return [decomp_obligation(w, n) for n in SCALARS] + endo_points(w)


def endo_points(w, only=None):
    """CurveExt::endo is (x, y) -> (beta x, y) with a primitive cube root of unity beta, the identity included"""
    from .curves import CURVES, PI, cop, is_point
    from .group import enc_pt, dec_pts
    from .ring import Poly
    from .rob import el_poly, r_obligation
    obs = []
    for c in CURVES.values():
        if c.a != c.F.zero or only and c.name not in only:
            continue
        F = c.F
        P = c.pool()[0]
        if P is None:
            P = next(x for x in c.pool() if x is not None)
        r = native.batch(w.so(), [(c.name + '_endo', [native.Out(24 * c.f.n * c.k), native.In(enc_pt(c, P, F.one))], None)])[0]
        Q = dec_pts(c, r[2][0], 1, True)[0] if r[0] == 'ok' else 'bad'
        beta = F.mul(Q[0], F.inv(P[0])) if Q not in ('bad', None) else F.one
        good = beta != F.one and F.pow(beta, 3) == F.one
        if not good:
            g = (c.f.p - 1) // 3
            beta = F.of(pow(next(x for x in range(2, 50) if pow(x, g, c.f.p) != 1), g, c.f.p))
        for kind in 'PO':
            pi = PI(c, [kind], 'g')

            def spec(S, pi=pi, beta=beta):
                P = pi.pt(S, 0)
                S.facs = []
                is_point(S, 'endo', S.out[0], None if P is None else (P[0] * el_poly(S.R, beta), P[1]))
            obs.append(r_obligation(w.mod(), w.so(), c.f, cop(c, 'endo#' + kind, 'endo', pi, 1, spec)))
    return obs
