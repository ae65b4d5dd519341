"""Point encodings (C15) and raw point serialisation (C16).

Coordinates are base-field elements; canonical integers and below-the-modulus tests of byte chunks (C04), square roots
(C07/C24) and sign comparisons (C05) are abstract words, bits and elements; every byte of the input is symbolic."""
import random, itertools
from . import terms as T
from .curves import CURVES, CF, ysq
from .rob import ROp, r_obligation, el_poly, el_conc, Sym
from .ring import Ring, Poly, halves

FLAGS = {'bn_g1': 'two', 'bn_g2': 'two', 'grumpkin': 'two', 'pluto': 'two', 'eris': 'two', 'triton': 'two',
         'k1': 'extra', 'secq': 'extra', 'r1': 'extra', 'bls_g1': 'three', 'bls_g2': 'three'}


class Lay:
    """layout of the compressed form"""
    def __init__(self, c):
        self.c, self.kind = c, FLAGS[c.name]
        f = c.f
        self.xs = f.size * c.k
        self.x0 = 1 if self.kind == 'extra' else 0
        self.size = self.xs + self.x0
        # the most significant byte carries the flags
        self.fb = 0 if self.kind == 'extra' or f.be else self.size - 1
        self.sign, self.ident, self.comp = {'two': (7, 6, None), 'extra': (7, 6, None), 'three': (5, 6, 7)}[self.kind]

    def mask(self):
        return 0xff & ~sum(1 << b for b in (self.sign, self.ident, self.comp) if b is not None)


def fq(c, xs):
    """base coordinates -> element polynomial"""
    return xs[0] if c.k == 1 else xs[0] + xs[1] * xs[0].R.var('u!')


def byte_terms(S, name):
    ws = S.inp[name]
    n = sum(w.w // 8 for w in ws)
    return [T.byte(ws[i // 8], i % 8) for i in range(n)]


def words_of(bs, be):
    """little-endian words of a chunk of bytes"""
    bs = bs[::-1] if be else list(bs)
    return [T.concat(bs[i:i + 8]) for i in range(0, len(bs), 8)]


def find_raw(S, ws):
    """(value, canonical bit) of the integer with the given words: the one the code formed from provably equal words"""
    eng = S.eng
    rng = random.Random(3)
    leaves = sorted(S.leaves, key=str)
    envs = []
    for _ in range(4):
        envs.append({w.a[0]: rng.getrandbits(w.w) for w in leaves})
    for v, (src, ok) in getattr(eng, 'byv', {}).items():
        if len(src) != len(ws):
            continue
        try:
            same = all(all((T.evaluate(a, env) if T.isT(a) else a) == (T.evaluate(b, env) if T.isT(b) else b) for a, b in zip(src, ws)) for env in envs)
        except KeyError:
            continue
        if same:
            for a, b in zip(src, ws):
                S.claim('the code reads the right bytes', T.eq(a, b, 64))
            val = Poly(S.R, dict(v), 1)
            return val, ok
    if all(type(w) is int for w in ws):
        return eng.rawint(S.dom, ws)
    return eng.rawint(S.dom, ws)


def chunk_values(S, c, bs, be=None):
    """coordinates read from a list of byte terms: ([values], bit: all canonical)"""
    f = c.f
    be = f.be if be is None else be
    vals, ok = [], 1
    for i in range(c.k):
        v, o = find_raw(S, words_of(bs[i * f.size:(i + 1) * f.size], be))
        vals.append(v)
        ok = T.and_(ok, o, 1)
    return vals, ok


def parity(S, x):
    """low bit of the canonical integer of a base element"""
    w = S.eng.montwords(S.dom, S.eng.reduce(x))[0]
    return T.trunc(w, 64, 1) if T.isT(w) else w & 1


def sgn(S, c, y):
    """the sign bit of the element y (nonzero) as a term"""
    c0, c1 = halves(y) if c.k == 2 else (y, None)
    if FLAGS[c.name] == 'three':
        if c.k == 1:
            return S.eng.lex(S.dom, c0)
        return S.eng.lex(S.dom, c0) if S.eng.bit(S.eng.zero(c1)) else S.eng.lex(S.dom, c1)
    if c.k == 1:
        return parity(S, c0)
    return T.ite(S.eng.zero(c0), parity(S, c1), parity(S, c0), 1)


def csgn(c, y):
    """sign of a concrete nonzero element"""
    p = c.f.p
    c0, c1 = (y, 0) if c.k == 1 else y
    if FLAGS[c.name] == 'three':
        v = c1 if c1 else c0
        return int(2 * v > p)
    return (c0 if c0 else c1) & 1


def cbytes(c, P, form):
    """concrete reference encodings"""
    f = c.f
    co = lambda x: b''.join(f.canon(v) for v in ((x,) if c.k == 1 else x))
    if form == 'u':
        return bytes(2 * f.size * c.k) if P is None else co(P[0]) + co(P[1])
    L = Lay(c)
    b = bytearray(L.size)
    if P is None:
        b[L.fb] |= 1 << L.ident
    else:
        b[L.x0:] = co(P[0])
        b[L.fb] |= csgn(c, P[1]) << L.sign
    if L.comp is not None:
        b[L.fb] |= 1 << L.comp
    return bytes(b)


def cdecode(c, b, form):
    """'none' or the point (None: identity) a byte string denotes"""
    f, F = c.f, c.F

    def el(bs):
        v = [int.from_bytes(bs[i * f.size:(i + 1) * f.size], 'big' if f.be else 'little') for i in range(c.k)]
        if any(x >= f.p for x in v):
            return None
        return v[0] if c.k == 1 else tuple(v)
    if form == 'u':
        x, y = el(b[:f.size * c.k]), el(b[f.size * c.k:])
        if x is None or y is None:
            return 'none', None
        if x == F.zero and y == F.zero:
            return None, None
        return ((x, y) if c.on((x, y)) else 'none'), (x, y)
    L = Lay(c)
    b = bytearray(b)
    fl = b[L.fb]
    b[L.fb] &= L.mask()
    if L.comp is not None and not fl >> L.comp & 1:
        return 'none', None
    if L.kind == 'extra' and b[0]:
        return 'none', None
    x = el(bytes(b[L.x0:]))
    if x is None:
        return 'none', None
    sg = fl >> L.sign & 1
    if fl >> L.ident & 1:
        return (None if x == F.zero and not sg else 'none'), None
    P = c.lift(x)
    if P is None:
        return 'none', None
    return (P if csgn(c, P[1]) == sg else c.neg(P)), None


# ---- inputs
def gen_points(c, proj):
    def gen(op, f, rng, count):
        F = c.F
        pool = c.pool()
        for t in range(count):
            P = rng.choice(pool)
            if rng.random() < 0.5:
                P = c.neg(P)
            l = F.rnd(rng) if rng.random() < 0.5 else F.one
            v = {}
            for n, x in (('x', P[0]), ('y', P[1]), ('l', l if l != F.zero else F.one)):
                v[n] = list(x) if c.k == 2 else [x]
            yield {n: x for n, x in v.items() if any(s[1] == n for s in op.sig if s[0] == 'var')}
    return gen


def gen_enc(c, form):
    """byte strings near encodings of points"""
    def gen(op, f, rng, count):
        pool = c.pool() + special_points(c)
        for t in range(count):
            P = rng.choice(pool + [None])
            if rng.random() < 0.5:
                P = c.neg(P)
            b = bytearray(cbytes(c, P, form))
            m = rng.random()
            if m < 0.35:
                pass
            elif m < 0.6:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif m < 0.85:
                L = Lay(c)
                b[L.fb if form == 'c' else rng.choice((0, -1))] ^= rng.choice((0x80, 0x40, 0x20, 0x10, 0xc0, 0xe0, 1, 0x60))
            else:
                f_ = c.f
                i = rng.randrange(len(b) // f_.size)
                o = len(b) % f_.size + i * f_.size
                x = (f_.p + rng.randrange(-2, 3)) % (1 << (8 * f_.size))
                b[o:o + f_.size] = x.to_bytes(f_.size, 'big' if f_.be else 'little')
            yield dict(b=bytes(b))
    return gen


_special = {}


def special_points(c):
    """points with a zero coordinate or a coordinate of y equal to zero"""
    if c.name not in _special:
        r = []
        P = c.lift(c.F.zero)
        if P:
            r += [P, c.neg(P)]
        if c.k == 2:
            p = c.f.p
            rng = random.Random(9)
            # y in F_p or in u F_p: x^3 = y^2 - b
            F = c.F
            for j in range(40):
                y = (rng.randrange(p), 0) if j % 2 else (0, rng.randrange(p))
                t = F.sub(F.sqr(y), c.b)
                x = cbrt(F, t)
                if x is not None:
                    r += [(x, y), (x, F.neg(y))]
                if len(r) > 8:
                    break
        _special[c.name] = r
    return _special[c.name]


def cbrt(F, t):
    """a cube root of t in F, or None"""
    if t == F.zero:
        return t
    n = F.q - 1
    s, m = 0, n
    while m % 3 == 0:
        m //= 3
        s += 1
    if F.pow(t, n // 3) != F.one:
        return None
    e = pow(3, -1, m)
    x = F.pow(t, e)
    # x^3 = t * (3-power torsion): correct inside the 3-Sylow subgroup
    d = F.mul(F.pow(x, 3), F.inv(t))
    if d == F.one:
        return x
    g = None
    k = 2
    while g is None:
        h = F.pow(F.of(k, 1), m)
        if F.pow(h, 3 ** (s - 1)) != F.one:
            g = h
        k += 1
    y = F.one
    for i in range(3 ** s):
        if F.pow(y, 3) == F.inv(d):
            return F.mul(x, y)
        y = F.mul(y, g)
    return None


# ---- symbolic helpers
def setup_pt(c, kind):
    """('var' items, argument for the affine point)"""
    sig = [('var', 'x', c.k), ('var', 'y', c.k)] if kind == 'P' else []
    return sig


def hyp_pt(c, kind):
    def h(S):
        if kind == 'P':
            e, R = S.eng, S.R
            if c.k == 1:
                x, y = S.inp['x'][0], S.inp['y'][0]
                e.reducers = [ysq(R.vid('y0'), (x * x + el_poly(R, c.a)) * x + el_poly(R, c.b))]
                e.assume(y, False)
            else:
                x, y = fq(c, S.inp['x']), fq(c, S.inp['y'])
                e.assume(y, False)
                e.hyp.append(y * y - (x * x + el_poly(R, c.a)) * x - el_poly(R, c.b))
    return h


def aff_arg(c, kind):
    def fn(S):
        return S.inp['x'] + S.inp['y'] if kind == 'P' else [S.const(0)] * (2 * c.k)
    return ('inx', fn, 2 * c.k)


def proj_arg(c, kind):
    """the projective point as handed to to_affine (intercepted): coordinates marked (x, y, 1) or (0, 1, 0)"""
    def fn(S):
        one = [S.const(1)] + [S.const(0)] * (c.k - 1)
        zero = [S.const(0)] * c.k
        return S.inp['x'] + S.inp['y'] + one if kind == 'P' else zero + one + zero
    return ('inx', fn, 3 * c.k)


def words_eq(S, what, got, exp_bytes):
    """memory words against expected byte terms"""
    i = 0
    for w in got:
        n = (w.w // 8) if T.isT(w) else min(8, len(exp_bytes) - i)
        e = T.concat(exp_bytes[i:i + n])
        if T.isT(w) or T.isT(e) or w != e:
            S.claim(what, T.eq(w, e, 8 * n))
        else:
            S.check(what, True)
        i += n
    S.check(what + ': length', i == len(exp_bytes))


def canon_bytes(S, c, xs):
    """byte terms of the canonical encoding of base coordinates"""
    f = c.f
    r = []
    for x in xs:
        ws = S.eng.montwords(S.dom, S.eng.reduce(x))
        b = [T.byte(w, i) if T.isT(w) else (w >> (8 * i)) & 255 for w in ws for i in range(8)]
        r += b[::-1] if f.be else b
    return r


def c15_ops(c):
    L = Lay(c)
    f = c.f
    ops = []
    kw = dict(k=1, beta=c.beta, along=False, search=2500, split=c.k == 2, roots=True)

    def pt_of(S):
        x, y = fq(c, S.inp['x']), fq(c, S.inp['y'])
        return x, y

    for kind in 'PO':
        for form, arg in (('a', aff_arg(c, kind)), ('g', proj_arg(c, kind))):
            def enc(S, kind=kind):
                if not S.symbolic:
                    P = None
                    if kind == 'P':
                        P = tuple(el_conc(c.k, v) if c.k == 2 else v.const() for v in pt_of(S))
                    S.check('encoding', S.out[0] == cbytes(c, P, 'c'))
                    return
                if kind == 'P' and c.k == 2 and S.zero(S.inp['y']) is True:
                    return      # no point has y = 0
                bs = [0] * L.x0 + (canon_bytes(S, c, S.inp['x']) if kind == 'P' else [0] * L.xs)
                fl = bs[L.fb]
                if kind == 'P':
                    # the flag bits of the top byte are free: canonical integers leave them zero
                    s = sgn(S, c, pt_of(S)[1])
                    fl = T.or_(fl, T.shl(T.zext(s, 1, 8) if T.isT(s) else s, L.sign, 8), 8)
                else:
                    fl = 1 << L.ident
                if L.comp is not None:
                    fl = T.or_(fl, 1 << L.comp, 8)
                bs[L.fb] = fl
                words_eq(S, 'encoding', S.out[0], bs)
            op = ROp('%s_enc_%s#%s' % (c.name, form, kind), '%s_enc_%s' % (c.name, form), [('outb', L.size)] + setup_pt(c, kind) + [arg], enc,
                     hyps=hyp_pt(c, kind), gen=gen_points(c, form == 'g'), **kw)
            op.evgen = None
            ops.append((op, form == 'g'))
        def uenc(S, kind=kind):
            if not S.symbolic:
                P = None
                if kind == 'P':
                    P = tuple(el_conc(c.k, v) if c.k == 2 else v.const() for v in pt_of(S))
                S.check('encoding', S.out[0] == cbytes(c, P, 'u'))
                return
            if kind == 'P' and S.zero(S.inp['y']) is True:
                return
            words_eq(S, 'encoding', S.out[0], canon_bytes(S, c, S.inp['x'] + S.inp['y']) if kind == 'P' else [0] * (2 * L.xs))
        ops.append((ROp('%s_uenc#%s' % (c.name, kind), '%s_uenc_a' % c.name, [('outb', 2 * L.xs)] + setup_pt(c, kind) + [aff_arg(c, kind)], uenc,
                        hyps=hyp_pt(c, kind), gen=gen_points(c, False), **kw), False))

    def result(S, proj, what, x, y):
        """the decoded point in the output is the affine (x, y); None: the identity"""
        o = S.out[0]
        el = [fq(c, o[i * c.k:(i + 1) * c.k]) for i in range(3 if proj else 2)]
        if x is None:
            if proj:
                S.eq(what, [el[0], el[2]], [0, 0])
                S.check(what + ': not (0,0,0)', S.zero(el[1]) is False)
            else:
                S.eq(what, el, [0, 0])
            return
        if proj:
            S.eq(what, [el[0], el[1]], [x * el[2], y * el[2]])
            S.check(what + ': Z is not 0', S.zero(el[2]) is False)
        else:
            S.eq(what, el, [x, y])

    def cresult(S, proj, want):
        if S.ret == 1 and want != 'none':
            P = want
            result(S, proj, 'decoded point', *((None, None) if P is None else tuple(el_poly(S.R, v) for v in P)))

    def dec(proj):
        def spec(S):
            if not S.symbolic:
                want, _ = cdecode(c, S.inp['b'], 'c')
                S.check('accepted exactly when it is an encoding', S.ret == int(want != 'none'))
                return cresult(S, proj, want)
            S.leaves = [w for w in S.inp['b']]
            bs = byte_terms(S, 'b')
            flag = bs[L.fb]
            bit = lambda i: T.trunc(T.lshr(flag, i, 8), 8, 1)
            xb = list(bs[L.x0:])
            if L.kind != 'extra':
                xb[L.fb] = T.and_(flag, L.mask(), 8)
            vals, canon = chunk_values(S, c, xb)
            ret = S.eng.ex.decide(T.trunc(S.ret, 8, 1)) if T.isT(S.ret) else bool(S.ret & 1)
            pre = canon
            if L.comp is not None:
                pre = T.and_(pre, bit(L.comp), 1)
            if L.kind == 'extra':
                pre = T.and_(pre, T.eq(T.and_(flag, L.mask(), 8), 0, 8), 1)
            x = fq(c, vals)
            zx = S.eng.zero(x)
            idb, sg = bit(L.ident), bit(L.sign)
            rhs = (x * x + el_poly(S.R, c.a)) * x + el_poly(S.R, c.b)
            if S.zero(rhs) is True:
                return          # no point has y = 0
            S.eng.assume(rhs, False)
            for b_, s_, v_ in S.eng.sq.values():
                if S.eng.reduce(v_ - rhs).is0():
                    if S.zero(s_) is True:
                        return
                    S.eng.assume(s_, False)
            # the code's root of the right-hand side
            ent = [(b, s) for b, s, v in S.eng.sq.values() if (S.eng.reduce(v - rhs)).is0()]
            ident_ok = T.and_(pre, T.and_(idb, T.and_(zx, T.not_(sg), 1), 1), 1)
            if ent:
                sqb = ent[0][0]
            else:
                cst = S.eng.reduce(rhs)
                sqb = int(c.F.is_sq(el_conc(c.k, cst) if c.k == 2 else cst.const())) if cst.isconst() else None
            if sqb is None:
                pt_ok = None
                if ret:
                    S.claim('accepted without a root: the identity', ident_ok)
                else:
                    S.claim('refused without a root', T.and_(T.not_(ident_ok), T.not_(T.and_(pre, T.not_(idb), 1)), 1))
            else:
                pt_ok = T.and_(pre, T.and_(T.not_(idb), sqb, 1), 1)
                S.claim('accepted exactly when it is an encoding', T.eq(int(ret), T.or_(ident_ok, pt_ok, 1), 1))
            if ret:
                o = S.out[0]
                el = [fq(c, o[i * c.k:(i + 1) * c.k]) for i in range(3 if proj else 2)]
                isid = S.zero(el[2]) if proj else S.zero(el)
                if isid is True:
                    S.claim('the identity is returned for its encoding only', ident_ok)
                    return result(S, proj, 'identity', None, None)
                if pt_ok is None:
                    return S.check('a point without a root', False)
                S.claim('a point is returned for encodings of points only', pt_ok)
                if ent:
                    s = ent[0][1]
                else:
                    r = c.F.sqrt(el_conc(c.k, cst) if c.k == 2 else cst.const())
                    s = el_poly(S.R, r)
                y = el[1]
                zz = el[2] if proj else S.const(1)
                if S.zero(s) is True:
                    return
                t = sgn(S, c, s)
                if S.eng.reduce(y - s * zz).is0():
                    S.claim('the sign flag selects the root', T.eq(t, sg, 1))
                    result(S, proj, 'decoded point', x, s)
                else:
                    S.claim('the sign flag selects the root', T.eq(T.not_(t) if T.isT(t) else 1 - t, sg, 1))
                    result(S, proj, 'decoded point', x, -s)
        return spec
    for form in 'ag':
        for nm in ('dec', 'decu'):
            ops.append((ROp('%s_%s_%s' % (c.name, nm, form), '%s_%s_%s' % (c.name, nm, form), [('out', (3 if form == 'g' else 2) * c.k), ('inb', 'b', L.size)],
                            dec(form == 'g'), ret='u8', termret=True, gen=gen_enc(c, 'c'), weight=2, **kw), False))

    def udec(checked):
        def spec(S):
            if not S.symbolic:
                want, xy = cdecode(c, S.inp['b'], 'u')
                if not checked and want == 'none' and xy is not None:
                    want = xy
                S.check('accepted exactly when it is an encoding', S.ret == int(want != 'none'))
                return cresult(S, False, want)
            S.leaves = [w for w in S.inp['b']]
            bs = byte_terms(S, 'b')
            vx, ox = chunk_values(S, c, bs[:L.xs])
            vy, oy = chunk_values(S, c, bs[L.xs:])
            canon = T.and_(ox, oy, 1)
            ret = S.eng.ex.decide(T.trunc(S.ret, 8, 1)) if T.isT(S.ret) else bool(S.ret & 1)
            x, y = fq(c, vx), fq(c, vy)
            if not checked:
                S.claim('accepted exactly when the coordinates are canonical', T.eq(int(ret), canon, 1))
            else:
                e = S.zero(y * y - (x * x + el_poly(S.R, c.a)) * x - el_poly(S.R, c.b))
                if S.zero([x, y]) is True:
                    e = True
                if e is None:
                    S.check('membership was tested', not ret)
                    S.claim('refused without a membership test', T.not_(canon))
                else:
                    S.claim('accepted exactly for canonical coordinates of a point', T.eq(int(ret), canon if e else 0, 1))
            if ret:
                S.eq('decoded point', [fq(c, S.out[0][:c.k]), fq(c, S.out[0][c.k:])], [x, y])
        return spec
    for nm in ('udec', 'udecu'):
        ops.append((ROp('%s_%s' % (c.name, nm), '%s_%s_a' % (c.name, nm), [('out', 2 * c.k), ('inb', 'b', 2 * L.xs)], udec(nm == 'udec'),
                        ret='u8', termret=True, gen=gen_enc(c, 'u'), **kw), False))
    return ops


def hook_affine(c):
    """to_affine of (x, y, 1) and (0, 1, 0): decided by C12"""
    import re

    def h(eng, dom):
        D = getattr(eng, 'dom2', None) or dom
        es = dom.size * c.k

        def conv(e, name, a):
            z = eng.get(D, a[1] + 2 * es)
            if z.is0():
                for i in (0, 1):
                    eng.put(D, a[0] + es * i, dom.R.const(0))
                return
            if not (z - 1).is0():
                return NotImplemented
            for i in (0, 1):
                eng.put(D, a[0] + es * i, eng.get(D, a[1] + es * i))
        g = re.escape(c.path)
        eng.ex.add_hook(r'^<%s as (group::Curve|group::cofactor::CofactorCurve)>::to_affine$' % g, conv)
        eng.ex.add_hook(r'^<%sAffine as core::convert::From<&?%s>>::from$' % (g, g), conv)
    return h


def c15(w):
    obs = []
    for c in CURVES.values():
        for op, proj in c15_ops(c):
            obs.append(r_obligation(w.mod(), w.so(), c.f, op, evals=6, hooks=hook_affine(c) if proj else None))
    return obs


# ---- C16
def gen_rawpt(c, m, exact):
    def gen(op, f, rng, count):
        F, p = c.F, f.p
        pool = c.pool()
        from .group import enc_pt
        need = next(s[2] for s in op.sig if s[0] == 'inb')
        for t in range(count):
            P = rng.choice(pool + [None])
            if P and rng.random() < 0.5:
                P = c.neg(P)
            l = F.rnd(rng)
            l = l if l != F.zero and rng.random() < 0.7 else F.one
            b = bytearray(enc_pt(c, P, l if m == 3 else None))
            r = rng.random()
            n = len(b)
            if exact:
                pass
            elif r < 0.3:
                pass
            elif r < 0.5:
                b[rng.randrange(n)] ^= 1 << rng.randrange(8)
            elif r < 0.75:
                i = rng.randrange(n // f.size)
                x = int.from_bytes(b[i * f.size:(i + 1) * f.size], 'little')
                x = rng.choice((0, 1, p, p - 1, p + 1, x + p, f.mont(1))) % f.R
                b[i * f.size:(i + 1) * f.size] = x.to_bytes(f.size, 'little')
            else:
                z = 8 * f.n * c.k
                i = rng.randrange(m)
                b[i * z:(i + 1) * z] = bytes(z)
                if rng.random() < 0.5:
                    i = rng.randrange(m)
                    b[i * z:(i + 1) * z] = bytes(z)
            b = bytes(b)
            b = (b + b)[:max(need, 8)]
            yield dict(b=b)
    return gen


def c16_ops(c):
    f = c.f
    ops = []
    kw = dict(k=1, beta=c.beta, along=False, search=3000, split=c.k == 2)

    def coords(S, m, be=False):
        """values of the raw words, bit: all below the modulus"""
        if S.symbolic:
            vals, ok = [], 1
            for i in range(m * c.k):
                v, o = S.eng.rawint(S.dom, S.inp['b'][i * f.n:(i + 1) * f.n])
                vals.append(v * f.Rinv)
                ok = T.and_(ok, o, 1)
        else:
            v = [int.from_bytes(S.inp['b'][i * f.size:(i + 1) * f.size], 'little') for i in range(m * c.k)]
            ok = int(all(x < f.p for x in v))
            vals = [S.const(x * f.Rinv) for x in v]
        return [fq(c, vals[i * c.k:(i + 1) * c.k]) for i in range(m)], ok

    def member(S, P):
        """on the curve: True, False or None when the path does not say"""
        if len(P) == 2:
            x, y = P
            if S.zero([x, y]) is True:
                return True
            return S.zero(y * y - (x * x + el_poly(S.R, c.a)) * x - el_poly(S.R, c.b))
        X, Y, Z = P
        if S.zero([Y, Z]) is True:
            return False
        e = S.zero(Z * Y * Y - (X * X + el_poly(S.R, c.a) * Z * Z) * X - el_poly(S.R, c.b) * Z * Z * Z)
        if e is True:
            return True if S.zero(Y) is False or S.zero(Z) is False else None
        return e

    def dec(m, ln, exact):
        full = m * f.size * c.k

        def spec(S):
            if ln != full and (exact or ln < full):
                S.check('wrong length is refused', S.ret == 0 if not T.isT(S.ret) else False)
                return
            P, ok = coords(S, m)
            if S.symbolic:
                ret = S.eng.ex.decide(T.trunc(S.ret, 8, 1)) if T.isT(S.ret) else bool(S.ret & 1)
                e = member(S, P)
                if e is None:
                    S.check('membership was tested', not ret)
                    S.claim('refused without a membership test', T.not_(ok) if T.isT(ok) else 1 - ok)
                else:
                    S.claim('accepted exactly for canonical coordinates of a point', T.eq(int(ret), ok if e else 0, 1))
            else:
                ret = S.ret
                S.check('accepted exactly for canonical coordinates of a point', ret == int(bool(ok and member(S, P))))
            if ret:
                o = S.out[0]
                S.eq('coordinates kept', [fq(c, o[i * c.k:(i + 1) * c.k]) for i in range(m)], P)
        return spec

    def unchecked(m):
        def spec(S):
            P, _ = coords(S, m)
            o = S.out[0]
            S.eq('coordinates kept', [fq(c, o[i * c.k:(i + 1) * c.k]) for i in range(2 * m)], P + P)
        return spec

    def to_raw(m):
        n = m * f.size * c.k

        def spec(S):
            S.check('length', S.ret == n)
            for j in range(2):
                if S.symbolic:
                    exp = [w for x in S.inp['p'] for w in S.eng.new_token(S.dom, x)]
                    S.check('raw form: length', len(exp) == len(S.out[j]))
                    for a, b in zip(S.out[j], exp):
                        S.claim('raw form', T.eq(a, b, 64))
                else:
                    S.check('raw form %d' % j, S.out[j] == b''.join(f.enc(x.const()) for x in S.inp['p']))
        return spec
    for form, m in (('g', 3), ('a', 2)):
        full = m * f.size * c.k
        for ln in (full, full - 1, full + 1, full - f.size * c.k, 0):
            sig = [('out', m * c.k), ('inb', 'b', max(8, ln)), ('int', 'n', 64, ln)]
            for nm, exact in (('from_raw', True), ('read_raw', False)):
                ops.append(ROp('%s_%s_%s#%d' % (c.name, nm, form, ln), '%s_%s_%s' % (c.name, nm, form), sig, dec(m, ln, exact), ret='u8', termret=True,
                               gen=gen_rawpt(c, m, False), **kw))
        ops.append(ROp('%s_raw_unchecked_%s' % (c.name, form), '%s_raw_unchecked_%s' % (c.name, form),
                       [('out', 2 * m * c.k), ('inb', 'b', full), ('int', 'n', 64, full)], unchecked(m), gen=gen_rawpt(c, m, True), **kw))
        ops.append(ROp('%s_raw_%s' % (c.name, form), '%s_raw_%s' % (c.name, form), [('outb', full), ('outb', full), ('in', 'p', m * c.k)], to_raw(m), ret='u64', **kw))
    return ops


def c16(w):
    obs = []
    for c in CURVES.values():
        for op in c16_ops(c):
            obs.append(r_obligation(w.mod(), w.so(), c.f, op, evals=6))
    return obs
