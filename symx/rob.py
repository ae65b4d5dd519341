"""Obligations at level 1 (field elements are polynomials)."""
import random, itertools, time, re
from . import terms as T, native, bvq
from .interp import Exec, explore, Unsupported, Panic
from .ob import Ob, NotProved
from .ring import Ring, Poly, Dom, Eng, decl, span, leaf_vars, halves


class Sp:
    """what a specification sees of one path (or of one concrete run): inputs, outputs and assertions"""
    def __init__(self, R):
        self.R = R
        self.inp, self.out, self.ret = {}, [], None
        self.goals = []

    def const(self, c):
        return self.R.const(c)

    def eq(self, what, xs, ys):
        if isinstance(xs, Poly):
            xs, ys = [xs], [ys]
        for i, (x, y) in enumerate(zip(flat(xs), flat(ys))):
            if isinstance(x, int):
                x = self.R.const(x)
            if isinstance(y, int):
                y = self.R.const(y)
            self.goals.append(('%s[%d]' % (what, i), x, y))

    def claim(self, what, t):
        """a 1-bit term over the abstract bits and words, valid under the path condition"""
        self.goals.append((what, 'term', t))

    def check(self, what, cond):
        """a condition already decided on this path"""
        self.goals.append((what, None, bool(cond)))


class Sym(Sp):
    symbolic = True

    def __init__(self, eng, R):
        Sp.__init__(self, R)
        self.eng = eng

    def zero(self, x):
        """is x zero on this path: True, False or None when the path does not say"""
        if isinstance(x, (list, tuple)):
            r = [self.zero(y) for y in flat(x)]
            return False if False in r else (None if None in r else True)
        e = self.eng
        x = e.reduce(e.clear(e.reduce(x)))
        if getattr(x.R, 'split', False):
            c0, c1 = halves(x)
            if not c1.is0():
                return self.zero([c0, c1])
        if x.is0():
            return True
        if x.isconst():
            return False
        fs = e.monomial_factors(x)
        if fs:
            r = [self.zero(f) for f in fs]
            if all(v is False for v in r):
                return False
            return True if True in r else None
        k = x.key()
        for y in e.nz:
            if y.R is x.R:
                y = e.reduce(e.clear(e.reduce(y)))
                if not y.is0() and y.key() == k:
                    return False
        for h in e.hyp:
            if h.R is x.R:
                h = e.reduce(h)
                if not h.is0() and h.key() == k:
                    return True
        return None


class Conc(Sp):
    symbolic = False

    def zero(self, x):
        if isinstance(x, (list, tuple)):
            return all(self.zero(y) for y in flat(x))
        return x.is0()


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


class ROp:
    """entry; sig items:
         ('out', k)            k elements written
         ('outb', nbytes)      raw bytes written
         ('in', name, k)       k symbolic elements
         ('var', name, k)      k symbolic elements that are not passed
         ('inx', fn, k)        k elements computed from S.inp
         ('int', name, bits, value)   concrete integer
         ('sint', name, bits)  integer chosen symbolically by forking on its low bit (0/1)
       spec(S): adds goals; pre(S): list of polys assumed zero on the inputs, given as ('zero',poly)/('sub',..)"""
    def __init__(self, name, entry, sig, spec, ret=None, gen=None, weight=1, hyps=None, maxpaths=512, termret=False, k=1, beta=None, along=True, search=12000, cleared=True, split=False, roots=False):
        self.__dict__.update(name=name, entry=entry, sig=sig, spec=spec, ret=ret, gen=gen, weight=weight,
                             hyps=hyps, maxpaths=maxpaths, termret=termret, k=k, beta=beta, along=along, search=search, cleared=cleared, split=split, roots=roots)


def el_enc(f, k, x):
    if k == 1:
        return f.enc(x)
    return b''.join(f.enc(y) for y in x)


def el_poly(R, x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, tuple):
        return R.const(x[0]) + (R.const(x[1]) * R.var('u!') if x[1] else 0)
    return R.const(x)


def el_conc(k, x):
    """inverse of el_poly on constants"""
    if k == 1:
        return x.m.get(0, 0)
    return (x.m.get(0, 0), x.m.get(1, 0))


def special_values(f, rng):
    return [0, 1, f.p - 1, 2, f.p - 2, f.Rinv, f.R % f.p, (f.p - 1) // 2, (f.p + 1) // 2, 3, f.p - 3, 5, (1 << 64) % f.p]


def gen_inputs(op, f, rng, count):
    """concrete inputs: random, special, with repeated and opposite coordinates"""
    names = [(s[1], s[2]) for s in op.sig if s[0] == 'in']
    ints = [s for s in op.sig if s[0] == 'sint']
    sv = special_values(f, rng)
    for c in range(count):
        mode = rng.random()
        v = {}
        for s in op.sig:
            if s[0] == 'inb':
                v[s[1]] = gen_bytes(f, s[2], rng)
        pool = [rng.randrange(f.p) for _ in range(2)]
        pool += [f.p - x for x in pool]
        for n, k in names:
            if mode < 0.3:
                v[n] = [rng.randrange(f.p) for _ in range(k)]
            elif mode < 0.6:
                v[n] = [rng.choice(sv) if rng.random() < 0.6 else rng.randrange(f.p) for _ in range(k)]
            elif mode < 0.8:
                v[n] = [rng.choice((0, 0, 1, f.p - 1, rng.choice(pool))) for _ in range(k)]
            else:
                v[n] = [rng.choice(f.boundary()) for _ in range(k)]
        if len(names) > 1 and rng.random() < 0.3:
            a, b = rng.sample(names, 2)
            if a[1] == b[1]:
                t = rng.random()
                v[b[0]] = list(v[a[0]]) if t < 0.5 else [-x % f.p for x in v[a[0]]]
                if t > 0.8 and a[1] > 1:
                    h = a[1] // 2
                    v[b[0]] = v[a[0]][:h] + [-x % f.p for x in v[a[0]][h:]]
        for s in ints:
            v[s[1]] = rng.getrandbits(s[2]) if s[2] > 1 else rng.getrandbits(1)
        yield v


def gen_bytes(f, n, rng):
    """byte strings made of near-canonical chunks"""
    t = rng.random()
    out = b''
    while len(out) < n:
        m = rng.random()
        if m < 0.4:
            x = rng.randrange(f.p)
        elif m < 0.7:
            x = (f.p + rng.randrange(-3, 4)) % f.R
        elif m < 0.8:
            x = rng.randrange(f.R)
        elif m < 0.9:
            x = rng.choice((0, 1, f.R - 1, f.R >> 1, f.p - 1))
        else:
            x = rng.choice(f.boundary())
        out += x.to_bytes(f.size, 'big' if t < 0.5 else 'little')
    return out[:n]


def conc_inputs(op, R, v):
    return {n: [el_poly(R, x) for x in xs] if isinstance(xs, list) else xs for n, xs in v.items()}


def nat_call(op, f, v):
    a = []
    if any(s[0] == 'inx' for s in op.sig):
        S = Conc(Ring(f.p, op.beta))
        S.f = f
        S.inp = conc_inputs(op, S.R, v)
    for s in op.sig:
        if s[0] == 'out':
            a.append(native.Out(8 * f.n * op.k * s[1]))
        elif s[0] == 'inx':
            a.append(native.In(b''.join(el_enc(f, op.k, el_conc(op.k, x)) for x in s[1](S))))
        elif s[0] == 'outb':
            a.append(native.Out(s[1]))
        elif s[0] == 'in':
            a.append(native.In(b''.join(el_enc(f, op.k, x) for x in v[s[1]])))
        elif s[0] == 'inb':
            a.append(native.In(v[s[1]]))
        elif s[0] == 'int':
            a.append(native.Int(s[3], s[2]))
        elif s[0] == 'sint':
            a.append(native.Int(v[s[1]], 8 if s[2] <= 8 else 64))
    return (getattr(op, 'nat_entry', None) or op.entry, a, op.ret)


def conc_check(op, f, R, v, res):
    """None when the native result satisfies the specification, else a description"""
    if res[0] == 'skipped':
        return None
    if res[0] != 'ok':
        if getattr(op, 'may_panic', None) and op.may_panic(v):
            return None
        return 'native run: %s' % res[0]
    S = Conc(R)
    S.inp = conc_inputs(op, R, v)
    S.f = f
    S.ret = res[1]
    outs = iter(res[2])
    for s in op.sig:
        if s[0] == 'out':
            b = next(outs)
            o = []
            for i in range(s[1] * op.k):
                x = int.from_bytes(b[8 * f.n * i:8 * f.n * (i + 1)], 'little')
                if x >= f.p:
                    return 'output element %d is not canonical' % i
                o.append(f.unmont(x))
            if op.k == 2:
                o = [(o[2 * i], o[2 * i + 1]) for i in range(s[1])]
            S.out.append([el_poly(R, x) for x in o])
        elif s[0] == 'outb':
            S.out.append(next(outs))
    op.spec(S)
    for what, x, y in S.goals:
        if x is None or isinstance(x, str):
            if not y:
                return what
        elif not (x - y).is0():
            return what
    return None


def r_obligation(mod, so, f, op, hooks=None, exsetup=None, evals=6, beta=None):
    """hooks(eng, dom): extra interceptions"""
    def mk():
        ex = Exec(mod)
        eng = Eng(ex)
        if op.k == 1:
            dom = Dom(eng, f, Ring(f.p, op.beta))
            eng.roots = op.roots
            if op.split:
                dom.R.split = True
                d2 = eng.dom2 = Dom(eng, f, dom.R, 'halo2curves::ff_ext::quadratic::QuadExtField<%s>' % f.path, 2)
                d2.split = dom
                eng.field(d2)
        else:
            dom = Dom(eng, f, Ring(f.p, op.beta), 'halo2curves::ff_ext::quadratic::QuadExtField<%s>' % f.path, 2)
        eng.field(dom)
        if hooks:
            hooks(eng, dom)
        return ex, eng, dom

    def symrun(ex, eng, dom):
        eng.reset()
        R = dom.R
        S = Sym(eng, R)
        S.f, S.dom = f, dom
        args, outs, late = [], [], []
        for s in op.sig:
            if s[0] == 'out':
                a = ex.new(dom.size * s[1], 'out')
                outs.append((a, s[1], 0))
                args.append(a)
            elif s[0] == 'outb':
                a = ex.new(s[1], 'out')
                outs.append((a, s[1], 1))
                args.append(a)
            elif s[0] == 'in':
                a = ex.new(dom.size * s[2], s[1])
                S.inp[s[1]] = [R.var('%s%d' % (s[1], i)) for i in range(s[2])]
                for i, x in enumerate(S.inp[s[1]]):
                    eng.put(dom, a + dom.size * i, x)
                args.append(a)
            elif s[0] == 'var':
                S.inp[s[1]] = [R.var('%s%d' % (s[1], i)) for i in range(s[2])]
            elif s[0] == 'inx':
                a = ex.new(dom.size * s[2], 'in')
                args.append(a)
                late.append((a, s[1]))
            elif s[0] == 'inb':
                a = ex.new(max(1, s[2]), s[1])
                ws = [T.var('%s%d' % (s[1], i), 8 * min(8, s[2] - 8 * i)) for i in range((s[2] + 7) // 8)]
                for i, x in enumerate(ws):
                    ex.store(a + 8 * i, x.w // 8, x)
                S.inp[s[1]] = ws
                args.append(a)
            elif s[0] == 'int':
                args.append(s[3])
            elif s[0] == 'sint':
                t = T.var(s[1], 1)
                S.inp[s[1]] = t
                args.append(T.zext(t, 1, s[2] if s[2] > 1 else 8))
        if op.hyps:
            op.hyps(S)
        for a, fn in late:
            for i, x in enumerate(fn(S)):
                eng.put(dom, a + dom.size * i, eng.reduce(x) if isinstance(x, Poly) else R.const(x))
        S.ret = ex.call(op.entry, args)
        if op.ret and not op.termret:
            S.ret = eng.value(S.ret)
            S.ret &= T.M({'u8': 8, 'i64': 64, 'u64': 64}[op.ret])
        for a, k, kind in outs:
            if kind:
                S.out.append([ex.load(a + i, min(8, k - i)) for i in range(0, k, 8)])
            else:
                o = []
                for i in range(k):
                    try:
                        o.append(eng.get(dom, a + dom.size * i))
                    except Unsupported:
                        raise
                S.out.append(o)
        eng.sync()
        for n, x in list(S.inp.items()):
            if T.isT(x):
                S.inp[n] = int(ex.decide(x))
        op.spec(S)
        goals = []
        for what, x, y in S.goals:
            if x is None or isinstance(x, str):
                goals.append((what, x, y))
            else:
                g = eng.reduce(eng.clear(eng.reduce(x - y)))
                goals.append((what, x, y, g) if eng.rels else (what, eng.reduce(x), eng.reduce(y), g))
        links = eng.links(S.zero)
        return S, goals, dict(links=links, sub=list(eng.sub), hyp=list(eng.hyp), nz=list(eng.nz), rels=list(eng.rels))

    def run(rec):
        ex, eng, dom = mk()
        R = dom.R
        def go():
            try:
                return symrun(ex, eng, dom)
            except Panic as e:
                eng.sync()
                return None, str(e), dict(links=eng.links(Sym(eng, R).zero))
        paths = list(explore(go, ex, op.maxpaths))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        # encoding against the machine
        rng = random.Random(7)
        vs = list(itertools.islice((op.gen or gen_inputs)(op, f, rng, 40), evals))
        for v, r in zip(vs, native.batch(so, [nat_call(op, f, v) for v in vs])):
            w = conc_check(op, f, R, v, r)
            if w:
                raise NotProved(w, 'native run differs')
        bad = None
        for pc, (st, res) in paths:
            S, goals, hy = res
            if S is None:
                b = bvq.BV()
                ps = [(b.tr(c), r) for c, r in pc] + [(b.tr(t), 1) for t in hy['links']]
                rec.prove('panic unreachable: %s' % goals[:120], b.script(['(= %s #b%d)' % (n, int(r)) for n, r in ps]) + '\n(check-sat)\n', 60)
                continue
            todo, claims = [], []
            maybe = None
            for g in goals:
                if g[1] is None:
                    if not g[2]:
                        claims.append((g[0] + ' on a path', 'term', 0))
                        maybe = None
                    continue
                if g[1] == 'term':
                    claims.append(g)
                    continue
                what, x, y, d = g
                if not d.is0():
                    c = None
                    hs = [h for h in hy['hyp'] if h.R is d.R]
                    if hs:
                        c = span(d, hs)
                        if c is None:
                            ms = [d.R.const(1)] + [Poly(d.R, {k: 1}, 4) for h in [d] + hs for k in list(h.m)[:12]]
                            hs2 = [h * m for h in hs for m in ms[:40]]
                            c = span(d, hs2)
                            hs = hs2
                    if c is None:
                        claims.append((what, 'term', 0))
                        maybe = d
                        continue
                    todo.append((what, d, sum((hs[j] * l for j, l in c.items()), d.R.const(0)), [hs[j] for j in c]))
                else:
                    todo.append((what, x, y, []) if not (hy['sub'] or hy['rels']) else (what, d, d.R.const(0), []))
            if claims:
                b = bvq.BV()
                ts = [b.tr(t, 1) for _, _, t in claims]
                ps = [(b.tr(c), r) for c, r in pc] + [(b.tr(t), 1) for t in hy['links']]
                ts = sorted(set(ts))
                try:
                    # a failed identity is a violation only if the path is feasible
                    rec.prove('; '.join(sorted(set(c[0] for c in claims)))[:200],
                              b.script(['(= %s #b%d)' % (n, int(r)) for n, r in ps] +
                                       ['(or (= #b0 #b1) %s)' % ' '.join('(= %s #b0)' % n for n in ts)]) + '\n(check-sat)\n', 120)
                except NotProved as e:
                    e.path, e.goal = hy, maybe
                    raise
            # one query per path: some goal's two sides differ mod p
            for i in range(0, len(todo), 16):
                part = todo[i:i + 16]
                ps = [p for _, x, y, hs in part for p in (x, y)]
                txt = decl(ps) + '(assert (or %s))\n(check-sat)\n' % ' '.join(
                    '(not (= (mod (- %s %s) %d) 0))' % (x.text(), y.text(), x.R.p) for _, x, y, _ in part)
                rec.prove('; '.join(w for w, *_ in part)[:200], txt, 120)
        if bad:
            raise bad

    def search(e):
        rng = random.Random(11)
        ex, eng, dom = mk()
        R = dom.R
        vs = []
        hy = getattr(e, 'path', None)
        if hy and op.along:
            names = {n: i for i, n in enumerate(R.names)}
            for t in range(300):
                # inputs on the failing path: free variables random, the others from the hypotheses
                v = next((op.gen or gen_inputs)(op, f, rng, 1))
                vs.append(along(op, f, v, hy, e, rng))
        vs = [v for v in vs if v]
        vs += list((op.gen or gen_inputs)(op, f, rng, op.search))
        for i in range(0, len(vs), 3000):
            part = vs[i:i + 3000]
            for v, r in zip(part, native.batch(so, [nat_call(op, f, v) for v in part])):
                w = conc_check(op, f, R, v, r)
                if w:
                    return dict(entry=op.entry, violated=w, inputs={n: [str(y) if isinstance(y, tuple) else hex(y) for y in x] if isinstance(x, list) else (x.hex() if isinstance(x, bytes) else x) for n, x in v.items()},
                                native=[r[0]] + ([r[1]] + [o.hex() if isinstance(o, bytes) else o for o in r[2]] if r[0] == 'ok' else []))
        return None
    o = Ob(op.name, run, search, op.weight, op.entry)
    o.light = True
    return o


def along(op, f, v, hy, e, rng):
    """adjust the random inputs v so that the path hypotheses hold (the path came from another Ring object: names are matched)"""
    try:
        where = {}
        for s in op.sig:
            if s[0] == 'in':
                for i in range(s[2]):
                    where['%s%d' % (s[1], i)] = (s[1], i)
        v = {n: list(x) if isinstance(x, list) else x for n, x in v.items()}
        for R, i, q in reversed(hy['sub']):
            env = {}
            for j in q.vars():
                n, k = where[R.names[j]]
                env[j] = v[n][k]
            n, k = where[R.names[i]]
            v[n][k] = q.ev(env)
        return v
    except KeyError:
        return None
