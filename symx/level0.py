"""Level 0: every limb-level routine of every prime field, decided over all inputs by
integer-linear queries.  The IR of the harness entry point is executed on symbolic
limbs/bytes; outputs are terms; the specification is congruence + range."""
import random, re, time, itertools
from . import terms as T, lia, native, bvq
from .interp import Exec, explore, Panic
from .ob import Ob, NotProved


class LQ:
    """one path of one symbolic run"""
    def __init__(self, rec, timeout=90):
        self.c = lia.Ctx()
        self.rec = rec
        self.asm = []
        self.timeout = timeout
        self.samples = []
        self.pc = []
        self.adds = []
        self.muls = []

    def num(self, n):
        return str(n) if n >= 0 else '(- %d)' % -n

    def big(self, words, w=64):
        c = self.c
        r = c.lconst(0)
        for i, v in enumerate(words):
            r = c.ladd(r, c.lscale(c.tr(v), 1 << (w * i)))
        return r

    def assume(self, text, *ls):
        self.asm.append((text, list(ls)))

    def assume_range(self, X, lo, hi):
        """lo <= X <= hi"""
        s = self.c.smt(X)
        self.assume('(and (<= %s %s) (<= %s %s))' % (self.num(lo), s, s, self.num(hi)), X)
        self.c.note(lia.L(X.c, X.m, max(X.lo, lo), min(X.hi, hi)))

    def assume_bit(self, t, val):
        X = self.c.tr(t)
        self.assume('(= %s %d)' % (self.c.smt(X), int(val)), X)

    def goal(self, what, neg, *ls, hints=()):
        q, _ = self.c.query(self.asm, (neg, list(ls)), hint_atoms=hints)
        return self.rec.prove(what, q, self.timeout)

    def in_range(self, what, O, p):
        s = self.c.smt(O)
        if O.lo >= 0 and O.hi < p:
            return
        self.goal(what, '(not (and (<= 0 %s) (< %s %d)))' % (s, s, p), O)

    def congruent(self, what, E, p, hints=()):
        """E = 0 mod p.  Reduce the coefficients mod p; what is left are carries whose coefficients
        agree up to small factors.  Each such group is shown to be constant by its own query."""
        m = {}
        for a, v in E.m.items():
            r = v % p
            if r > p // 2:
                r -= p
            if r:
                m[a] = r
        if not m:
            if E.c % p == 0:
                self.rec.goals += 1
                return
            raise NotProved(what, 'constant residue %d' % (E.c % p))
        groups = []
        for a in sorted(m, key=lambda a: a.id):
            r = m[a]
            for g in groups:
                k = r * g[1] % p
                if k > p // 2:
                    k -= p
                if abs(k) < 1 << 20:
                    g[2][a] = k
                    break
            else:
                groups.append((r, pow(r, -1, p), {a: 1}))
        if callable(self.samples):
            self.samples = self.samples()
        if self.samples and self.relations(what, E.c, groups, p, hints):
            return
        R = self.c.lin(E.c % p, m)
        self.goal(what, '(not (= (mod %s %d) 0))' % (self.c.smt(R), p), R, *hints)

    def relations(self, what, c0, groups, p, hints):
        """conjecture, from concrete runs, that every carry group is an affine function of one of a few
        representatives and that these cancel mod p; then have the solver prove each conjecture.
        Proved relations stay as lemmas."""
        c = self.c
        memos = [{} for _ in self.samples]

        def vec(S):
            return [c.evalL(S, env, memo) for env, memo in zip(self.samples, memos)]
        conj = []     # (order, text, [L])
        tot = c0
        reps = []     # [vec, S, coefficient, base value, lo->hi scale]
        consts = []   # groups with the same value in every run
        for r, _, gm in groups:
            S = c.lin(0, gm)
            v = vec(S)
            k = max(a.id for a in gm)
            if min(v) == max(v):
                tot += r * v[0]
                if not (S.lo == S.hi):
                    consts.append((r, S, v[0], k))
                continue
            for rp in reps:
                # v = al*u + be ?
                u = rp[0]
                i1 = rp[3]
                du = u[i1] - u[0]
                dv = v[i1] - v[0]
                if dv % du:
                    continue
                al = dv // du
                be = v[0] - al * u[0]
                if all(y == al * x + be for x, y in zip(u, v)):
                    rp[2] += r * al
                    tot += r * be
                    D = c.ladd(S, rp[1], -al)
                    if not (D.const() or D.lo == D.hi):
                        conj.append((max(k, rp[4]), '(= %s %s)' % (c.smt(D), self.num(be)), [D]))
                    break
            else:
                i1 = next(i for i in range(len(v)) if v[i] != v[0])
                # prefer a small-step representative
                reps.append([v, S, r, i1, k])
        if tot % p or any(rp[2] % p for rp in reps):
            return False
        # constant in every run may just mean "rarely different": if some of these groups cancel
        # against each other, ask for equality among them instead of for constants
        tied = {}
        if 2 <= len(consts) <= 9:
            best = None
            for sg in itertools.product((0, 1, -1), repeat=len(consts)):
                sup = [i for i, s in enumerate(sg) if s]
                if len(sup) < 2 or sg[sup[0]] != 1 or (best and len(sup) >= len(best[0])):
                    continue
                if sum(s * x[0] for s, x in zip(sg, consts)) % p == 0:
                    best = (sup, sg)
            if best:
                sup, sg = best
                r0, S0, v0, k0 = consts[sup[0]]
                for i in sup[1:]:
                    _, S, v, k = consts[i]
                    D = c.ladd(S, S0, -sg[i])
                    tied[i] = 1
                    if not (D.const() or D.lo == D.hi):
                        conj.append((max(k, k0), '(= %s %s)' % (c.smt(D), self.num(v - sg[i] * v0)), [D]))
                tied[sup[0]] = 1
        for i, (r, S, v, k) in enumerate(consts):
            if i not in tied:
                conj.append((k, '(= %s %s)' % (c.smt(S), self.num(v)), [S]))
        done = set(t for _, t, _ in conj)
        # carries that happen to be constant in every run: proved facts about them help the rest
        sup = c.support([l for _, _, ls in conj for l in ls])
        aux = []
        for a in sup:
            if a.defn and a.kind in 'qn' and a.hi - a.lo <= 2:
                X = c.latom(a)
                v = vec(X)
                if min(v) == max(v) and a.lo != a.hi:
                    t = '(= %s %s)' % (a.name, self.num(v[0]))
                    if t not in done:
                        aux.append((a.id, t, [X], True))
        n0 = len(self.asm)
        t0 = self.timeout
        aux.sort(key=lambda x: x[0])

        def attempt(t, ls, to, opt=False):
            g0 = self.rec.goals
            self.timeout = to
            try:
                self.goal(what + ': carry relation', '(not %s)' % t, *ls, *hints)
                self.assume(t, *ls)
                return True
            except NotProved:
                self.rec.goals = g0
                return False
            finally:
                self.timeout = t0
        late = []
        for k, t, ls in sorted(conj, key=lambda x: x[0]):
            if attempt(t, ls, 5 if len(c.atoms) < 150 else 12):
                continue
            while aux and aux[0][0] <= k:
                _, t2, l2, _ = aux.pop(0)
                attempt(t2, l2, 3)
            if not attempt(t, ls, 30):
                late.append((t, ls))
        for t, ls in late:
            if not attempt(t, ls, t0):
                return False
        self.rec.goals += 1
        return True

    def iff(self, what, bit, cond, *ls):
        """the 0/1 term `bit` equals the SMT condition text"""
        B = self.c.tr(bit)
        self.goal(what, '(not (= (= %s 1) %s))' % (self.c.smt(B), cond), B, *ls)
        if not (B.lo >= 0 and B.hi <= 1):
            s = self.c.smt(B)
            self.goal(what + ' is 0/1', '(not (or (= %s 0) (= %s 1)))' % (s, s), B)

    def equal(self, what, X, Y):
        D = self.c.ladd(X, Y, -1)
        if D.const():
            self.rec.goals += 1
            if D.c:
                raise NotProved(what, 'differ by %d' % D.c)
            return
        self.goal(what, '(not (= %s 0))' % self.c.smt(D), D)

    def cut(self, words, p, name):
        """replace the terms `words` by fresh words of an integer in [0,p) (their range and
        meaning are proved by another obligation)"""
        for i, t in enumerate(words):
            if type(t) is T.Term:
                self.c.memo[t] = self.c.latom(self.c.var('%s%d' % (name, i), 0, T.M(64)))
        X = self.big(words)
        self.assume_range(X, 0, p - 1)
        return X


# ------------------------------------------------------------------ op table
class Op:
    def __init__(self, name, sig, goals, ref, ret=None, gen=None, variants=1, needs=(), weight=1):
        self.name, self.sig, self.goals, self.ref, self.ret, self.gen = name, sig, goals, ref, ret, gen
        self.weight = weight


class Run:
    """symbolic or concrete instantiation of an Op for a field"""
    def __init__(self, f, ops):
        pass


def words_of(ex, addr, nbytes):
    return [ex.load(addr + 8 * i, 8) for i in range(nbytes // 8)]


def setup(ex, f, sig, conc=None):
    """allocate arguments. returns (callargs, inputs{name:words}, outs[(addr,n)])"""
    args, ins, outs = [], {}, []
    for s in sig:
        k = s[0]
        if k == 'out':
            a = ex.new(s[1], 'out')
            args.append(a)
            outs.append((a, s[1]))
        elif k in ('elt', 'words', 'elts'):
            n = f.n if k == 'elt' else (s[2] if k == 'words' else f.n * s[2])
            a = ex.new(8 * n, s[1])
            vs = [T.var('%s%d' % (s[1], i), 64) for i in range(n)]
            if conc is not None and s[1] in conc:
                vs = [(conc[s[1]] >> (64 * i)) & T.M(64) for i in range(n)]
            for i, v in enumerate(vs):
                ex.store(a + 8 * i, 8, v)
            args.append(a)
            ins[s[1]] = vs
        elif k == 'bytes':
            n, be = s[2], s[3]
            a = ex.new(n, s[1])
            nw = (n + 7) // 8
            vs = []
            for i in range(nw):
                nb = min(8, n - 8 * i)
                vs.append(T.var('%s%d' % (s[1], i), 8 * nb))
            if conc is not None and s[1] in conc:
                vs = [(conc[s[1]] >> (64 * i)) & T.M(64) for i in range(nw)]
            for i, v in enumerate(vs):
                nb = min(8, n - 8 * i)
                for j in range(nb):
                    b = T.byte(v, j) if T.isT(v) else (v >> (8 * j)) & 255
                    off = 8 * i + j
                    ex.store(a + (n - 1 - off if be else off), 1, b)
            args.append(a)
            ins[s[1]] = vs
        elif k == 'u64':
            v = T.var(s[1], 64) if conc is None or s[1] not in conc else conc[s[1]]
            args.append(v)
            ins[s[1]] = [v]
        elif k == 'bool':
            v = T.zext(T.var(s[1], 1), 1, 8) if conc is None or s[1] not in conc else conc[s[1]]
            args.append(v)
            ins[s[1]] = [v]
        elif k == 'const':
            args.append(s[1])
    return args, ins, outs


def nargs(f, sig, vals):
    """native arguments for integer input values"""
    r = []
    for s in sig:
        k = s[0]
        if k == 'out':
            r.append(native.Out(s[1]))
        elif k == 'elt':
            r.append(native.In(vals[s[1]].to_bytes(8 * f.n, 'little')))
        elif k == 'elts':
            r.append(native.In(vals[s[1]].to_bytes(8 * f.n * s[2], 'little')))
        elif k == 'words':
            r.append(native.In(vals[s[1]].to_bytes(8 * s[2], 'little')))
        elif k == 'bytes':
            r.append(native.In(vals[s[1]].to_bytes(s[2], 'big' if s[3] else 'little')))
        elif k == 'u64':
            r.append(native.Int(vals[s[1]], 64))
        elif k == 'bool':
            r.append(native.Int(vals[s[1]], 8))
        elif k == 'const':
            r.append(native.Int(s[1], 64))
    return r


def gen_vals(f, sig, rng, count):
    """concrete inputs for replay search: boundary product + structured random"""
    names = [s for s in sig if s[0] not in ('out', 'const')]
    pools = []
    for s in names:
        k = s[0]
        if k == 'elt':
            pools.append(f.boundary())
        elif k == 'elts':
            b = f.boundary()
            pools.append([sum(rng.choice(b) << (64 * f.n * i) for i in range(s[2])) for _ in range(400)])
        elif k in ('words', 'bytes'):
            nb = 8 * s[2] if k == 'words' else s[2]
            top = 1 << (8 * nb)
            b = set()
            for m in range(0, 6):
                for d in range(-3, 4):
                    b.add(m * f.p + d)
            for q in range(0, 8 * nb, 32):
                b |= {1 << q, (1 << q) - 1, top - (1 << q)}
            b |= {top - 1, top - 2, (top - 1) // f.p * f.p, (top - 1) // f.p * f.p - 1, top // 2}
            pools.append(sorted(x for x in b if 0 <= x < top))
        elif k == 'u64':
            pools.append([0, 1, 2, 3, 255, 256, 65534, 65535, 65536, 65537, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64 - 2])
        elif k == 'bool':
            pools.append([0, 1])
    n = 0
    tot = 1
    for p in pools:
        tot *= len(p)
    if tot <= count:
        for c in itertools.product(*pools):
            yield dict(zip([s[1] for s in names], c))
            n += 1
    else:
        for _ in range(count // 2):
            yield {s[1]: rng.choice(p) for s, p in zip(names, pools)}
    while n < count:
        n += 1
        v = {}
        for s, p in zip(names, pools):
            k = s[0]
            if rng.random() < 0.2:
                v[s[1]] = rng.choice(p)
            elif k == 'elt':
                v[s[1]] = f.samples(rng, 1)[0]
            elif k == 'elts':
                v[s[1]] = sum(x << (64 * f.n * i) for i, x in enumerate(f.samples(rng, s[2])))
            elif k in ('words', 'bytes'):
                v[s[1]] = rng.getrandbits(8 * (8 * s[2] if k == 'words' else s[2]))
            elif k == 'u64':
                v[s[1]] = rng.getrandbits(rng.choice((8, 16, 17, 32, 64)))
            else:
                v[s[1]] = rng.getrandbits(1)
        yield v


def check_native(so, f, op, entry, vals_list):
    """first input on which the native code differs from the reference, or None"""
    calls = [(entry, nargs(f, op.sig, v), op.ret) for v in vals_list]
    res = native.batch(so, calls)
    for v, r in zip(vals_list, res):
        exp = op.ref(f, v)
        if r[0] == 'skipped':
            continue
        if r[0] != 'ok':
            return dict(entry=entry, inputs={k: hex(x) for k, x in v.items()}, got=r[0], expected=show(exp))
        outs = [int.from_bytes(o, 'little') for o in r[2]]
        bad = not match(op, f, exp, outs, r[1])
        if bad:
            return dict(entry=entry, inputs={k: hex(x) for k, x in v.items()},
                        got=dict(ret=r[1], outs=[hex(x) for x in outs]), expected=show(exp))
    return None


def show(exp):
    return str([hex(x) if type(x) is int else (x if x is None else str(x)[:60]) for x in (exp[0] + [exp[1]])])


def match(op, f, exp, outs, ret):
    eo, er = exp
    if er is not None and er != ret:
        return False
    for e, o in zip(eo, outs):
        if e is None:
            continue
        if callable(e):
            if not e(o):
                return False
        elif e != o:
            return False
    return True


def op_obligation(mod, f, op, entry, so, evalcheck=True, prefix='', xhooks=None):
    if op.goals in (g_conv, g_u128) and xhooks is None:
        def hooks(ex):
            abstract_add(ex, f)
            abstract_mul(ex, f)
        o1 = op_obligation(mod, f, op, entry, so, evalcheck, prefix, hooks)
        o2 = op_obligation(mod, f, op, entry, so, evalcheck, prefix, lambda ex: None)

        o1_run = o1.run

        def run(rec):
            try:
                o1_run(rec)
            except Exception as e:
                if isinstance(e, NotProved) and e.verdict == 'sat':
                    raise
                o2.run(rec)
        return Ob(o1.name, run, o2.search, o1.weight, o1.group)
    def run(rec):
        ex = Exec(mod)
        if xhooks:
            xhooks(ex)
        hold = {}

        def go():
            args, ins, outs = setup(ex, f, op.sig)
            ret = ex.call(entry, args)
            ow = [words_of8(ex, a, n) for a, n in outs] + aux(ex, f, op, args)
            hold['adds'] = ex.adds = getattr(ex, 'adds', [])
            hold['muls'] = ex.muls = getattr(ex, 'muls', [])
            return ins, ow, ret
        paths = list(explore(go, ex))
        rec.saw(ex)
        rec.info['paths'] = len(paths)
        ins0 = None
        # 1. the encoding agrees with the machine on concrete inputs (guards the encoder)
        if evalcheck:
            rng = random.Random(1)
            vs = list(itertools.islice(gen_vals(f, op.sig, rng, 40), 40))
            rng.shuffle(vs)
            vs = vs[:6]
            nat = native.batch(so, [(entry, nargs(f, op.sig, v), op.ret) for v in vs])
            for v, nr in zip(vs, nat):
                env = env_of(f, op.sig, v)
                derive_env(f, hold['adds'], env, hold['muls'])
                hit = 0
                for pc, (st, res) in paths:
                    memo = {}
                    if all(T.evaluate(c, env, memo) == int(r) for c, r in pc):
                        hit += 1
                        if st == 'panic':
                            if nr[0] != 'panic':
                                raise RuntimeError('encoder/native mismatch: panic')
                            continue
                        if nr[0] != 'ok':
                            raise RuntimeError('encoder/native mismatch: native ' + nr[0])
                        _, ow, ret = res
                        for words, nb in zip(ow, nr[2]):
                            off = 0
                            for w, x in words:
                                off += w
                                if x is None:
                                    continue
                                e = T.evaluate(x, env, memo) if T.isT(x) else x
                                if e != int.from_bytes(nb[off - w:off], 'little'):
                                    raise RuntimeError('encoder/native mismatch in %s on %r' % (entry, v))
                        if op.ret and T.isT(ret):
                            ret = T.evaluate(ret, env, memo)
                        if op.ret and ret != nr[1]:
                            if not (op.ret == 'i64' and (ret - nr[1]) % (1 << 64) == 0):
                                raise RuntimeError('encoder/native return mismatch in %s: %r %r' % (entry, ret, nr[1]))
                if hit != 1:
                    raise RuntimeError('%d paths cover a concrete input' % hit)
            rec.info['eval'] = len(vs)
        # 2. the property on every path
        for pc, (st, res) in paths:
            q = LQ(rec)
            if st == 'panic':
                V = {}
                base(q, f, op.sig, None)
                for c, r in pc:
                    q.assume_bit(c, r)
                q.goal('panic unreachable: ' + res[:80], 'true', *[l for _, ls in q.asm for l in ls])
                continue
            ins, ow, ret = res
            V = base(q, f, op.sig, ins)
            for c, r in pc:
                q.assume_bit(c, r)
            q.adds = hold['adds']

            q.muls = hold['muls']

            def mk_samples(pc=pc, adds=q.adds, muls=q.muls):
                r = samples_for(f, op, pc)
                for env in r:
                    derive_env(f, adds, env, muls)
                return r
            q.samples = mk_samples
            q.pc = pc
            outs = [Outs(q, w) for w in ow]
            op.goals(q, f, V, outs, ret)

    def search(e):
        rng = random.Random(7)
        vals = []
        if e.model:
            v = {}
            for s in op.sig:
                if s[0] in ('out', 'const'):
                    continue
                nb = {'elt': f.n, 'elts': f.n * s[2] if len(s) > 2 else 0, 'words': s[2] if len(s) > 2 else 0, 'bytes': (s[2] + 7) // 8 if len(s) > 2 else 0}.get(s[0])
                if nb:
                    v[s[1]] = sum((e.model.get('%s%d' % (s[1], i), 0)) << (64 * i) for i in range(nb))
                else:
                    v[s[1]] = e.model.get(s[1], 0)
            vals.append(v)
            b = f.boundary()
            # model-guided neighbours
            for s in op.sig:
                if s[0] == 'elt':
                    for x in b:
                        w = dict(v)
                        w[s[1]] = x
                        vals.append(w)
        vals += list(gen_vals(f, op.sig, rng, 20000))
        for i in range(0, len(vals), 4000):
            r = check_native(so, f, op, entry, vals[i:i + 4000])
            if r:
                return r
        if e.model:
            return refine(mod, f, op, entry, so, e, xhooks)
        return None
    return Ob(prefix + entry, run, search, op.weight * (f.n ** 2), op.name)


def refine(mod, f, op, entry, so, e, xhooks, budget=240):
    """products were abstracted: fix all element inputs but one to concrete values, which makes the
    encoding exact, and ask the solver for the remaining one"""
    elts = [s[1] for s in op.sig if s[0] == 'elt']
    if len(elts) < 2:
        return None
    end = time.time() + budget
    from .ob import Rec
    rng = random.Random(3)
    cands = []
    for free in elts:
        v = {}
        for n in elts:
            if n != free:
                v[n] = sum(e.model.get('%s%d' % (n, i), 0) << (64 * i) for i in range(f.n)) % f.p
        cands.append(v)
    b = f.boundary()
    for _ in range(30):
        free = rng.choice(elts)
        cands.append({n: rng.choice(b) for n in elts if n != free})
    for v in cands:
        if time.time() > end:
            return None
        ex = Exec(mod)
        if xhooks:
            xhooks(ex)

        def go():
            args, ins, outs = setup(ex, f, op.sig, v)
            ret = ex.call(entry, args)
            return ins, [words_of8(ex, a, n) for a, n in outs] + aux(ex, f, op, args), ret
        rec = Rec()
        for pc, (st, res) in explore(go, ex):
            if st == 'panic':
                continue
            q = LQ(rec, 20)
            ins, ow, ret = res
            V = base(q, f, op.sig, ins)
            for c, r in pc:
                q.assume_bit(c, r)
            try:
                op.goals(q, f, V, [Outs(q, w) for w in ow], ret)
            except NotProved as x:
                if x.model:
                    w = dict(v)
                    for s in op.sig:
                        if s[0] == 'elt' and s[1] not in w:
                            w[s[1]] = sum(x.model.get('%s%d' % (s[1], i), 0) << (64 * i) for i in range(f.n))
                        elif s[0] in ('u64', 'bool'):
                            w[s[1]] = x.model.get(s[1], 0)
                        elif s[0] in ('words', 'bytes'):
                            w[s[1]] = sum(x.model.get('%s%d' % (s[1], i), 0) << (64 * i) for i in range((s[2] + 7) // 8 if s[0] == 'bytes' else s[2]))
                    r = check_native(so, f, op, entry, [w])
                    if r:
                        return r
    return None


def samples_for(f, op, pc, k=400):
    rng = random.Random(5)
    r = []
    for n, v in enumerate(gen_vals(f, op.sig, rng, 4 * k)):
        if n > 300 and not r:
            break
        env = env_of(f, op.sig, v)
        if op.name in ('from_bytes', 'from_repr') and v['a'] >= f.p:
            continue
        memo = {}
        if all(T.evaluate(c, env, memo) == int(x) for c, x in pc):
            r.append(env)
            if len(r) >= k:
                break
    return r


def abstract_add(ex, f):
    """F + F on canonical operands is decided by its own obligation; here it returns a fresh
    canonical element and records the operands"""
    ex.adds = []
    P = re.escape(f.path)

    def h(ex, name, args):
        if len(args) != 3:
            return NotImplemented
        o, x, y = args
        if not all(type(t) is int for t in args):
            return NotImplemented
        xs = [ex.load(x + 8 * i, 8) for i in range(f.n)]
        ys = [ex.load(y + 8 * i, 8) for i in range(f.n)]
        k = len(ex.adds)
        zs = [T.var('z%d_%d' % (k, i), 64) for i in range(f.n)]
        for i, z in enumerate(zs):
            ex.store(o + 8 * i, 8, z)
        ex.adds.append((xs, ys, zs))
    ex.add_hook(r'^<&?%s as core::ops::arith::Add(<&?%s>)?>::add$' % (P, P), h)
    ex.add_hook(r'^<%s>::add$' % P, h)


def mul_names(f):
    P = re.escape(f.path)
    return (r'^<%s>::mul_const$' % P, r'^<%s>::mul$' % P)


def abstract_mul(ex, f):
    """F * F with a constant operand returns a fresh canonical element congruent to the Montgomery product;
    decided by the field's `mulwide` obligation, also for a non-canonical first operand"""
    ex.muls = []

    def h(ex, name, args):
        if len(args) != 3 or not all(type(t) is int for t in args):
            return NotImplemented
        o, x, y = args
        xs = [ex.load(x + 8 * i, 8) for i in range(f.n)]
        ys = [ex.load(y + 8 * i, 8) for i in range(f.n)]
        if not all(type(t) is int for t in ys) or all(type(t) is int for t in xs):
            return NotImplemented
        if sum(t << (64 * i) for i, t in enumerate(ys)) >= f.p:
            return NotImplemented
        k = len(ex.muls)
        zs = [T.var('m%d_%d' % (k, i), 64) for i in range(f.n)]
        for i, z in enumerate(zs):
            ex.store(o + 8 * i, 8, z)
        ex.muls.append((xs, ys, zs))
    for n in mul_names(f):
        ex.add_hook(n, h)


def mulwide_obligation(mod, f, so, searches):
    def run(rec):
        mod.demangle_all()
        import itertools as it
        names = [n for n, d in mod._demangled.items() if any(re.match(r, d) for r in mul_names(f))]
        if not names:
            return
        for name in names:
            ex = Exec(mod)

            def go():
                o, x, y = (ex.new(8 * f.n, k) for k in 'oxy')
                for i in range(f.n):
                    ex.store(x + 8 * i, 8, T.var('a%d' % i, 64))
                    ex.store(y + 8 * i, 8, T.var('b%d' % i, 64))
                ex.call(name, [o, x, y])
                return [ex.load(o + 8 * i, 8) for i in range(f.n)]
            for pc, (st, ow) in list(explore(go, ex)):
                q = LQ(rec)
                A = q.big([T.var('a%d' % i, 64) for i in range(f.n)])
                B = q.big([T.var('b%d' % i, 64) for i in range(f.n)])
                q.assume_range(A, 0, f.R - 1)
                q.assume_range(B, 0, f.p - 1)
                for c, r in pc:
                    q.assume_bit(c, r)
                if st == 'panic':
                    q.goal('panic unreachable', 'true', *[l for _, ls in q.asm for l in ls])
                    continue
                rng = random.Random(5)
                bs = f.boundary()
                sm = [(rng.choice((rng.randrange(f.R), rng.choice(bs), f.R - 1 - rng.choice(bs))),
                       rng.choice((rng.randrange(f.p), rng.choice(bs)))) for _ in range(400)]
                for a, b in sm:
                    env = {'a%d' % i: (a >> (64 * i)) & T.M(64) for i in range(f.n)}
                    env.update({'b%d' % i: (b >> (64 * i)) & T.M(64) for i in range(f.n)})
                    memo = {}
                    if all(T.evaluate(c, env, memo) == int(x) for c, x in pc):
                        q.samples.append(env)
                E = q.c.lmul(A, B)
                q.assume_range(E, 0, (f.R - 1) * (f.p - 1))
                X = q.big(ow)
                q.congruent('a*b/R congruent', q.c.ladd(q.c.lscale(X, f.R), E, -1), f.p)
                q.in_range('a*b/R < p', X, f.p)
            rec.saw(ex)

    def search(e):
        for s in searches:
            r = s(NotProved(e.what))
            if r:
                return r
    return Ob(f.name + '_mulwide', run, search, 12 * f.n ** 2, 'mulwide')


def derive_env(f, adds, env, muls=()):
    for k, (xs, ys, zs) in enumerate(muls):
        X = sum((T.evaluate(t, env) if T.isT(t) else t) << (64 * i) for i, t in enumerate(xs))
        Z = X * sum(t << (64 * i) for i, t in enumerate(ys)) * f.Rinv % f.p
        for i in range(f.n):
            env['m%d_%d' % (k, i)] = (Z >> (64 * i)) & T.M(64)
    for k, (xs, ys, zs) in enumerate(adds):
        X = sum((T.evaluate(t, env) if T.isT(t) else t) << (64 * i) for i, t in enumerate(xs))
        Y = sum((T.evaluate(t, env) if T.isT(t) else t) << (64 * i) for i, t in enumerate(ys))
        Z = (X + Y) % f.p
        for i in range(f.n):
            env['z%d_%d' % (k, i)] = (Z >> (64 * i)) & T.M(64)


def tvars(ts):
    seen, st, r = set(), [t for t in ts if T.isT(t)], set()
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            r.add(t.a[0])
        st.extend(c for c in t.a if T.isT(c))
    return r


def env_of(f, sig, v):
    env = {}
    for s in sig:
        k = s[0]
        if k in ('out', 'const'):
            continue
        if k in ('u64', 'bool'):
            env[s[1]] = v[s[1]]
        else:
            n = {'elt': f.n}.get(k)
            if n is None:
                n = f.n * s[2] if k == 'elts' else (s[2] if k == 'words' else (s[2] + 7) // 8)
            for i in range(n):
                env['%s%d' % (s[1], i)] = (v[s[1]] >> (64 * i)) & T.M(64)
    return env


def words_of8(ex, addr, n):
    """[(nbytes, term)] ; None where uninitialised"""
    r = []
    i = 0
    while i < n:
        w = 8 if n - i >= 8 else 1
        try:
            r.append((w, ex.load(addr + i, w)))
        except Exception:
            r.append((w, None))
        i += w
    return r


class Outs:
    def __init__(self, q, words):
        self.q = q
        self.w = words

    def words(self, i, n):
        return [self.w[j][1] for j in range(i * n, (i + 1) * n)]

    def big(self, i, n):
        return self.q.big(self.words(i, n))

    def bebig(self, i, n):
        ws = [T.bswap(x, 64) if T.isT(x) else int.from_bytes(x.to_bytes(8, 'little'), 'big') for x in self.words(i, n)]
        return self.q.big(ws[::-1])

    def bewords(self, i, n):
        return [T.bswap(x, 64) if T.isT(x) else int.from_bytes(x.to_bytes(8, 'little'), 'big') for x in self.words(i, n)][::-1]


def base(q, f, sig, ins):
    V = {}
    for s in sig:
        k = s[0]
        if k in ('out', 'const'):
            continue
        if k in ('elt', 'elts'):
            n = f.n if k == 'elt' else f.n * s[2]
            ws = ins[s[1]] if ins else [T.var('%s%d' % (s[1], i), 64) for i in range(n)]
            if k == 'elt':
                A = q.big(ws)
                V[s[1]] = A
                q.assume_range(A, 0, f.p - 1)
            else:
                V[s[1]] = []
                for j in range(s[2]):
                    A = q.big(ws[j * f.n:(j + 1) * f.n])
                    q.assume_range(A, 0, f.p - 1)
                    V[s[1]].append(A)
        elif k in ('words', 'bytes'):
            n = s[2] if k == 'words' else (s[2] + 7) // 8
            ws = ins[s[1]] if ins else [T.var('%s%d' % (s[1], i), 64) for i in range(n)]
            V[s[1] + '#words'] = ws
            V[s[1]] = q.big(ws)
        else:
            ws = ins[s[1]] if ins else [T.var(s[1], 64)]
            V[s[1]] = q.big(ws)
    return V


# ------------------------------------------------------------------ specifications
def prod(q, A, B, p):
    P = q.c.lmul(A, B)
    if P.m:
        q.assume_range(P, 0, (p - 1) ** 2)
    return P


def elem(q, f, O, n_out, E, what, scaleO=1):
    """each of the n_out results in O is canonical and congruent to E/scaleO"""
    first = O.words(0, f.n)
    for j in range(n_out):
        ws = O.words(j, f.n)
        if j and ws == first:
            q.rec.goals += 1
            continue
        X = O.big(j, f.n)
        # the carry relations shown for the congruence serve as lemmas for the range
        q.congruent('%s[%d] congruent' % (what, j), q.c.ladd(q.c.lscale(X, scaleO), E, -1), f.p)
        q.in_range('%s[%d] < p' % (what, j), X, f.p)


def g_add(q, f, V, O, r):
    elem(q, f, O[0], 6, q.c.ladd(V['a'], V['b']), 'a+b')


def g_sub(q, f, V, O, r):
    elem(q, f, O[0], 6, q.c.ladd(V['a'], V['b'], -1), 'a-b')


def g_mul(q, f, V, O, r):
    elem(q, f, O[0], 6, prod(q, V['a'], V['b'], f.p), 'a*b', f.R)


def g_neg(q, f, V, O, r):
    elem(q, f, O[0], 2, q.c.lscale(V['a'], -1), '-a')


def g_dbl(q, f, V, O, r):
    elem(q, f, O[0], 2, q.c.lscale(V['a'], 2), '2a')


def g_sqr(q, f, V, O, r):
    elem(q, f, O[0], 2, prod(q, V['a'], V['a'], f.p), 'a^2', f.R)


def g_sum3(q, f, V, O, r):
    a = V['a']
    elem(q, f, O[0], 1, q.c.ladd(q.c.ladd(a[0], a[1]), a[2]), 'a+b+c')


def conv_goal(q, f, ws, E, what):
    """the words ws are the canonical element congruent to E*R; ws may be an abstract product"""
    for xs, ys, zs in q.muls:
        if ws == zs:
            X = q.c.lscale(q.big(xs), sum(t << (64 * i) for i, t in enumerate(ys)) * f.Rinv % f.p)
            q.congruent(what + ' congruent', q.c.ladd(X, q.c.lscale(E, f.R), -1), f.p)
            return
    X = q.big(ws)
    q.congruent(what + ' congruent', q.c.ladd(X, q.c.lscale(E, f.R), -1), f.p)
    q.in_range(what + ' < p', X, f.p)


def g_conv(q, f, V, O, r):
    """out = a*R mod p, for a wide integer a.  When the result is one addition of two reduced halves the
    halves are decided separately (their sum is the abstract addition)."""
    if len(q.adds) == 1:
        xs, ys, zs = q.adds[0]
        words = V['a#words']
        vx, vy = tvars(xs), tvars(ys)
        for mx, my, mz in q.muls:
            if xs == mz:
                vx = tvars(mx)
            if ys == mz:
                vy = tvars(mx)
        if O[0].words(0, f.n) == zs and not (vx & vy):
            names = [w.a[0] for w in words if T.isT(w)]
            if vx | vy <= set(names):
                for ts, vs in ((xs, vx), (ys, vy)):
                    n = LQ(q.rec, q.timeout)
                    n.samples = q.samples
                    n.muls = q.muls
                    E = n.big([w if T.isT(w) and w.a[0] in vs else 0 for w in words])
                    conv_goal(n, f, ts, E, 'half')
                return
    if any(T.isT(w) and w.op == 'lut' for w in O[0].words(0, f.n)):
        return g_table(q, f, V, O)
    # from_raw / from_u64 / from_uniform: out = v*R mod p
    conv_goal(q, f, O[0].words(0, f.n), V['a'], 'from')


def g_table(q, f, V, O):
    """the result is read from a constant table at a symbolic index: the address is that of entry `a`,
    and every entry (the index expanded into all its values) is the canonical element"""
    ws = O[0].words(0, f.n)
    if not all(T.isT(w) and w.op == 'lut' for w in ws):
        raise NotProved('table words mixed with computed words')
    a0 = ws[0].a[0]
    if not (a0.op == 'add' and type(a0.a[1]) is int):
        raise NotProved('table address')
    base = a0.a[1]
    data, off, sz = T.LUT[base >> 32], base & 0xffffffff, 8 * f.n
    count = (len(data) - off) // sz
    for i, w in enumerate(ws):
        q.equal('table address word %d' % i, q.c.tr(w.a[0]), q.c.ladd(q.c.lscale(V['a'], sz), q.c.lconst(base + 8 * i)))
    q.goal('index inside the table', '(not (< %s %d))' % (q.c.smt(V['a']), count), V['a'])
    for lo in range(0, count, 2048):
        es = ['(not (= (mod (* %d %d) %d) %d))' % (i, f.R, f.p, int.from_bytes(data[off + i * sz:off + (i + 1) * sz], 'little'))
              for i in range(lo, min(lo + 2048, count))]
        q.rec.prove('table entries %d..' % lo, '(set-logic QF_LIA)\n(assert (or %s))\n(check-sat)\n' % ' '.join(es), 120)


def g_u128(q, f, V, O, r):
    conv_goal(q, f, O[0].words(0, f.n), q.c.ladd(V['lo'], q.c.lscale(V['hi'], 1 << 64)), 'from_u128')


def obig(f, O, i, be):
    return O.bebig(i, f.n) if be else O.big(i, f.n)


def g_to_bytes(q, f, V, O, r):
    seen = []
    for j in range(4):
        ws = O[0].words(j, f.n)
        be = f.be and j < 2
        if (ws, be) in seen:
            q.rec.goals += 1
            continue
        seen.append((ws, be))
        X = obig(f, O[0], j, be)
        q.congruent('to_bytes[%d] value' % j, q.c.ladd(q.c.lscale(X, f.R), V['a'], -1), f.p)
        q.in_range('to_bytes[%d] canonical' % j, X, f.p)


def sub(q):
    """copy of the path with extra assumptions"""
    n = LQ.__new__(LQ)
    n.c, n.rec, n.timeout = q.c, q.rec, q.timeout
    n.asm = list(q.asm)
    n.samples = q.samples
    n.pc = q.pc
    return n


def okbytes(O):
    return [T.byte(w, j) if T.isT(w) else (w >> (8 * j)) & 255 for n, w in O.w if w is not None for j in range(n)]


def g_from_bytes(q, f, V, O, r):
    A = V['a']
    oks = okbytes(O[1])[:2]
    s = q.c.smt(A)
    for j in range(2):
        q.iff('from_bytes[%d] accepts exactly canonical' % j, oks[j], '(< %s %d)' % (s, f.p), A)
    if oks == [0, 0]:
        return
    q.assume('(< %s %d)' % (s, f.p), A)
    elem(q, f, O[0], 2, q.c.lscale(A, f.R), 'from_bytes value')


def mk_from_raw_bytes(ln):
    def g(q, f, V, O, r):
        A = V['a'] if 'a' in V else None
        oks = okbytes(O[1])[:2]
        for j in range(2):
            if ln < f.size or (ln > f.size and j == 0):
                if oks[j] != 0:
                    raise NotProved('wrong length accepted')
                q.rec.goals += 1
                continue
            X0 = A
            if ln > f.size:
                return
            s = q.c.smt(X0)
            q.iff('from_raw_bytes[%d] accepts exactly < p' % j, oks[j], '(< %s %d)' % (s, f.p), X0)
            if oks[j] == 0:
                continue
            q2 = sub(q)
            q2.assume('(< %s %d)' % (s, f.p), X0)
            q2.equal('from_raw_bytes[%d] value' % j, O[0].big(j, f.n), X0)
    return g


def g_unchecked(q, f, V, O, r):
    for j in range(2):
        q.equal('unchecked[%d]' % j, O[0].big(j, f.n), V['a'])


def g_to_raw(q, f, V, O, r):
    for j in range(2):
        q.equal('to_raw[%d]' % j, O[0].big(j, f.n), V['a'])
        if O[1].words(j, 1) != [f.size]:
            raise NotProved('raw length')


def g_is_zero(q, f, V, O, r):
    for j, b in enumerate(okbytes(O[0])[:2]):
        q.iff('is_zero[%d]' % j, b, '(= %s 0)' % q.c.smt(V['a']), V['a'])


def g_eq(q, f, V, O, r):
    D = q.c.ladd(V['a'], V['b'], -1)
    for j, b in enumerate(okbytes(O[0])[:3]):
        q.iff('eq[%d]' % j, b, ('(= %s 0)' if j < 2 else '(not (= %s 0))') % q.c.smt(D), D)


def g_select(q, f, V, O, r):
    X = O[0].big(0, f.n)
    c = V['c']
    q.goal('select', '(not (= %s (ite (= %s 0) %s %s)))' % (q.c.smt(X), q.c.smt(c), q.c.smt(V['a']), q.c.smt(V['b'])), X, c, V['a'], V['b'])


def canon_words(f, O, i):
    return O.words(i + 2, f.n)


def g_cmp(q, f, V, O, r):
    """bit-vector query: the words of the canonical values are cut to fresh variables"""
    wa, wb = canon_words(f, O[1], 0), canon_words(f, O[2], 0)
    cuts = {t: 'va%d' % i for i, t in enumerate(wa) if T.isT(t)}
    cuts.update({t: 'vb%d' % i for i, t in enumerate(wb) if T.isT(t)})
    b = bvq.BV(cuts)
    A, B = b.big(wa), b.big(wb)
    W = 64 * f.n
    asm = ['(bvult %s %s)' % (x, b.const(f.p, W)) for x in (A, B)]
    for c, t in q.pc:
        asm.append('(= %s %s)' % (b.tr(c, 1), '#b1' if t else '#b0'))
    bs = [b.tr(x, 8) for x in okbytes(O[0])[:3]]
    exp = '(ite (bvult %s %s) #x00 (ite (= %s %s) #x01 #x02))' % (A, B, A, B)
    q.rec.prove('cmp', b.script(asm + ['(not (and (= %s %s) (= %s %s) (= %s (ite (bvult %s %s) #x01 #x00))))' % (
        bs[0], exp, bs[1], exp, bs[2], A, B)]), q.timeout)


def g_parity(q, f, V, O, r):
    A = q.cut(canon_words(f, O[1], 0), f.p, 'va')
    bs = okbytes(O[0])[:2]
    q.iff('is_odd', bs[0], '(= (mod %s 2) 1)' % q.c.smt(A), A)
    q.iff('is_even', bs[1], '(= (mod %s 2) 0)' % q.c.smt(A), A)


def g_lexi(q, f, V, O, r):
    A = q.cut(canon_words(f, O[0], 0), f.p, 'va')
    q.iff('lexicographically_largest', r, '(> (* 2 %s) %d)' % (q.c.smt(A), f.p), A)


def g_le_bits(q, f, V, O, r):
    A = q.cut(canon_words(f, O[1], 0), f.p, 'va')
    q.equal('to_le_bits', O[0].big(0, f.n), A)
    q.equal('char_le_bits', O[0].big(1, f.n), q.c.lconst(f.p))


def rep(x, k, bits):
    return sum(x << (bits * i) for i in range(k))


def ops_for(f, asm=False):
    p, n, sz = f.p, f.n, f.size
    B = 8 * sz
    a, b = ('elt', 'a'), ('elt', 'b')
    L = []

    def add(*x, **k):
        L.append(Op(*x, **k))
    add('add', [('out', 6 * sz), a, b], g_add, lambda f, v: ([rep((v['a'] + v['b']) % p, 6, B)], None))
    add('sub', [('out', 6 * sz), a, b], g_sub, lambda f, v: ([rep((v['a'] - v['b']) % p, 6, B)], None))
    add('mul', [('out', 6 * sz), a, b], g_mul, lambda f, v: ([rep(v['a'] * v['b'] * f.Rinv % p, 6, B)], None), weight=10)
    add('neg', [('out', 2 * sz), a], g_neg, lambda f, v: ([rep(-v['a'] % p, 2, B)], None))
    add('dbl', [('out', 2 * sz), a], g_dbl, lambda f, v: ([rep(2 * v['a'] % p, 2, B)], None))
    add('sqr', [('out', 2 * sz), a], g_sqr, lambda f, v: ([rep(v['a'] ** 2 * f.Rinv % p, 2, B)], None), weight=9)
    add('sum3', [('out', sz), ('elts', 'a', 3)], g_sum3,
        lambda f, v: ([sum((v['a'] >> (B * i)) & ((1 << B) - 1) for i in range(3)) % p], None))
    add('from_raw', [('out', sz), ('words', 'a', n)], g_conv, lambda f, v: ([f.mont(v['a'])], None), weight=5)
    add('from_u64', [('out', sz), ('u64', 'a')], g_conv, lambda f, v: ([f.mont(v['a'])], None), weight=3)
    add('from_u128', [('out', sz), ('u64', 'lo'), ('u64', 'hi')], g_u128, lambda f, v: ([f.mont(v['lo'] + (v['hi'] << 64))], None), weight=3)
    add('from_bool', [('out', sz), ('bool', 'a')], g_conv, lambda f, v: ([f.mont(v['a'])], None))
    for u in f.uniform:
        add('uniform_%d' % u, [('out', sz), ('bytes', 'a', u, False)], g_conv, lambda f, v: ([f.mont(v['a'])], None), weight=6)
    add('random', [('out', sz), ('bytes', 'a', 2 * sz, False), ('const', 2 * sz)], g_conv, lambda f, v: ([f.mont(v['a'])], None), weight=6)

    def ref_tb(f, v):
        x = f.unmont(v['a'])
        e = int.from_bytes(f.canon(x), 'little')
        return [rep(e, 2, B) + (rep(x, 2, B) << (2 * B))], None
    add('to_bytes', [('out', 4 * sz), a], g_to_bytes, ref_tb, weight=3)

    def ref_fb(f, v):
        x = v['a']
        ok = x < p
        return [rep(f.mont(x), 2, B) if ok else None, rep(int(ok), 2, 8)], None
    add('from_bytes', [('out', 2 * sz), ('out', 2), ('bytes', 'a', sz, f.be)], g_from_bytes, ref_fb, weight=5)
    add('from_repr', [('out', 2 * sz), ('out', 2), ('bytes', 'a', sz, False)], g_from_bytes, ref_fb, weight=5)
    for ln in (sz, sz - 1, sz + 1, 0):
        def ref_raw(f, v, ln=ln):
            x = v.get('a', 0)
            if ln < sz:
                return [None, 0], None
            x &= (1 << B) - 1
            ok = x < p
            if ln > sz:
                return [None, (int(ok) << 8)], None
            return [rep(x, 2, B) if ok else None, rep(int(ok), 2, 8)], None
        sig = [('out', 2 * sz), ('out', 2), ('bytes', 'a', ln, False), ('const', ln)] if ln else [('out', 2 * sz), ('out', 2), ('bytes', 'a', 1, False), ('const', 0)]
        o = Op('from_raw_bytes#%d' % ln, sig, mk_from_raw_bytes(ln), ref_raw)
        L.append(o)
    add('from_raw_bytes_unchecked', [('out', 2 * sz), ('bytes', 'a', sz, False)], g_unchecked, lambda f, v: ([rep(v['a'], 2, B)], None))
    add('to_raw_bytes', [('out', 2 * sz), ('out', 16), a], g_to_raw, lambda f, v: ([rep(v['a'], 2, B), rep(sz, 2, 64)], None))
    add('is_zero', [a, ('out', 2)], g_is_zero, lambda f, v: ([rep(int(v['a'] == 0), 2, 8)], None))
    add('eq', [('out', 3), a, b], g_eq, lambda f, v: ([257 * int(v['a'] == v['b']) + (int(v['a'] != v['b']) << 16)], None))
    add('select', [('out', sz), a, b, ('bool', 'c')], g_select, lambda f, v: ([v['b'] if v['c'] else v['a']], None))

    def ref_cmp(f, v):
        x, y = f.unmont(v['a']), f.unmont(v['b'])
        c = 0 if x < y else (1 if x == y else 2)
        return [c * 257 + (int(x < y) << 16)], None
    add('cmp', [('out', 3), a, b], g_cmp, ref_cmp)
    add('parity', [('out', 2), a], g_parity, lambda f, v: ([(f.unmont(v['a']) & 1) + ((1 - (f.unmont(v['a']) & 1)) << 8)], None))
    add('lexi', [a], g_lexi, lambda f, v: ([], int(f.unmont(v['a']) * 2 > p)), ret='u8')
    add('le_bits', [('out', 2 * sz), a], g_le_bits, lambda f, v: ([f.unmont(v['a']) + (p << B)], None))
    return L


def aux(ex, f, op, args):
    r = []
    for nm in AUX.get(op.name, ()):
        i = [s[1] if len(s) > 1 and s[0] == 'elt' else None for s in op.sig].index(nm)
        o = ex.new(4 * f.size, 'aux')
        ex.call(f.name + '_to_bytes', [o, args[i]])
        r.append(words_of8(ex, o, 4 * f.size))
    return r


AUX = {'cmp': ['a', 'b'], 'parity': ['a'], 'lexi': ['a'], 'le_bits': ['a']}
