"""FFT (C18): the transform of a symbolic vector with a symbolic root."""
import random, re
from . import terms as T
from .fields import FIELDS
from .rob import ROp, r_obligation
from .ring import Poly, W


def pow_red(i, n, c):
    """v^n = c"""
    def h(x):
        if x.degree_in(i) < n:
            return x
        r = x.R.const(0)
        for e, q in x.coeffs(i).items():
            k, e = divmod(e, n)
            r = r + q * pow(c, k, x.R.p) * (Poly(x.R, {e << (W * i): 1}, 4) if e else x.R.const(1))
        return r
    return h


def nospace(s):
    return s.replace('::<', '<').replace(' ', '')


def rayon(threads):
    """a thread pool of the given size; both halves of a join run one after the other (they own disjoint data)"""
    def h(eng, dom):
        ex = eng.ex
        ex.add_hook(r'^rayon_core::current_num_threads$', lambda e, name, a: threads)

        def join(e, name, a):
            d = nospace(e.m.demangle(name))
            inner = d[len('rayon_core::join::join<'):-1]
            parts, depth, cur = [], 0, ''
            for ch in inner:
                if ch in '<({[':
                    depth += 1
                elif ch in '>)}]':
                    depth -= 1
                if ch == ',' and depth == 0:
                    parts.append(cur)
                    cur = ''
                else:
                    cur += ch
            parts.append(cur)
            tab = getattr(e.m, '_bydem', None)
            if tab is None:
                tab = e.m._bydem = {}
                e.m.demangle_all()
                for f in e.m.defs:
                    tab.setdefault(nospace(e.m.demangle(f)), f)
            for p, x in zip(parts[:2], a):
                if p not in tab:
                    return NotImplemented
                e.call(tab[p], [x])
        ex.add_hook(r'^rayon_core::join::join::<', join)
    return h


def fft_ops(f, tier):
    ops = []
    for log in range(0, 7 if tier == 'thorough' else 6):
        n = 1 << log
        ths = sorted({1, 2, 1 << max(0, log - 1), 1 << log, 3, 1 << (log + 1)})
        for t in ths:
            def hyps(S, n=n):
                R = S.R
                i = R.vid('w0')
                if n == 1:
                    return
                S.eng.reducers = [pow_red(i, n // 2, R.p - 1)]

            def spec(S, n=n):
                a, w = S.inp['a'], S.inp['w'][0]
                if S.symbolic:
                    ws = [S.R.const(1)]
                    for j in range(1, n):
                        ws.append(S.eng.reduce(ws[-1] * w))
                else:
                    ws = [w ** j for j in range(n)]
                want = []
                for k in range(n):
                    s = S.R.const(0)
                    for j in range(n):
                        s = s + a[j] * ws[j * k % n]
                    want.append(s)
                S.eq('transform', S.out[0], want)

            def gen(op, f_, rng, count, n=n):
                p = f.p
                g = 2
                while pow(g, (p - 1) // 2, p) == 1:
                    g += 1
                w = pow(g, (p - 1) // n, p)
                for c in range(count):
                    k = rng.randrange(n) | 1 if n > 1 else 1
                    yield dict(a=[rng.choice((0, 1, p - 1, rng.randrange(p), rng.randrange(p))) for _ in range(n)], w=[pow(w, k, p)])
            op = ROp('%s_fft#%d,t%d' % (f.name, n, t), f.name + '_fft', [('out', n), ('in', 'a', n), ('in', 'w', 1), ('int', 'n', 64, n), ('int', 'l', 32, log),
                                                               ('int', 't', 64, t)], spec, hyps=hyps, gen=gen, along=False, search=300, weight=n)
            op.nat_entry = f.name + '_fft_n'
            op.threads = t
            ops.append(op)
    return ops


def c18(w):
    obs = []
    for n in ('bn256_fr', 'bls_fr', 'pe_fq'):
        for op in fft_ops(FIELDS[n], w.tier):
            obs.append(r_obligation(w.mod(), w.so(), FIELDS[n], op, hooks=rayon(op.threads)))
    return obs
