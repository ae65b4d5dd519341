"""Registry: which obligations decide which property."""
import os
from .llir import Module
from .fields import FIELDS
from . import level0, build

TRUSTED = ['rustc 1.74 front end and LLVM IR emission (IR taken before optimisation passes)',
           'symx: this repository\'s IR executor and SMT encoders (checked against the native library on concrete inputs in every run)',
           'z3 / cvc5 (unsat answers)', 'the moduli and curve constants written in symx/fields.py and symx/curves.py']


class World:
    def __init__(self, art, tier, seed):
        self.art, self.tier, self.seed = art, tier, seed
        self._m = {}

    def mod(self, cfg='generic'):
        if cfg not in self._m:
            self._m[cfg] = Module(self.art[('ir', cfg)])
            World.last = self._m[cfg]
        return self._m[cfg]

    def so(self, cfg='generic'):
        return self.art[('native', cfg)]


class Prop:
    def __init__(self, id, fn, configs=('generic',), level='proof', bounds='', explanation='', assumptions=()):
        self.id, self.fn, self.configs, self.level = id, fn, list(configs), level
        self.bounds, self.explanation, self.assumptions = bounds, explanation, list(assumptions)

    def obligations(self, w):
        return self.fn(w)

    def demangler(self):
        m = getattr(World, 'last', None)
        return m.demangle if m else (lambda x: x)


PROPS = {}


def prop(id, **k):
    def deco(fn):
        PROPS[id] = Prop(id, fn, **k)
        return fn
    return deco


def l0(w, names, fields=None, cfg='generic'):
    obs = []
    for f in FIELDS.values():
        if fields and f.name not in fields:
            continue
        for op in level0.ops_for(f):
            base = op.name.split('#')[0].split('_')[0] if op.name.startswith('uniform') else op.name.split('#')[0]
            if base in names:
                o = level0.op_obligation(w.mod(cfg), f, op, f.name + '_' + op.name.split('#')[0], w.so(cfg))
                o.name = f.name + '_' + op.name + ('' if cfg == 'generic' else '@' + cfg)
                obs.append(o)
    return obs


L0_BOUNDS = 'none on values: every limb/byte is symbolic at its full width; word size 64, fixed limb counts 4/6/7'
L0_EXPL = ('The IR of the real routine is executed on symbolic limbs; outputs are compared with the mathematical definition by '
           'integer-linear SMT queries (congruence mod p and canonical range), every path included; unsat = holds for all inputs.')


@prop('C01', bounds=L0_BOUNDS, explanation=L0_EXPL)
def c01(w):
    return l0(w, ('add', 'sub', 'mul', 'neg', 'dbl', 'sqr', 'sum3'))


@prop('C03', bounds=L0_BOUNDS + '; byte strings of every declared uniform width', explanation=L0_EXPL)
def c03(w):
    obs = l0(w, ('from_raw', 'from_u64', 'from_u128', 'from_bool', 'uniform', 'random'))
    for f in FIELDS.values():
        obs.append(level0.mulwide_obligation(w.mod(), f, w.so(), [o.search for o in obs if o.name.startswith(f.name + '_') and
                                                                  o.group.split('_')[0] in ('from', 'uniform')]))
    return obs


@prop('C04', bounds=L0_BOUNDS + '; raw byte inputs of lengths 0, size-1, size, size+1', explanation=L0_EXPL)
def c04(w):
    return l0(w, ('to_bytes', 'from_bytes', 'from_repr', 'from_raw_bytes', 'from_raw_bytes_unchecked', 'to_raw_bytes', 'le_bits'))


@prop('C05', bounds=L0_BOUNDS, explanation=L0_EXPL)
def c05(w):
    return l0(w, ('is_zero', 'eq', 'select', 'cmp', 'parity', 'lexi'))


ASM_FIELDS = ('bn256_fq', 'bn256_fr', 'bls_fr')


@prop('C02', configs=('asm',), bounds=L0_BOUNDS, explanation=L0_EXPL + ' Inline assembly is executed with a symbolic model of the '
      'instructions it uses (mov mulx adc adcx adox add sub sbb cmp cmov imul and or xor); flags are modelled exactly, reading an undefined '
      'flag or writing an undeclared register makes the obligation inconclusive.')
def c02(w):
    return l0(w, ('add', 'sub', 'mul', 'neg', 'dbl', 'sqr', 'sum3', 'from_u64', 'from_raw', 'from_u128', 'from_bool', 'to_bytes', 'from_bytes', 'from_repr'), ASM_FIELDS, 'asm')


R_BOUNDS = 'none on values: every coordinate is a symbolic element of the base field'
R_EXPL = ('The IR of the real routine is executed with base-field operations intercepted (their exactness is C01/C03/C05/C06) and computed '
          'on polynomials over F_p; on every path the outputs minus the definition is a polynomial identity, sent to the solver with '
          'monomials as free integers; unsat = holds for all inputs of the path.')


@prop('C08', bounds=R_BOUNDS, explanation=R_EXPL)
def c08(w):
    from . import tower
    return tower.c08(w)


@prop('C09', bounds=R_BOUNDS + '; Frobenius powers 0..2k+1 for degree k, plus 47, 48 and 2^63+5 (the code reduces the power modulo k)',
      explanation=R_EXPL + ' Cyclotomic squaring is decided modulo the polynomial relations that define the cyclotomic subgroup (a^(p^4) a = a^(p^2), '
      'a^(p^6) a = 1), with a certificate found by linear algebra and checked by the solver.')
def c09(w):
    from . import tower
    return tower.c09(w, w.tier)


@prop('C10', bounds=R_BOUNDS + ' and every byte of the encodings is symbolic; raw inputs of lengths 0, size/2, size-1, size, size+1', explanation=R_EXPL +
      ' Canonical integers of coordinates and the below-the-modulus tests of byte chunks (decided by C04) are abstract words and bits.')
def c10(w):
    from . import tower
    return tower.c10(w)


@prop('C24', bounds=R_BOUNDS, explanation=R_EXPL)
def c24(w):
    from . import tower
    return tower.c24(w)


@prop('C11', bounds=R_BOUNDS, explanation=R_EXPL)
def c11(w):
    from . import curves
    return curves.c11(w)


@prop('C12', bounds=R_BOUNDS + '; batches of 0 to 3 points', explanation=R_EXPL)
def c12(w):
    from . import curves
    return curves.c12(w)


G_BOUNDS = 'none on values: the points are symbolic group elements and every scalar bit is symbolic'
G_EXPL = ('The IR of the real routine is executed with the point operations intercepted (their exactness is C11/C12) and computed on linear '
          'forms whose coefficients are multilinear integer polynomials in the scalar bits; the resulting coefficient of every point '
          'equals the specified one by a solver query; functions of bits that steer selections are interpolated and the interpolation is a bit-vector query.')


@prop('C13', bounds=G_BOUNDS, explanation=G_EXPL)
def c13(w):
    from . import group
    return group.c13(w)


@prop('C14', bounds='none on values: every scalar below the order; all six curves with a decomposition',
      explanation='The real routine runs symbolically from LLVM IR; wide products by constants and canonical integers are integer variables with their defining '
      'equations, field elements are integer linear forms modulo the order; that the upper halves vanish and that the signed halves recombine are linear '
      'integer queries. The wide product is decided on its own for all operands. The eigenvalue is read off the real endomorphism of the curve.')
def c14(w):
    from . import endo
    return endo.c14(w)


@prop('C23', bounds='none on values: an arbitrary point of each of the eleven curves',
      explanation='Each routine runs symbolically from LLVM IR with points as integer polynomials in the curve endomorphism applied to an arbitrary point; '
      'acceptance, landing in the subgroup and the documented multiple are identities modulo the relations that all points satisfy, with certificates '
      'checked by the solver; the coordinate formula of each endomorphism is a polynomial identity.',
      assumptions=['the number of points of each curve and the characteristic polynomial of Frobenius (checked on sample points in every run)'])
def c23(w):
    from . import sub
    return sub.c23(w)


E_EXPL = (R_EXPL + ' Canonical integers of coordinates, below-the-modulus tests of byte chunks, square roots and order tests are abstract words, bits and '
          'elements; flag and byte handling is decided by bit-vector queries over all bytes.')


@prop('C15', bounds='none on values: every coordinate and every input byte is symbolic', explanation=E_EXPL)
def c15(w):
    from . import enc
    return enc.c15(w)


@prop('C16', bounds='none on values: every coordinate and every input byte is symbolic; input lengths 0, one coordinate short, size-1, size, size+1', explanation=E_EXPL)
def c16(w):
    from . import enc
    return enc.c16(w)


@prop('C18', bounds='vectors of length 1 to 32 (thorough: 64) with symbolic coefficients and a symbolic root of unity of exactly that order; pool sizes 1, 2, 3, n/2, n, 2n '
      '(both the iterative and the recursive algorithm)', explanation=R_EXPL + ' The two halves of a join are executed one after the other (they own disjoint halves of the vector).')
def c18(w):
    from . import algo
    return algo.c18(w)


@prop('C22', bounds='none on values: elements of the target group and all scalar bits are symbolic; sums of three elements',
      explanation=('Each entry point is executed symbolically from LLVM IR with every element of the target group a symbol of an additive group '
      '(its logarithm): products, squares and conjugates in the extension field, decided by C08 and C09, become sums, doubles and opposites; results are '
      'integer linear forms whose coefficients are multilinear polynomials in the scalar bits, compared with the specification by solver queries.'),
      assumptions=['elements of the target group are unitary (the property is stated on the cyclotomic subgroup)'])
def c22(w):
    from . import pairing
    return pairing.c22(w)


@prop('C21', bounds='none on values; products of up to 2 (thorough: 3) pairs of points, each possibly the identity',
      explanation='Each function is executed symbolically from LLVM IR. Line steps: coordinates are polynomials over abstract field elements; the new running point and '
      'the line coefficients are polynomial identities. Miller loop: the accumulated value is a formal divisor (lines contribute [A]+[B]-[A+B]; vertical lines vanish in '
      'the final exponentiation) and equals the divisor of the ate function for every pattern of identities. Final exponentiation: elements are multiples of one logarithm modulo p^12-1.',
      assumptions=['G2 arguments are in the prime-order subgroup, so no step degenerates', 'the value given to the final exponentiation is not zero'])
def c21(w):
    from . import pairing
    return pairing.c21(w)
