#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'derive/src/field/arith.rs'
FM = 'derive/src/field/mod.rs'
ALLF = 'bn256 Fq/Fr, bls12381 Fq/Fr, secp256k1 Fp/Fq, secp256r1 Fp/Fq, pluto_eris Fp/Fq'
P = []


def p(id, title, st, over, text, why, files, mech, technique=None, level='proof', note='', na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na))


LIA = 'symbolic execution of rustc LLVM IR + integer-linear SMT (z3/cvc5)'
RING = 'symbolic execution of rustc LLVM IR over abstract field elements + SMT polynomial identities'
GRP = 'symbolic execution of rustc LLVM IR over abstract group elements + SMT (coefficients, bit-vectors)'
NB = 'machinery for this property is still being built'
N0 = ('Unsat for every path means the property holds for all input values at the fixed limb counts. Trusts rustc\'s IR emission, '
      'the in-house IR executor/encoder (validated against the native library on concrete inputs each run) and the SMT solvers.')
N1 = ('All element values are symbolic; base-field operations are abstracted by the ring axioms that C01/C06 decide. Trusts the IR '
      'executor, the encoders and the solvers; counterexamples are replayed natively.')

N2 = ('All points and scalar bits are symbolic; point operations are abstracted by the group law that C11/C12 decide. Trusts the IR '
      'executor, the encoders and the solvers; counterexamples are replayed natively.')
p('C01', 'Prime-field add, subtract, negate, double, multiply, square are exact',
  'For every pair of canonical elements of every prime field, addition, subtraction, negation, doubling, multiplication and squaring '
  'return the canonical representative of the exact result modulo the field prime. All by-value, by-reference and assigning operator '
  'forms and iterator sums agree.', ['inputs'], 'all canonical operands of ' + ALLF,
  'The tests compare random samples against algebraic identities; carry and final-subtraction corner cases have probability around 2^-64 or less per sample.',
  [A, FM, 'src/derive/mod.rs', 'src/arithmetic.rs'],
  [('Montgomery multiplication with conditional final subtraction', A), ('operator forwarding macros', 'src/derive/mod.rs')], LIA, note=N0)
p('C02', 'The assembly backend computes the same field operations',
  'With the assembly feature enabled, every field operation that has an assembly implementation returns the canonical exact result for '
  'all canonical operands, and the table-accelerated small-integer conversion agrees with the generic one.', ['inputs', 'configurations'],
  'all canonical operands of the 4-limb sub-256-bit fields (bn256 Fq/Fr, bls12381 Fr) in the asm configuration',
  'Inline assembly carry chains are exercised on random samples only.', ['derive/src/field/asm', 'src/bn256/fr.rs'],
  [('mulx/adcx/adox carry chains', 'derive/src/field/asm/limb4.rs')], 'symbolic execution of LLVM IR with x86-64 inline assembly + integer-linear SMT', note=N0)
p('C03', 'Integers and wide byte strings are reduced exactly into the field',
  'Conversions into a field from raw limbs, 64-bit and 128-bit integers, booleans and uniform byte strings of every declared width, and '
  'random sampling from a byte source, return the canonical element congruent to the little-endian integer they are given.',
  ['inputs'], 'all input integers / byte strings of the accepted widths, every field',
  'Tests reduce random strings; boundary values near multiples of the modulus are not reached.', [FM, A, 'src/derive/field/common.rs'],
  [('two-limb-halves reduction by R^2 and R^3', FM)], LIA, note=N0)
p('C04', 'Field encodings are canonical and lossless; non-canonical bytes are refused',
  'Encoding any field element and decoding it returns the same element, the bytes are the canonical integer in the documented byte '
  'order, decoding accepts a byte string exactly when its integer is below the modulus, and the raw internal form round trips with the '
  'same check on length and range. No input makes a decoder panic.', ['inputs'], 'all elements and all byte strings of the declared sizes; raw inputs of length 0, size-1, size, size+1',
  'Tests decode encodings of random elements; non-canonical strings are a handful.', [FM, 'src/serde.rs', 'src/derive/field/common.rs'],
  [('less-than-modulus borrow chain', FM), ('endian conversion', 'src/serde.rs')], LIA, note=N0)
p('C05', 'Field predicates and ordering agree with the integer values',
  'Zero test, equality, conditional selection, parity, the total order and the larger-than-its-negation test return exactly what the '
  'canonical integer value of the elements dictates, for every element.', ['inputs'], 'all elements / pairs, every field',
  'Boundary elements such as (p-1)/2 are never sampled.', [FM], [('canonical form comparison', FM)], LIA + ' and bit-vector SMT', note=N0)
p('C06', 'Field inversion and exponentiation are exact',
  'The inverse of every non-zero element multiplied by the element is one, zero has no inverse, and raising to a power, cubing and '
  'iterator products return exactly the power or product.', ['inputs'], 'all elements of every prime field; exponent words symbolic within stated widths',
  'The divstep inversion has data-dependent branching that random samples cover thinly.', ['src/ff_ext/inverse.rs', FM],
  [('batched divsteps with Bezout updates', 'src/ff_ext/inverse.rs')], na=NB)
p('C07', 'Square roots and quadratic characters are right for every element',
  'A square root is returned exactly for squares and squares back to the input, the ratio form reports squareness of the quotient '
  'correctly, and the quadratic character is 0, 1 or -1 exactly for zero, non-zero squares and non-squares.', ['inputs'],
  'all elements of every prime field', 'Samples reach neither the special branches (zero, small, limb-aligned values) nor every iteration pattern.',
  [FM, 'src/ff_ext/jacobi.rs', 'src/ff_ext/mod.rs'], [('Tonelli-Shanks / p=3 mod 4 exponentiation', FM), ('divstep Jacobi symbol', 'src/ff_ext/jacobi.rs')], na=NB)
p('C08', 'Extension-field arithmetic obeys the tower definition',
  'Every operation of the quadratic, sextic/cubic and dodecic extension fields - ring operations, squaring, sparse products, '
  'multiplication by the non-residue, conjugation, inversion, zero and equality tests - equals the operation on polynomials modulo the '
  'defining polynomials of the tower.', ['inputs'], 'all elements of Fq2/Fq6/Fq12 of bn256 and bls12381 and Fp2/Fp6/Fp12 of pluto_eris',
  'Randomised tests multiply generic elements; elements with zero coefficients or special shape are not sampled.',
  ['src/ff_ext/quadratic.rs', 'src/ff_ext/cubic.rs', 'src/bn256/fq2.rs', 'src/bn256/fq6.rs', 'src/bn256/fq12.rs', 'src/bls12381/fq2.rs', 'src/bls12381/fq6.rs',
   'src/bls12381/fq12.rs', 'src/pluto_eris/fp2.rs', 'src/pluto_eris/fp6.rs', 'src/pluto_eris/fp12.rs', 'src/derive/field/tower.rs'],
  [('Karatsuba products and sparse multiplications', 'src/ff_ext')], RING, note=N1)
p('C09', 'Frobenius maps and cyclotomic squaring are exact',
  'The Frobenius map with any power equals raising to that power of the characteristic, and cyclotomic squaring equals squaring on '
  'every element of the cyclotomic subgroup.', ['inputs'], 'all tower elements; all powers modulo the tower degree (and beyond, bounded)',
  'Coefficient tables are tested on random elements for few powers.', ['src/bn256/fq12.rs', 'src/bls12381/fq12.rs', 'src/pluto_eris/fp12.rs', 'src/ff_ext'],
  [('Frobenius coefficient tables', 'src/bn256/fq12.rs')], RING, note=N1)
p('C10', 'Extension-field encodings round trip and refuse non-canonical bytes',
  'Encoding and decoding extension-field elements is lossless, a byte string is accepted exactly when every coordinate is canonical, '
  'and no byte string makes decoding panic.', ['inputs'], 'all byte strings of the encoded size, all elements',
  'Tests decode only valid encodings.', ['src/derive/field/tower.rs', 'src/serde.rs'], [('coordinate-wise codec', 'src/derive/field/tower.rs')], RING, note=N1)
p('C11', 'Curve addition, doubling, negation and subtraction implement the group law',
  'For all points on each curve, including identity, equal and opposite points, addition in projective, mixed and affine form, '
  'doubling, negation and subtraction return a point representing the group-law result.', ['inputs'],
  'all points of every curve defined in the crate', 'Exceptional cases are tested on single points.',
  ['src/derive/curve.rs'], [('complete addition formulas', 'src/derive/curve.rs')], RING, note=N1)
p('C12', 'Coordinate conversions, equality and membership tests are exact',
  'Converting between affine and projective coordinates, singly or in batches, preserves the point, equality of projective points is '
  'equality of the points represented, and the on-curve test and coordinate constructors accept exactly points of the curve.', ['inputs'],
  'all coordinate triples and pairs; batches up to a bound', 'Membership is only tested on valid points; batches rarely contain identities.',
  ['src/derive/curve.rs'], [('batch inversion normalisation', 'src/derive/curve.rs')], RING, note=N1)
p('C13', 'Scalar multiplication equals repeated addition',
  'Multiplying any point of a curve by any scalar gives the scalar multiple of the point, for every operator form '
  'of projective and affine points and for the curve trait entry points.', ['inputs'], 'all scalars (all 2^256 bit patterns below the order) and all points',
  'Random scalars only.', ['src/derive/curve.rs'], [('double-and-add over scalar bits', 'src/derive/curve.rs')], GRP, note=N2)
p('C14', 'Endomorphism scalar decomposition recombines to the scalar',
  'For every scalar, the two signed half-length scalars returned by the decomposition recombine with the curve endomorphism eigenvalue '
  'to the scalar modulo the group order, and fit in 128 bits; the endomorphism multiplies x by a primitive cube root of unity.', ['inputs'], 'all scalars of the curves with an endomorphism',
  'Rounding corner cases occur with negligible probability in samples.', ['src/derive/curve.rs', 'src/arithmetic.rs', 'src/bn256/curve.rs', 'src/bls12381'],
  [('rounded multiplication by lattice constants', 'src/derive/curve.rs')], LIA, note=N2)
p('C15', 'Compressed and uncompressed point encodings are canonical and lossless',
  'Every point encodes and decodes to itself; a byte string decodes to a point only if it is exactly the encoding of that point; and '
  'no byte string makes decoding panic.', ['inputs'], 'all points and all byte strings of the encoded sizes',
  'Tests round trip random points and flip few flag bits.', ['src/serde.rs', 'src/derive/curve.rs', 'src/bls12381/g1.rs', 'src/bls12381/g2.rs'],
  [('flag handling in encode/decode', 'src/serde.rs')], RING + ' and bit-vector SMT', note=N1)
p('C16', 'Raw point deserialisation validates its input',
  'Checked raw deserialisation of points accepts a byte string exactly when its coordinates are canonical and denote a point of the '
  'curve (or the identity), raw serialisation round trips, and wrong lengths are refused.', ['inputs'], 'all byte strings of the raw size and neighbouring lengths',
  'Only valid points are tested.', ['src/derive/curve.rs', 'src/serde.rs'], [('on-curve validation after raw read', 'src/derive/curve.rs')], RING + ' and bit-vector SMT', note=N1)
p('C17', 'Multi-scalar multiplication equals the sum of products',
  'For every list of scalars and points of equal length, the serial, parallel and batched multi-scalar multiplications return the sum '
  'of the individual scalar products.', ['inputs', 'configurations'], 'all scalars and points for list lengths within bounds, covering every algorithm branch and window size in the bound',
  'One random instance per size.', ['src/msm.rs'], [('bucket accumulation with signed Booth digits', 'src/msm.rs')], na=NB)
p('C18', 'The FFT computes the discrete Fourier transform',
  'For every vector whose length is a power of two and the matching root of unity, the transform equals the evaluation of the polynomial '
  'at the powers of the root, whichever parallel split is used.', ['inputs', 'configurations'], 'all coefficient vectors for log sizes within bounds and thread counts covering both code paths',
  'Tests run round trips of random vectors.', ['src/fft.rs'], [('recursive and iterative butterflies', 'src/fft.rs')], RING, note=N1)
p('C19', 'Hashing to a curve maps every field pair onto the curve as specified',
  'The map from field elements to each curve always yields a point on the curve and agrees with the documented SSWU or SvdW map for '
  'every field element, including exceptional inputs.', ['inputs'], 'all field elements', 'Test vectors cover a few messages; exceptional inputs are unreachable by hashing.',
  ['src/hash_to_curve.rs', 'src/secp256k1/curve.rs', 'src/derive/curve.rs', 'src/bls12381/g1.rs', 'src/bls12381/g2.rs'],
  [('constant-time SSWU / SvdW', 'src/hash_to_curve.rs')], na=NB)
p('C20', 'Message expansion follows the standard construction',
  'Expanding any message with any domain separation tag hashes exactly the byte strings prescribed by the expand_message_xmd '
  'construction and feeds the result to the field in big-endian order.', ['inputs'], 'all message and tag bytes for lengths within bounds, hash function abstract',
  'A few fixed vectors.', ['src/hash_to_curve.rs'], [('expand_message_xmd', 'src/hash_to_curve.rs')], na=NB)
p('C21', 'Pairing building blocks implement the ate pairing',
  'Line evaluations in the Miller loop are the tangent and chord lines at the running points, the loop follows the curve parameter, and '
  'the final exponentiation is a fixed power that kills the cofactor.', ['inputs'], 'all G1/G2 points; list lengths within bounds',
  'Bilinearity on random points.', ['src/derive/pairing.rs', 'src/bn256/engine.rs', 'src/bls12381/engine.rs', 'src/pluto_eris/engine.rs'],
  [('Miller loop and final exponentiation', 'src/bn256/engine.rs')], RING, note=N1)
p('C22', 'The target group wrapper is the multiplicative group written additively',
  'Addition, negation, doubling, subtraction, scalar multiplication and identity of the target group equal multiplication, inversion, '
  'squaring, division, exponentiation and one in the extension field, on the cyclotomic subgroup.', ['inputs'], 'all target-group elements and scalars',
  'Few random samples.', ['src/derive/pairing.rs'], [('Gt operator forwarding', 'src/derive/pairing.rs')], GRP, note=N2.replace('points', 'elements').replace('point operations are abstracted by the group law that C11/C12 decide', 'extension-field operations are abstracted by the multiplicative group law that C08/C09 decide'))
p('C23', 'Subgroup membership and cofactor clearing are exact',
  'Torsion tests accept exactly the points of the prime-order subgroup, entering the subgroup returns the point itself exactly then, cofactor clearing lands in it, and the fast endomorphism-based '
  'variants equal the defining scalar multiples.', ['inputs'], 'all curve points', 'Random points only.',
  ['src/bls12381/g1.rs', 'src/bls12381/g2.rs', 'src/bn256/curve.rs', 'src/pluto_eris/curve.rs', 'src/derive/curve.rs'],
  [('endomorphism subgroup checks', 'src/bls12381')], GRP + ', integer certificates', note=N2)
p('C24', 'Extension-field square roots and sign conventions are exact',
  'A square root in a quadratic extension is returned exactly for squares and squares back to the input; the sign and lexicographic '
  'order tests agree with their definition.', ['inputs'], 'all elements of the quadratic extensions', 'Special elements (in the base field, zero coordinates) are not sampled.',
  ['src/ff_ext/quadratic.rs', 'src/bn256/fq2.rs', 'src/bls12381/fq2.rs', 'src/pluto_eris/fp2.rs'], [('complex-method square root', 'src/ff_ext/quadratic.rs')], na=NB)
p('C25', 'Published field and curve constants satisfy their definitions',
  'The modulus, one, generator, roots of unity, inverses, cube roots of unity, group generators and curve coefficients exposed by the '
  'API satisfy the algebraic relations that define them.', ['configurations'], 'every field and curve', 'Some are tested; derived ones used by fast paths are not.',
  [FM, 'src'], [('derived constants', FM)], na=NB)


HOOKS = ['80376f1']


def main():
    over = {}
    sys.path.insert(0, V)
    try:
        from tools import claims
        over = claims.CLAIMS
    except ImportError:
        pass
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']),
                                    why_tests_cant=q['why'], anchors=dict(files=q['files'], mechanism=[dict(name=a, where=b) for a, b in q['mech']]))) + '\n')
    checks, na = [], []
    for q in P:
        o = over.get(q['id'], {})
        q = dict(q, **o)
        if q['na']:
            na.append(dict(property=q['id'], reason=q['na']))
        else:
            checks.append(dict(property=q['id'], quick_cmd='python3-vt check.py %s' % q['id'], thorough_cmd='python3-vt check.py %s --thorough' % q['id'],
                               technique=q['technique'], level=q['level'], level_note=q['note']))
    json.dump(dict(version=1, setup_cmd='python3-vt -m symx.build', hooks=dict(guard='cfg(halo2curves_verif)', enable='RUSTFLAGS=--cfg halo2curves_verif', source_commits=HOOKS), checks=checks, not_applicable=na,
                   notes='Every check builds the IR and the native library from /repo itself; setup only warms nothing that a check needs.'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
