"""Mathematical reference data: written down here independently of /repo."""
import random


class Fld:
    def __init__(self, name, p, nl, be, uniform, path, limb=True):
        self.name, self.p, self.n, self.be, self.uniform, self.path = name, p, nl, be, uniform, path
        self.size = 8 * nl
        self.R = 1 << (64 * nl)
        self.Rinv = pow(self.R, -1, p)

    def mont(self, v):
        return v * self.R % self.p

    def unmont(self, r):
        return r * self.Rinv % self.p

    def raw(self, r):
        return r.to_bytes(self.size, 'little')

    def enc(self, v):
        """raw memory of the element of value v"""
        return self.raw(self.mont(v % self.p))

    def canon(self, v):
        """canonical byte encoding of value v"""
        return v.to_bytes(self.size, 'big' if self.be else 'little')

    def boundary(self):
        p, R = self.p, self.R
        s = {0, 1, 2, 3, p - 1, p - 2, p - 3, (p - 1) // 2, (p + 1) // 2, R % p, (R - 1) % p, (-R) % p, R * R % p, (p - R % p) % p,
             pow(R, -1, p), 5, 7}
        for i in range(self.n):
            for j in range(i + 1, self.n + 1):
                m = (1 << (64 * j)) - (1 << (64 * i))
                for v in (m, m >> 1, 1 << (64 * i), (1 << (64 * i)) - 1, (p >> (64 * i)) << (64 * i), p & ((1 << (64 * j)) - 1)):
                    if 0 <= v < p:
                        s.add(v)
                        s.add(p - v if v else 0)
        s |= {x * R % p for x in list(s)}
        return sorted(x for x in s if 0 <= x < p)

    def samples(self, rng, k):
        out = []
        for _ in range(k):
            t = rng.random()
            if t < 0.5:
                out.append(rng.randrange(self.p))
            else:
                v = 0
                for i in range(self.n):
                    v |= rng.choice((0, 1, (1 << 64) - 1, 1 << 63, (1 << 32) - 1, rng.getrandbits(64), (self.p >> (64 * i)) & ((1 << 64) - 1))) << (64 * i)
                out.append(v % self.p)
        return out


BN_P = 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47
BN_R = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
BLS_P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
BLS_R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
K1_P = 2**256 - 2**32 - 977
K1_N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
R1_P = 2**256 - 2**224 + 2**192 + 2**96 - 1
R1_N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
PE_P = 0x24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd300000001
PE_Q = 0x24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5c7a8a6c7be4a775fe8e177fd69ca7e85d60050af41ffffcd300000001
PALLAS_P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
VESTA_P = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001

FIELDS = {f.name: f for f in [
    Fld('bn256_fq', BN_P, 4, False, (64, 48), 'halo2curves::bn256::fq::Fq'),
    Fld('bn256_fr', BN_R, 4, False, (64, 48), 'halo2curves::bn256::fr::Fr'),
    Fld('bls_fq', BLS_P, 6, True, (64, 96), 'halo2curves::bls12381::fq::Fq'),
    Fld('bls_fr', BLS_R, 4, False, (64,), 'halo2curves::bls12381::fr::Fr'),
    Fld('k1_fp', K1_P, 4, False, (48, 64), 'halo2curves::secp256k1::fp::Fp'),
    Fld('k1_fq', K1_N, 4, False, (48, 64), 'halo2curves::secp256k1::fq::Fq'),
    Fld('r1_fp', R1_P, 4, False, (48, 64), 'halo2curves::secp256r1::fp::Fp'),
    Fld('r1_fq', R1_N, 4, False, (48, 64), 'halo2curves::secp256r1::fq::Fq'),
    Fld('pe_fp', PE_P, 7, False, (64, 72, 112), 'halo2curves::pluto_eris::fp::Fp'),
    Fld('pe_fq', PE_Q, 7, False, (64, 72, 112), 'halo2curves::pluto_eris::fq::Fq'),
]}
