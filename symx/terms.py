"""Hash-consed bit-vector terms with constant folding.

Concrete values are plain python ints (unsigned); a Term is used only when the
value depends on a symbolic input. All operations have machine (wrapping)
semantics at the stated width."""


class Term:
    __slots__ = ('op', 'w', 'a', 'id', 'aux')

    def __init__(self, op, w, a, id):
        self.op = op
        self.w = w
        self.a = a
        self.id = id
        self.aux = None

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def reset():
    _tab.clear()


def mk(op, w, *a):
    k = (op, w) + tuple((x.id, None) if type(x) is Term else x for x in a)
    t = _tab.get(k)
    if t is None:
        _n[0] += 1
        t = _tab[k] = Term(op, w, a, _n[0])
    return t


def show(t, d=4):
    if type(t) is not Term:
        return hex(t) if isinstance(t, int) else str(t)
    if t.op == 'var':
        return str(t.a[0])
    if d == 0:
        return '..'
    return '(%s:%d %s)' % (t.op, t.w, ' '.join(show(x, d - 1) for x in t.a))


def var(name, w):
    return mk('var', w, name)


def M(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# -- "boolean valued" terms: ite(c, v1, v0) with constant branches
def bv(t):
    if t.w == 1:
        if t.op == 'not':
            return (t.a[0], 0, 1)
        return (t, 1, 0)
    if t.op == 'ite' and type(t.a[1]) is int and type(t.a[2]) is int:
        return t.a
    return None


def isT(x):
    return type(x) is Term


def zero_under(c, x):
    """c implies x == 0 (syntactically: c is the zero test of x, possibly spread over an `or`)"""
    if c.op == 'eq' and type(c.a[1]) is int and c.a[1] == 0 and c.a[0] is x:
        return True
    if c.op == 'and' and (zero_under(c.a[0], x) or zero_under(c.a[1], x)):
        return True
    return x.op == 'or' and isT(x.a[0]) and isT(x.a[1]) and zero_under(c, x.a[0]) and zero_under(c, x.a[1])


def ite(c, x, y, w):
    if type(c) is int:
        return x if c & 1 else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x, w)
    if w == 1:
        if type(x) is int and type(y) is int:
            return c if x else not_(c)
        if type(x) is int:
            return or_(c, y, 1) if x else and_(not_(c), y, 1)
        if type(y) is int:
            return or_(not_(c), x, 1) if y else and_(c, x, 1)
    if isT(x) and w > 1 and zero_under(c, x):
        return ite(c, 0, y, w)
    if isT(x) and x.op == 'ite' and x.a[0] is c:
        return ite(c, x.a[1], y, w)
    if isT(y) and y.op == 'ite' and y.a[0] is c:
        return ite(c, x, y.a[2], w)
    return mk('ite', w, c, x, y)


def not_(c):
    if type(c) is int:
        return 1 - (c & 1)
    if c.op == 'not':
        return c.a[0]
    return mk('not', 1, c)


def _lift1(f, t, w):
    b = bv(t)
    if b is None:
        return None
    return ite(b[0], f(b[1]), f(b[2]), w)


def _lift2(f, x, y, w):
    """x op y when both are boolean valued on one condition (or one is constant)"""
    if type(x) is int:
        b = bv(y)
        return None if b is None else ite(b[0], f(x, b[1]), f(x, b[2]), w)
    if type(y) is int:
        b = bv(x)
        return None if b is None else ite(b[0], f(b[1], y), f(b[2], y), w)
    bx = bv(x)
    if bx is None:
        return None
    by = bv(y)
    if by is None or bx[0] is not by[0]:
        return None
    return ite(bx[0], f(bx[1], by[1]), f(bx[2], by[2]), w)


def add(x, y, w):
    m = M(w)
    if type(x) is int and type(y) is int:
        return (x + y) & m
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if w == 1:
            return not_(x)
    r = _lift2(lambda a, b: (a + b) & m, x, y, w)
    if r is not None:
        return r
    if type(y) is int and x.op == 'add' and type(x.a[1]) is int:
        return add(x.a[0], (x.a[1] + y) & m, w)
    if isT(y) and y.id < x.id:
        x, y = y, x
    return mk('add', w, x, y)


def sub(x, y, w):
    m = M(w)
    if type(x) is int and type(y) is int:
        return (x - y) & m
    if type(y) is int:
        return add(x, (-y) & m, w)
    if x is y:
        return 0
    if w == 1:
        return xor(x, y, 1)
    r = _lift2(lambda a, b: (a - b) & m, x, y, w)
    if r is not None:
        return r
    return mk('sub', w, x, y)


def mul(x, y, w):
    m = M(w)
    if type(x) is int and type(y) is int:
        return (x * y) & m
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == 1:
            return x
    r = _lift2(lambda a, b: (a * b) & m, x, y, w)
    if r is not None:
        return r
    if isT(y) and y.id < x.id:
        x, y = y, x
    return mk('mul', w, x, y)


def and_(x, y, w):
    m = M(w)
    if type(x) is int and type(y) is int:
        return x & y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == m:
            return x
    if x is y:
        return x
    r = _lift2(lambda a, b: a & b, x, y, w)
    if r is not None:
        return r
    for (p, q) in ((x, y), (y, x)):
        if isT(p):
            b = bv(p)
            if b is not None and w > 1:
                if b[1] == m and b[2] == 0:
                    return ite(b[0], q, 0, w)
                if b[1] == 0 and b[2] == m:
                    return ite(b[0], 0, q, w)
                if isT(q) and w > 1:
                    return ite(b[0], and_(q, b[1], w), and_(q, b[2], w), w)
    if w == 1 and isT(y):
        if (x.op == 'not' and x.a[0] is y) or (y.op == 'not' and y.a[0] is x):
            return 0
    if type(y) is int:
        if x.op == 'and' and type(x.a[1]) is int:
            return and_(x.a[0], x.a[1] & y, w)
        if x.op == 'zext' and y >= M(x.a[0].w):
            return x if y & M(x.a[0].w) == M(x.a[0].w) else mk('and', w, x, y)
        if x.op == 'zext':
            return zext(and_(x.a[0], y & M(x.a[0].w), x.a[0].w), x.a[0].w, w)
        if x.op == 'ite':
            return ite(x.a[0], and_(x.a[1], y, w), and_(x.a[2], y, w), w)
        if x.op == 'concat' and y:
            # byte-wise masking
            out = []
            ok = True
            for i, p in enumerate(x.a):
                mb = (y >> (8 * i)) & 255
                out.append(and_(p, mb, 8))
            return concat(out)
    if isT(y) and y.id < x.id:
        x, y = y, x
    return mk('and', w, x, y)


def or_(x, y, w):
    m = M(w)
    if type(x) is int and type(y) is int:
        return x | y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if y == m:
            return m
    if x is y:
        return x
    r = _lift2(lambda a, b: a | b, x, y, w)
    if r is not None:
        return r
    if w == 1 and isT(y):
        if (x.op == 'not' and x.a[0] is y) or (y.op == 'not' and y.a[0] is x):
            return 1
        return not_(and_(not_(x), not_(y), 1))
    if isT(y) and y.id < x.id:
        x, y = y, x
    # (x<<1) | (y>>63) style and byte concatenations are left to the back ends
    return mk('or', w, x, y)


def xor(x, y, w):
    m = M(w)
    if type(x) is int and type(y) is int:
        return x ^ y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if w == 1:
            return not_(x)
    if x is y:
        return 0
    r = _lift2(lambda a, b: a ^ b, x, y, w)
    if r is not None:
        return r
    if isT(y):
        for (p, q) in ((x, y), (y, x)):
            if q.op == 'xor':
                if q.a[0] is p:
                    return q.a[1]
                if q.a[1] is p:
                    return q.a[0]
        if w > 1:
            for (p, q) in ((x, y), (y, x)):
                if q.op == 'ite' and ((type(q.a[1]) is int and q.a[1] == 0) or (type(q.a[2]) is int and q.a[2] == 0)):
                    return ite(q.a[0], xor(p, q.a[1], w), xor(p, q.a[2], w), w)
    else:
        if x.op == 'xor' and type(x.a[1]) is int:
            return xor(x.a[0], x.a[1] ^ y, w)
    if w == 1 and isT(y):
        if x.op == 'not':
            return not_(xor(x.a[0], y, 1))
        if y.op == 'not':
            return not_(xor(x, y.a[0], 1))
    if isT(y) and y.id < x.id:
        x, y = y, x
    return mk('xor', w, x, y)


def byte(t, k):
    """k-th little-endian byte of t"""
    if type(t) is int:
        return (t >> (8 * k)) & 255
    if t.w == 8:
        return t if k == 0 else 0
    if t.op == 'concat':
        return t.a[k]
    if t.op == 'zext':
        return byte(t.a[0], k) if 8 * k < t.a[0].w and t.a[0].w % 8 == 0 else (
            0 if 8 * k >= t.a[0].w else mk('byte', 8, t, k))
    r = _lift1(lambda v: (v >> (8 * k)) & 255, t, 8)
    if r is not None:
        return r
    if t.op == 'ite':
        return ite(t.a[0], byte(t.a[1], k), byte(t.a[2], k), 8)
    if t.op == 'lshr' and type(t.a[1]) is int and t.a[1] % 8 == 0:
        j = k + t.a[1] // 8
        return byte(t.a[0], j) if 8 * j < t.w else 0
    if t.w == 128 and k < 8:
        return byte(trunc(t, 128, 64), k)
    if t.op == 'trunc' and not (t.w == 64 and t.a[0].w == 128):
        return byte(t.a[0], k)
    return mk('byte', 8, t, k)


def concat(bs):
    """little-endian list of 8-bit values -> one term"""
    n = len(bs)
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if n == 1:
        return bs[0]
    b0 = bs[0]
    if isT(b0) and b0.op == 'byte' and b0.a[1] == 0:
        src = b0.a[0]
        if all(isT(b) and b.op == 'byte' and b.a[0] is src and b.a[1] == i for i, b in enumerate(bs)):
            if src.w == 8 * n:
                return src
            if src.w > 8 * n:
                return trunc(src, src.w, 8 * n)
    # ite lifting when all bytes hang on one condition
    cs = set(b.a[0].id for b in bs if isT(b) and b.op == 'ite')
    if len(cs) == 1 and all(type(b) is int or b.op == 'ite' for b in bs):
        c = [b.a[0] for b in bs if isT(b)][0]
        return ite(c, concat([b if type(b) is int else b.a[1] for b in bs]),
                   concat([b if type(b) is int else b.a[2] for b in bs]), 8 * n)
    # high zero bytes
    k = n
    while k > 0 and type(bs[k - 1]) is int and bs[k - 1] == 0:
        k -= 1
    if k < n and k in (1, 2, 4, 8):
        return zext(concat(bs[:k]), 8 * k, 8 * n)
    return mk('concat', 8 * n, *bs)


def bytes_of(t, n):
    return [byte(t, k) for k in range(n)]


def zext(x, w0, w):
    if type(x) is int:
        return x
    if w0 == w:
        return x
    if w0 == 1:
        return ite(x, 1, 0, w)
    b = bv(x)
    if b is not None:
        return ite(b[0], b[1], b[2], w)
    if x.op == 'zext':
        return zext(x.a[0], x.a[0].w, w)
    if x.op == 'ite':
        return ite(x.a[0], zext(x.a[1], w0, w), zext(x.a[2], w0, w), w)
    return mk('zext', w, x)


def sext(x, w0, w):
    if type(x) is int:
        return sgn(x, w0) & M(w)
    if w0 == w:
        return x
    b = bv(x)
    if b is not None:
        return ite(b[0], sgn(b[1], w0) & M(w), sgn(b[2], w0) & M(w), w)
    if x.op == 'zext':
        return zext(x.a[0], x.a[0].w, w)
    return mk('sext', w, x)


def trunc(x, w0, w):
    if type(x) is int:
        return x & M(w)
    if w0 == w:
        return x
    r = _lift1(lambda v: v & M(w), x, w)
    if r is not None:
        return r
    if x.op == 'zext' or x.op == 'sext':
        iw = x.a[0].w
        if iw == w:
            return x.a[0]
        if iw > w:
            return trunc(x.a[0], iw, w)
        return zext(x.a[0], iw, w) if x.op == 'zext' else sext(x.a[0], iw, w)
    if x.op == 'trunc':
        return trunc(x.a[0], x.a[0].w, w)
    if x.op == 'ite':
        return ite(x.a[0], trunc(x.a[1], w0, w), trunc(x.a[2], w0, w), w)
    if w == 8 and x.op in ('concat', 'lshr') and x.w % 8 == 0:
        if x.op == 'concat':
            return x.a[0]
        if type(x.a[1]) is int and x.a[1] % 8 == 0:
            return byte(x.a[0], x.a[1] // 8)
    if x.op == 'concat' and w % 8 == 0:
        return concat(list(x.a[:w // 8]))
    if w == 8 and x.w % 8 == 0 and x.op not in ('and', 'or', 'xor'):
        return byte(x, 0)
    if x.op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[x.op]
        return f(trunc(x.a[0], w0, w), trunc(x.a[1], w0, w), w)
    if w == 1:
        # low bit
        if x.op == 'byte':
            pass
    return mk('trunc', w, x)


def shl(x, k, w):
    if type(k) is not int:
        b = bv(k)
        if b is not None:
            return ite(b[0], shl(x, b[1], w), shl(x, b[2], w), w)
        return mk('shl', w, x, k)
    if k == 0:
        return x
    if k >= w:
        return 0
    if type(x) is int:
        return (x << k) & M(w)
    r = _lift1(lambda v: (v << k) & M(w), x, w)
    if r is not None:
        return r
    if k % 8 == 0 and w % 8 == 0 and x.op in ('concat', 'zext') and (x.op == 'concat' or x.a[0].w % 8 == 0):
        n = w // 8
        bs = bytes_of(x, n)
        return concat([0] * (k // 8) + bs[:n - k // 8])
    return mk('shl', w, x, k)


def lshr(x, k, w):
    if type(k) is not int:
        b = bv(k)
        if b is not None:
            return ite(b[0], lshr(x, b[1], w), lshr(x, b[2], w), w)
        return mk('lshr', w, x, k)
    if k == 0:
        return x
    if k >= w:
        return 0
    if type(x) is int:
        return x >> k
    r = _lift1(lambda v: v >> k, x, w)
    if r is not None:
        return r
    if x.op == 'zext' and k >= x.a[0].w:
        return 0
    if x.op == 'lshr' and type(x.a[1]) is int:
        return lshr(x.a[0], x.a[1] + k, w)
    if k % 8 == 0 and x.op == 'concat':
        return concat(list(x.a[k // 8:]) + [0] * (k // 8))
    if x.op == 'ite':
        return ite(x.a[0], lshr(x.a[1], k, w), lshr(x.a[2], k, w), w)
    return mk('lshr', w, x, k)


def ashr(x, k, w):
    if type(k) is int:
        if k == 0:
            return x
        k = min(k, w - 1)
        if type(x) is int:
            return (sgn(x, w) >> k) & M(w)
        r = _lift1(lambda v: (sgn(v, w) >> k) & M(w), x, w)
        if r is not None:
            return r
    return mk('ashr', w, x, k)


def udiv(x, y, w):
    if type(x) is int and type(y) is int:
        return x // y
    if type(y) is int and y & (y - 1) == 0:
        return lshr(x, y.bit_length() - 1, w)
    return mk('udiv', w, x, y)


def urem(x, y, w):
    if type(x) is int and type(y) is int:
        return x % y
    if type(y) is int and y & (y - 1) == 0:
        return and_(x, y - 1, w)
    return mk('urem', w, x, y)


def sdiv(x, y, w):
    if type(x) is int and type(y) is int:
        a, b = sgn(x, w), sgn(y, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q & M(w)
    return mk('sdiv', w, x, y)


def srem(x, y, w):
    if type(x) is int and type(y) is int:
        a, b = sgn(x, w), sgn(y, w)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & M(w)
    return mk('srem', w, x, y)


def eq(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if x == y else 0
    if x is y:
        return 1
    if type(x) is int:
        x, y = y, x
    if w == 1:
        return not_(xor(x, y, 1))
    if type(y) is int:
        b = bv(x)
        if b is not None:
            return ite(b[0], int(b[1] == y), int(b[2] == y), 1)
        if x.op == 'zext':
            if y > M(x.a[0].w):
                return 0
            return eq(x.a[0], y, x.a[0].w)
        if y == 0:
            if x.op == 'or':
                return and_(eq(x.a[0], 0, w), eq(x.a[1], 0, w), 1)
            if x.op == 'xor':
                return eq(x.a[0], x.a[1], w)
        if x.op == 'concat':
            r = 1
            for i, p in enumerate(x.a):
                r = and_(r, eq(p, (y >> (8 * i)) & 255, 8), 1)
            return r
        if x.op == 'ite':
            # eq(ite(c,a,b), k)
            e1 = eq(x.a[1], y, w)
            e0 = eq(x.a[2], y, w)
            return ite(x.a[0], e1, e0, 1)
        if x.op == 'add' and type(x.a[1]) is int:
            return eq(x.a[0], (y - x.a[1]) & M(w), w)
    else:
        r = _lift2(lambda a, b: int(a == b), x, y, 1)
        if r is not None:
            return r
        if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
            return eq(x.a[0], y.a[0], x.a[0].w)
        if y.id < x.id:
            x, y = y, x
    return mk('eq', 1, x, y)


def ult(x, y, w):
    if type(x) is int and type(y) is int:
        return int(x < y)
    if x is y:
        return 0
    if type(y) is int:
        if y == 0:
            return 0
        if y == 1:
            return eq(x, 0, w)
    if type(x) is int:
        if x == M(w):
            return 0
        if x == 0:
            return not_(eq(y, 0, w))
    r = _lift2(lambda a, b: int(a < b), x, y, 1)
    if r is not None:
        return r
    if isT(x) and x.op == 'zext' and type(y) is int:
        if y > M(x.a[0].w):
            return 1
        return ult(x.a[0], y, x.a[0].w)
    if isT(y) and y.op == 'zext' and type(x) is int:
        if x > M(y.a[0].w):
            return 0
        return ult(x, y.a[0], y.a[0].w)
    return mk('ult', 1, x, y)


def slt(x, y, w):
    if type(x) is int and type(y) is int:
        return int(sgn(x, w) < sgn(y, w))
    if x is y:
        return 0
    r = _lift2(lambda a, b: int(sgn(a, w) < sgn(b, w)), x, y, 1)
    if r is not None:
        return r
    if isT(x) and x.op == 'zext' and type(y) is int:
        return 0 if sgn(y, w) <= 0 else ult(x, y, w)
    if isT(y) and y.op == 'zext' and type(x) is int:
        return 1 if sgn(x, w) < 0 else ult(x, y, w)
    return mk('slt', 1, x, y)


def icmp(p, x, y, w):
    if p == 'eq':
        return eq(x, y, w)
    if p == 'ne':
        return not_(eq(x, y, w))
    if p == 'ult':
        return ult(x, y, w)
    if p == 'ugt':
        return ult(y, x, w)
    if p == 'ule':
        return not_(ult(y, x, w))
    if p == 'uge':
        return not_(ult(x, y, w))
    if p == 'slt':
        return slt(x, y, w)
    if p == 'sgt':
        return slt(y, x, w)
    if p == 'sle':
        return not_(slt(y, x, w))
    if p == 'sge':
        return not_(slt(x, y, w))
    raise ValueError(p)


def bswap(x, w):
    n = w // 8
    return concat(bytes_of(x, n)[::-1])


def ctz(x, w):
    if type(x) is int:
        return w if x == 0 else (x & -x).bit_length() - 1
    return mk('ctz', w, x)


def clz(x, w):
    if type(x) is int:
        return w - x.bit_length()
    return mk('clz', w, x)


def evaluate(t, env, memo=None):
    """concrete value of t under env: var name -> int (other leaf ops via env[(op,)+args])"""
    if type(t) is int:
        return t
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.op == 'var':
            memo[x.id] = env[x.a[0]]
            st.pop()
            continue
        if x.op not in EV:
            memo[x.id] = env[x]
            st.pop()
            continue
        todo = [c for c in x.a if isT(c) and c.id not in memo]
        if todo:
            st.extend(todo)
            continue
        args = [memo[c.id] if isT(c) else c for c in x.a]
        memo[x.id] = EV[x.op](x, args)
        st.pop()
    return memo[t.id]


def _w0(x, i=0):
    c = x.a[i]
    return c.w if isT(c) else None


def _cmpw(x):
    for c in x.a:
        if isT(c):
            return c.w


LUT = {}     # object number -> contents of a constant table read at a symbolic index
EV = {
    'lut': lambda x, a: int.from_bytes(LUT[a[0] >> 32][a[0] & 0xffffffff:(a[0] & 0xffffffff) + 8], 'little'),
    'add': lambda x, a: (a[0] + a[1]) & M(x.w),
    'sub': lambda x, a: (a[0] - a[1]) & M(x.w),
    'mul': lambda x, a: (a[0] * a[1]) & M(x.w),
    'and': lambda x, a: a[0] & a[1],
    'or': lambda x, a: a[0] | a[1],
    'xor': lambda x, a: a[0] ^ a[1],
    'not': lambda x, a: 1 - a[0],
    'ite': lambda x, a: a[1] if a[0] else a[2],
    'zext': lambda x, a: a[0],
    'sext': lambda x, a: sgn(a[0], _w0(x)) & M(x.w),
    'trunc': lambda x, a: a[0] & M(x.w),
    'shl': lambda x, a: (a[0] << a[1]) & M(x.w) if a[1] < x.w else 0,
    'lshr': lambda x, a: a[0] >> a[1],
    'ashr': lambda x, a: (sgn(a[0], x.w) >> a[1]) & M(x.w),
    'byte': lambda x, a: (a[0] >> (8 * a[1])) & 255,
    'concat': lambda x, a: sum(b << (8 * i) for i, b in enumerate(a)),
    'eq': lambda x, a: int(a[0] == a[1]),
    'ult': lambda x, a: int(a[0] < a[1]),
    'slt': lambda x, a: int(sgn(a[0], _cmpw(x)) < sgn(a[1], _cmpw(x))),
    'udiv': lambda x, a: a[0] // a[1],
    'urem': lambda x, a: a[0] % a[1],
    'ctz': lambda x, a: ctz(a[0], x.w),
    'clz': lambda x, a: clz(a[0], x.w),
}
