"""Bit-vector encoding of machine terms (exact)."""
from . import terms as T
from .terms import isT


class BV:
    def __init__(self, cuts=None):
        self.cuts = cuts or {}     # Term -> variable name (fresh, same width)
        self.lines = []
        self.names = {}
        self.vars = {}

    def const(self, v, w):
        return '(_ bv%d %d)' % (v & T.M(w), w)

    def tr(self, t, w=None):
        if type(t) is int:
            return self.const(t, w)
        st = [t]
        nm = self.names
        while st:
            x = st[-1]
            if x.id in nm:
                st.pop()
                continue
            if x in self.cuts:
                self._var(self.cuts[x], x.w)
                nm[x.id] = '|%s|' % self.cuts[x]
                st.pop()
                continue
            if x.op == 'var':
                self._var(x.a[0], x.w)
                nm[x.id] = '|%s|' % x.a[0]
                st.pop()
                continue
            todo = [c for c in x.a if isT(c) and c.id not in nm]
            if todo:
                st.extend(todo)
                continue
            n = 't%d' % x.id
            self.lines.append('(define-fun %s () (_ BitVec %d) %s)' % (n, x.w, self._e(x)))
            nm[x.id] = n
            st.pop()
        return nm[t.id]

    def _var(self, n, w):
        if n not in self.vars:
            self.vars[n] = w
            self.lines.append('(declare-const |%s| (_ BitVec %d))' % (n, w))

    def _e(self, x):
        op, w, a = x.op, x.w, x.a
        g = lambda c, ww=w: self.names[c.id] if isT(c) else self.const(c, ww)
        b = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'and': 'bvand', 'or': 'bvor', 'xor': 'bvxor', 'shl': 'bvshl',
             'lshr': 'bvlshr', 'ashr': 'bvashr', 'udiv': 'bvudiv', 'urem': 'bvurem', 'sdiv': 'bvsdiv', 'srem': 'bvsrem'}.get(op)
        if b:
            return '(%s %s)' % (b, ' '.join(g(c) for c in a)) if len(a) == 2 else self._fold(b, [g(c) for c in a])
        if op == 'not':
            return '(bvnot %s)' % g(a[0])
        if op == 'ite':
            return '(ite (= %s #b1) %s %s)' % (g(a[0], 1), g(a[1]), g(a[2]))
        if op == 'zext':
            return '((_ zero_extend %d) %s)' % (w - a[0].w, g(a[0]))
        if op == 'sext':
            return '((_ sign_extend %d) %s)' % (w - a[0].w, g(a[0]))
        if op == 'trunc':
            return '((_ extract %d 0) %s)' % (w - 1, g(a[0]))
        if op == 'byte':
            W = a[0].w
            if 8 * a[1] + 7 >= W:
                return '((_ extract %d %d) ((_ zero_extend 8) %s))' % (8 * a[1] + 7, 8 * a[1], g(a[0]))
            return '((_ extract %d %d) %s)' % (8 * a[1] + 7, 8 * a[1], g(a[0]))
        if op == 'concat':
            return '(concat %s)' % ' '.join(g(c, 8) for c in a[::-1])
        if op in ('eq', 'ult', 'slt'):
            W = T._cmpw(x)
            f = {'eq': '=', 'ult': 'bvult', 'slt': 'bvslt'}[op]
            return '(ite (%s %s %s) #b1 #b0)' % (f, g(a[0], W), g(a[1], W))
        if op in ('ctz', 'clz'):
            e = self.const(w, w)
            rng = range(w - 1, -1, -1) if op == 'ctz' else range(w)
            for i in rng:
                e = '(ite (= ((_ extract %d %d) %s) #b1) %s %s)' % (i, i, g(a[0]), self.const(i if op == 'ctz' else w - 1 - i, w), e)
            return e
        raise NotImplementedError(op)

    def _fold(self, b, xs):
        e = xs[0]
        for y in xs[1:]:
            e = '(%s %s %s)' % (b, e, y)
        return e

    def big(self, words, w=64):
        """little-endian words -> one bit-vector"""
        return '(concat %s)' % ' '.join(self.tr(x, w) for x in words[::-1])

    def script(self, asserts):
        return '\n'.join(['(set-logic ALL)'] + self.lines + ['(assert %s)' % a for a in asserts])
