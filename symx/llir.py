"""Parser for the textual LLVM IR that rustc (1.74 / LLVM 17) emits.

Only the subset rustc produces is supported; anything else raises IRError, which
a check reports as an error of the machinery (never as a pass)."""
import re, subprocess


class IRError(Exception):
    pass


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<com>;.*$)
 |(?P<cstr>c"(?:[^"]*)")
 |(?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<attr>\#\d+)
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 |(?P<word>[a-zA-Z_$.][a-zA-Z0-9_$.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        g = k.lastgroup
        if g != 'ws' and g != 'com':
            out.append((g, k.group()))
        pos = k.end()
    return out


# ---- types -------------------------------------------------------------
PTR = ('p',)
VOID = ('void',)
_INT = {}


def I(n):
    t = _INT.get(n)
    if t is None:
        t = _INT[n] = ('i', n)
    return t


class Module:
    """All .ll files of a build, indexed by symbol; bodies are parsed on demand."""

    def __init__(self, paths):
        self.named = {}        # type name -> source text (per file), parsed lazily
        self.defs = {}         # symbol -> (file index, header line, [body lines])
        self.decls = set()
        self.globs = {}        # symbol -> (file, text)
        self.files = []
        for p in paths:
            self._index(p)
        self._demangled = {}
        self._szcache = {}

    def _index(self, path):
        fi = len(self.files)
        f = {'path': path, 'types': {}, 'tcache': {}, 'globs': {}, 'defs': {}}
        self.files.append(f)
        with open(path) as fh:
            lines = fh.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == 'd' and l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group(1).strip('"')
                internal = bool(re.match(r'define (internal|private)', l))
                rec = (fi, l, lines, i + 1, j)
                f['defs'][name] = rec
                if name not in self.defs or (not internal):
                    self.defs[name] = rec
                i = j + 1
                continue
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m:
                    f['types'][m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                name = m.group(1).strip('"')
                f['globs'][name] = m.group(2)
                if name not in self.globs or 'private' not in m.group(2)[:40]:
                    if 'external' not in m.group(2)[:40]:
                        self.globs[name] = (fi, m.group(2))
            i += 1

    # -- demangling, batched
    def demangle_all(self):
        names = sorted(set(self.defs))
        p = subprocess.run([CXXFILT], input='\n'.join(names) + '\n', capture_output=True, text=True)
        out = p.stdout.split('\n')
        for a, b in zip(names, out):
            self._demangled[a] = b

    def find(self, dem):
        """symbol of the function with this demangled name"""
        if getattr(self, '_find', None) is None:
            self.demangle_all()
            self._find = {}
            for f in self.defs:
                self._find.setdefault(self.demangle(f), f)
        if dem not in self._find:
            raise KeyError('no function ' + dem)
        return self._find[dem]

    def demangle(self, name):
        r = self._demangled.get(name)
        if r is None:
            p = subprocess.run([CXXFILT, name], capture_output=True, text=True)
            r = self._demangled[name] = p.stdout.strip()
        return r

    # -- types
    def named_type(self, fi, name):
        f = self.files[fi]
        t = f['tcache'].get(name)
        if t is None:
            toks = tokenize(f['types'][name])
            t, pos = self.parse_type(fi, toks, 0)
            f['tcache'][name] = t
        return t

    def parse_type(self, fi, toks, pos):
        g, v = toks[pos]
        if g == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                return I(int(v[1:])), pos + 1
            if v == 'ptr':
                pos += 1
                return PTR, pos
            if v == 'void':
                return VOID, pos + 1
            if v == 'double':
                return ('f', 64), pos + 1
            if v == 'float':
                return ('f', 32), pos + 1
            if v == 'opaque':
                return ('st', (), False), pos + 1
            if v == 'metadata':
                return ('md',), pos + 1
        if g == 'name' and v[0] == '%':
            return self.named_type(fi, v), pos + 1
        if v == '[':
            n = int(toks[pos + 1][1])
            t, pos = self.parse_type(fi, toks, pos + 3)
            assert toks[pos][1] == ']'
            return ('arr', n, t), pos + 1
        if v == '{':
            ts = []
            pos += 1
            while toks[pos][1] != '}':
                t, pos = self.parse_type(fi, toks, pos)
                ts.append(t)
                if toks[pos][1] == ',':
                    pos += 1
            return ('st', tuple(ts), False), pos + 1
        if v == '<':
            if toks[pos + 1][1] == '{':
                t, pos = self.parse_type(fi, toks, pos + 1)
                assert toks[pos][1] == '>'
                return ('st', t[1], True), pos + 1
            n = int(toks[pos + 1][1])
            t, pos = self.parse_type(fi, toks, pos + 3)
            return ('vec', n, t), pos + 1
        raise IRError('type: %r' % (toks[pos:pos + 5],))

    def align(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b and a < 8:
                a *= 2
            return a
        if k == 'p':
            return 8
        if k == 'f':
            return t[1] // 8
        if k == 'arr' :
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'st':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        raise IRError('align %r' % (t,))

    def size(self, t):
        s = self._szcache.get(t)
        if s is None:
            s = self._szcache[t] = self._size(t)
        return s

    def _size(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'p':
            return 8
        if k == 'f':
            return t[1] // 8
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'st':
            return self.layout(t)[1]
        raise IRError('size %r' % (t,))

    def layout(self, t):
        """offsets, size of a struct type"""
        key = ('L', t)
        r = self._szcache.get(key)
        if r is None:
            off = 0
            offs = []
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(x)
            a = self.align(t)
            off = (off + a - 1) // a * a
            r = self._szcache[key] = (offs, off)
        return r


CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'
ATTRS = set('''noundef noalias nocapture nonnull readonly writeonly readnone returned signext zeroext inreg
 nest noreturn nounwind sret byval align dereferenceable dereferenceable_or_null inbounds exact nuw nsw
 tail musttail notail fastcc coldcc ccc allocptr allocalign immarg unnamed_addr local_unnamed_addr dso_local
 hidden internal private constant volatile weak rustc cold noinline byref preallocated range nofpclass
 fast nnan ninf nsz arcp contract afn reassoc nonlazybind disjoint nneg'''.split())


def unescape(s):
    """LLVM string body -> bytes"""
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(c.encode('utf-8'))
            i += 1
    return bytes(out)


class Op:
    """operand: kind is 'c' (concrete python value), 'r' (register), 'g' (global symbol),
    'x' (constant expression), 'agg' (tuple of operands), 'u' (undef)."""
    __slots__ = ('k', 'v', 't')

    def __init__(self, k, v, t):
        self.k = k
        self.v = v
        self.t = t

    def __repr__(self):
        return 'Op(%s,%r)' % (self.k, self.v)


class FParser:
    """parses operands/instructions of one function (or a global initialiser)"""

    def __init__(self, mod, fi):
        self.m = mod
        self.fi = fi

    def skip_attrs(self, toks, pos):
        n = len(toks)
        while pos < n:
            g, v = toks[pos]
            if g == 'word' and v in ATTRS:
                pos += 1
                if v == 'align' and pos < n and toks[pos][0] == 'num':
                    pos += 1
                elif pos < n and toks[pos][1] == '(' and v in (
                        'sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'range', 'align', 'nofpclass', 'byref'):
                    d = 0
                    while True:
                        if toks[pos][1] == '(':
                            d += 1
                        elif toks[pos][1] == ')':
                            d -= 1
                        pos += 1
                        if d == 0:
                            break
                continue
            if g == 'str' or g == 'attr':
                pos += 1
                if pos < n and toks[pos][1] == '=':
                    pos += 2
                continue
            break
        return pos

    def ty(self, toks, pos):
        return self.m.parse_type(self.fi, toks, pos)

    def typed(self, toks, pos):
        t, pos = self.ty(toks, pos)
        pos = self.skip_attrs(toks, pos)
        return self.value(toks, pos, t)

    def value(self, toks, pos, t):
        g, v = toks[pos]
        if g == 'name':
            if v[0] == '%':
                return Op('r', v, t), pos + 1
            return Op('g', v[1:].strip('"'), t), pos + 1
        if g == 'num':
            if t[0] == 'i':
                return Op('c', int(v) & ((1 << t[1]) - 1), t), pos + 1
            if t[0] == 'f':
                if v.startswith('0x'):
                    import struct
                    return Op('c', struct.unpack('<d', int(v, 16).to_bytes(8, 'little'))[0], t), pos + 1
                return Op('c', float(v), t), pos + 1
            raise IRError('num for %r' % (t,))
        if g == 'cstr':
            b = unescape(v[2:-1])
            return Op('bytes', b, t), pos + 1
        if g == 'word':
            if v == 'true':
                return Op('c', 1, t), pos + 1
            if v == 'false':
                return Op('c', 0, t), pos + 1
            if v == 'null':
                return Op('c', 0, t), pos + 1
            if v in ('undef', 'poison'):
                return Op('u', None, t), pos + 1
            if v == 'zeroinitializer':
                return Op('z', None, t), pos + 1
            if v == 'getelementptr':
                pos = self.skip_attrs(toks, pos + 1)
                assert toks[pos][1] == '('
                st, pos = self.ty(toks, pos + 1)
                ops = []
                while toks[pos][1] == ',':
                    pos = pos + 1
                    if toks[pos][1] == 'inrange':
                        pos += 1
                    o, pos = self.typed(toks, pos)
                    ops.append(o)
                assert toks[pos][1] == ')'
                return Op('x', ('gep', st, ops), t), pos + 1
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
                assert toks[pos + 1][1] == '('
                o, pos = self.typed(toks, pos + 2)
                assert toks[pos][1] == 'to'
                t2, pos = self.ty(toks, pos + 1)
                assert toks[pos][1] == ')'
                return Op('x', (v, o, t2), t), pos + 1
        if v in ('{', '[') or (v == '<'):
            packed = False
            if v == '<':
                pos += 1
                packed = True
                if toks[pos][1] != '{':
                    # vector literal
                    els = []
                    while toks[pos][1] != '>':
                        o, pos = self.typed(toks, pos)
                        els.append(o)
                        if toks[pos][1] == ',':
                            pos += 1
                    return Op('agg', els, t), pos + 1
            close = {'{': '}', '[': ']'}[toks[pos][1]]
            pos += 1
            els = []
            while toks[pos][1] != close:
                o, pos = self.typed(toks, pos)
                els.append(o)
                if toks[pos][1] == ',':
                    pos += 1
            pos += 1
            if packed:
                assert toks[pos][1] == '>'
                pos += 1
            return Op('agg', els, t), pos
        raise IRError('value %r' % (toks[pos:pos + 6],))
