"""Symbolic semantics of the straight-line x86-64 inline assembly (Intel syntax) found in the IR.

Carry flags are kept as the high word of the 128-bit sum/difference, the same shape the portable code produces:
('add', w) with w in {0,1}; ('sub', w) with w in {0, 2^64-1}.  A flag an instruction leaves undefined is None;
reading it, an unknown mnemonic, or writing a register that is neither output nor clobber raises Unsupported."""
import re
from . import terms as T
from .interp import Unsupported

M64 = (1 << 64) - 1
R64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
ALIAS = {'ax': 'rax', 'bx': 'rbx', 'cx': 'rcx', 'dx': 'rdx', 'si': 'rsi', 'di': 'rdi'}


def cin(f):
    """flag -> 64-bit 0/1 value"""
    if f is None:
        raise Unsupported('undefined flag read')
    k, w = f
    return w if k == 'add' else T.lshr(w, 63, 64)


def cond(f):
    if f is None:
        raise Unsupported('undefined flag read')
    return T.not_(T.eq(f[1], 0, 64))


def z(x):
    return T.zext(x, 64, 128)


def adc(a, b, c):
    s = T.add(T.add(z(a), z(b), 128), z(c), 128)
    return T.trunc(s, 128, 64), ('add', T.trunc(T.lshr(s, 64, 128), 128, 64))


def sbb(a, b, c):
    s = T.sub(z(a), T.add(z(b), z(c), 128), 128)
    return T.trunc(s, 128, 64), ('sub', T.trunc(T.lshr(s, 64, 128), 128, 64))


def parse_operand(s):
    s = s.strip()
    m = re.fullmatch(r'\$\{(\d+)(?::q)?\}|\$(\d+)', s)
    if m:
        return ('arg', int(m.group(1) or m.group(2)))
    if s in R64:
        return ('reg', s)
    m = re.fullmatch(r'(?:qword ptr\s*)?\[(.+)\]', s)
    if m:
        base, off = None, 0
        for part in re.findall(r'[+-]?[^+-]+', m.group(1).replace(' ', '')):
            sg = -1 if part[0] == '-' else 1
            q = part.lstrip('+-')
            if re.fullmatch(r'\d+|0x[0-9a-fA-F]+', q):
                off += sg * int(q, 0)
            elif base is None and sg == 1:
                base = parse_operand(q)
            else:
                raise Unsupported('address ' + s)
        return ('mem', base, off)
    if re.fullmatch(r'-?(\d+|0x[0-9a-fA-F]+)', s):
        return ('imm', int(s, 0) & M64)
    raise Unsupported('asm operand ' + s)


def compile_asm(code, cons, argtypes, rettype):
    cl = cons.split(',')
    outs = []
    slots = []       # constraint index -> ('out', k) or ('in', k)
    clob = set()
    nin = 0
    for c in cl:
        if c.startswith('~'):
            q = c[2:-1]
            clob.add(ALIAS.get(q, q))
            continue
        if c.startswith('='):
            m = re.fullmatch(r'=&?\{(\w+)\}', c)
            outs.append(ALIAS.get(m.group(1), m.group(1)) if m else 'out%d' % len(outs))
            slots.append(('reg', outs[-1]))
        else:
            if re.fullmatch(r'\d+', c):
                raise Unsupported('tied constraint')
            m = re.fullmatch(r'\{(\w+)\}', c)
            slots.append(('in', nin, ALIAS.get(m.group(1), m.group(1)) if m else None))
            nin += 1
    ok = set(outs) | clob
    prog = []
    for line in code.replace('\t', ' ').split('\n'):
        line = re.sub(r'(//|#).*', '', line).strip()
        if not line:
            continue
        m = re.match(r'([a-z0-9]+)\s*(.*)$', line)
        ops = [parse_operand(x) for x in m.group(2).split(',')] if m.group(2) else []
        prog.append((m.group(1), ops))

    def run(ex, args):
        reg = {}
        for i, s in enumerate(slots):
            if s[0] == 'in' and s[2]:
                reg[s[2]] = args[s[1]]
        fl = {'c': None, 'o': None, 'z': None}

        def get(o):
            if o[0] == 'imm':
                return o[1]
            if o[0] == 'arg':
                s = slots[o[1]]
                return args[s[1]] if s[0] == 'in' else get(s)
            if o[0] == 'reg':
                if o[1] not in reg:
                    raise Unsupported('asm reads register %s before writing it' % o[1])
                return reg[o[1]]
            a = T.add(get(o[1]), o[2] & M64, 64)
            return ex.load(a, 8)

        def put(o, v):
            if o[0] == 'arg':
                s = slots[o[1]]
                if s[0] != 'reg':
                    raise Unsupported('asm writes an input operand')
                o = s
            if o[0] == 'reg':
                if o[1] not in ok:
                    raise Unsupported('asm writes undeclared register ' + o[1])
                reg[o[1]] = v
            elif o[0] == 'mem':
                ex.store(T.add(get(o[1]), o[2] & M64, 64), 8, v)
            else:
                raise Unsupported('asm destination')

        for op, a in prog:
            if op == 'mov':
                put(a[0], get(a[1]))
            elif op == 'mulx':
                p = T.mul(z(get(('reg', 'rdx'))), z(get(a[2])), 128)
                put(a[1], T.trunc(p, 128, 64))
                put(a[0], T.trunc(T.lshr(p, 64, 128), 128, 64))
            elif op in ('add', 'adc', 'adcx', 'adox'):
                f = 'o' if op == 'adox' else 'c'
                r, c = adc(get(a[0]), get(a[1]), 0 if op == 'add' else cin(fl[f]))
                put(a[0], r)
                fl[f] = c
                if op in ('add', 'adc'):
                    fl['o'] = None
                    fl['z'] = r
            elif op in ('sub', 'sbb', 'cmp'):
                if op == 'sbb' and a[0] == a[1]:
                    f = fl['c']
                    r = f[1] if f and f[0] == 'sub' else T.sub(0, cin(f), 64)
                    c = ('sub', r)
                else:
                    r, c = sbb(get(a[0]), get(a[1]), cin(fl['c']) if op == 'sbb' else 0)
                if op != 'cmp':
                    put(a[0], r)
                fl.update(c=c, o=None, z=r)
            elif op == 'imul' and len(a) == 2:
                put(a[0], T.mul(get(a[0]), get(a[1]), 64))
                fl.update(c=None, o=None, z=None)
            elif op in ('xor', 'and', 'or'):
                if op == 'xor' and a[0] == a[1]:
                    r = 0
                else:
                    r = {'xor': T.xor, 'and': T.and_, 'or': T.or_}[op](get(a[0]), get(a[1]), 64)
                put(a[0], r)
                fl.update(c=('add', 0), o=('add', 0), z=r)
            elif op in ('cmovc', 'cmovb', 'cmovnc', 'cmovae', 'cmove', 'cmovz', 'cmovne', 'cmovnz'):
                if op in ('cmovc', 'cmovb', 'cmovnc', 'cmovae'):
                    k = cond(fl['c'])
                    neg = op in ('cmovnc', 'cmovae')
                else:
                    if fl['z'] is None:
                        raise Unsupported('undefined flag read')
                    k = T.eq(fl['z'], 0, 64)
                    neg = op in ('cmovne', 'cmovnz')
                d, s = get(a[0]), get(a[1])
                put(a[0], T.ite(k, d, s, 64) if neg else T.ite(k, s, d, 64))
            elif op == 'test' and a[0] == a[1]:
                fl.update(c=('add', 0), o=('add', 0), z=get(a[0]))
            else:
                raise Unsupported('asm instruction ' + op)
        res = []
        for o in outs:
            res.append(reg.get(o, 0))
        return res[0] if len(res) == 1 else tuple(res)
    return run
