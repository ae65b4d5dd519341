"""SMT front end: a portfolio of z3 and cvc5 on SMT-LIB2 text; first conclusive
answer wins.  Every query is counted; a sample of them is cross-checked."""
import subprocess, time, re, os, shutil, tempfile

Z3 = 'z3-new' if shutil.which('z3-new') else 'z3'
SOLVERS = {
    'z3': lambda t: [Z3, '-T:%d' % t],
    'cvc5': lambda t: ['cvc5', '--lang=smt2', '--tlimit=%d' % (t * 1000), '--produce-models'],
    'z3old': lambda t: ['z3', '-T:%d' % t],
}
TMP = os.environ.get('TMPDIR', '/tmp')


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.by = {}

    def dump(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    time=round(self.time, 2), by=dict(self.by))


STATS = Stats()


class SolverError(Exception):
    pass


def _verdict(out):
    for l in out.split('\n'):
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown'):
            return l
    return ''


def check(text, timeout=60, order=('z3', 'cvc5'), model=True):
    """returns (verdict, output text, solver name)"""
    t0 = time.time()
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vq', dir=TMP)
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-option :produce-models true)\n' + text)
            f.write('\n(check-sat)\n')
            if model:
                f.write('(get-model)\n')
        ps = []
        for s in order:
            ps.append((s, subprocess.Popen(SOLVERS[s](timeout) + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                           text=True), []))
        v, out, who = 'unknown', '', ''
        live = list(ps)
        # z3/cvc5 may print a long model: read via threads
        import threading, queue
        q = queue.Queue()

        def rd(s, p):
            try:
                o, _ = p.communicate()
            except Exception:
                o = ''
            q.put((s, o or ''))
        ths = [threading.Thread(target=rd, args=(s, p), daemon=True) for s, p, _ in ps]
        for t in ths:
            t.start()
        left = len(ps)
        end = time.time() + timeout + 10
        errs = []
        while left:
            try:
                s, o = q.get(timeout=max(0.1, end - time.time()))
            except queue.Empty:
                break
            left -= 1
            r = _verdict(o)
            if r in ('sat', 'unsat'):
                v, out, who = r, o, s
                break
            if '(error' in o and 'model' not in o and 'timeout' not in o and 'interrupted' not in o:
                errs.append('%s: %s' % (s, o[:300]))
        for s, p, _ in ps:
            if p.poll() is None:
                p.kill()
        for t in ths:
            t.join(2)
        if v == 'unknown' and len(errs) == len(ps):
            raise SolverError(' | '.join(errs))
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    setattr(STATS, v, getattr(STATS, v) + 1)
    STATS.by[who] = STATS.by.get(who, 0) + 1
    return v, out, who


_DEF = re.compile(r'\(define-fun\s+(\|[^|]*\||\S+)\s*\(\)\s*(?:Int|Bool|\(_ BitVec \d+\))\s*(\(- \d+\)|[^\s()]+)\s*\)')


def model_values(out):
    r = {}
    for m in _DEF.finditer(out):
        n = m.group(1).strip('|')
        v = m.group(2)
        if v.startswith('(-'):
            r[n] = -int(v[2:-1])
        elif v in ('true', 'false'):
            r[n] = int(v == 'true')
        elif v.startswith('#x'):
            r[n] = int(v[2:], 16)
        elif v.startswith('#b'):
            r[n] = int(v[2:], 2)
        else:
            r[n] = int(v)
    return r
