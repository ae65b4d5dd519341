"""Obligations: a unit of proof, run in its own forked process."""
import io, os, sys, time, json, pickle, traceback, select, signal, threading
from . import solver

PROVED, VIOLATED, INCONCLUSIVE = 'proved', 'violated', 'inconclusive'


class NotProved(Exception):
    def __init__(self, what, verdict='', model=None):
        Exception.__init__(self, what, verdict)
        self.what, self.verdict, self.model = what, verdict, model or {}


class Ob:
    """name, run(obstate)->None (raises NotProved), search(NotProved)->replay or None"""
    def __init__(self, name, run, search=None, weight=1.0, group=''):
        self.name, self.run, self.search, self.weight, self.group = name, run, search, weight, group


class Res:
    def __init__(self, name, status, why='', replay=None, wall=0, stats=None, funcs=(), info=None):
        self.name, self.status, self.why, self.replay, self.wall, self.stats, self.funcs = name, status, why, replay, wall, stats, funcs
        self.info = info or {}


class Rec:
    """passed to run(): collects functions executed and facts for the evidence"""
    def __init__(self):
        self.funcs = set()
        self.info = {}
        self.goals = 0
        self.deadline = None

    def saw(self, ex):
        for f in ex.funcs_seen:
            self.funcs.add(f)

    def prove(self, what, text, timeout=60, order=('z3', 'cvc5')):
        self.goals += 1
        if self.deadline:
            timeout = max(1, min(timeout, int(self.deadline - time.time())))
        v, out, who = solver.check(text, timeout, order)
        if v != 'unsat':
            raise NotProved(what, v, solver.model_values(out) if v == 'sat' else {})
        return True


def run_one(ob, deadline):
    t0 = time.time()
    solver.STATS.__init__()
    rec = Rec()
    rec.deadline = deadline
    status, why, replay = PROVED, '', None
    try:
        ob.run(rec)
    except NotProved as e:
        status, why = INCONCLUSIVE, 'not proved: %s (%s)' % (e.what, e.verdict)
        if ob.search:
            try:
                replay = ob.search(e)
            except Exception:
                why += ' search error: ' + traceback.format_exc()[-600:]
            if replay:
                status = VIOLATED
    except Exception as e:
        status, why = INCONCLUSIVE, '%s: %s' % (type(e).__name__, str(e)[:300]) + ' @ ' + traceback.format_exc()[-700:]
        if ob.search:
            try:
                replay = ob.search(NotProved(why))
            except Exception:
                why += ' search error: ' + traceback.format_exc()[-600:]
            if replay:
                status = VIOLATED
    rec.info['goals'] = rec.goals
    return Res(ob.name, status, why, replay, time.time() - t0, solver.STATS.dump(), rec.funcs, rec.info)


def units_of(obs, size=12):
    """light obligations over abstract fields share a process"""
    todo, batch = [], []
    for o in sorted(obs, key=lambda o: -o.weight):
        if getattr(o, 'light', False) and o.weight <= 4:
            batch.append(o)
        else:
            todo.append([o])
    size = max(1, min(size, len(batch) // 16 or 1))
    batch.sort(key=lambda o: o.name)
    return todo + [batch[i:i + size] for i in range(0, len(batch), size)]


def run_all(obs, jobs=8, budget=780, verbose=False):
    """fork one process per unit (one obligation, or a batch of light ones), at most `jobs` at a time"""
    end = time.time() + budget
    todo = units_of(obs)
    run = {}
    res = []

    def done(obs, buf, t0, why):
        got = []
        f = io.BytesIO(buf)
        for ob in obs:
            try:
                got.append(pickle.load(f))
            except Exception:
                break
        for ob in obs[len(got):]:
            got.append(Res(ob.name, INCONCLUSIVE, why, wall=time.time() - t0))
            if why == 'worker died' and len(obs) > 1:
                got.pop()
                todo.append([ob])
        for x in got:
            res.append(x)
            if verbose:
                print('  %-40s %-12s %6.1fs %s' % (x.name, x.status, x.wall, x.why[:verbose if verbose > 1 else 200]), flush=True)
    while todo or run:
        while todo and len(run) < jobs and time.time() < end:
            unit = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    with os.fdopen(w, 'wb') as f:
                        for ob in unit:
                            pickle.dump(run_one(ob, end), f)
                            f.flush()
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = [unit, pid, b'', time.time()]
        if not run:
            for unit in todo:
                for ob in unit:
                    res.append(Res(ob.name, INCONCLUSIVE, 'time budget exhausted before it started'))
            todo = []
            break
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                run[r][2] += d
                continue
            os.close(r)
            unit, pid, buf, t0 = run.pop(r)
            os.waitpid(pid, 0)
            done(unit, buf, t0, 'worker died')
        if time.time() > end + 60:
            for r, (unit, pid, buf, t0) in list(run.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                done(unit, buf, t0, 'time budget exhausted')
            run = {}
    return res
