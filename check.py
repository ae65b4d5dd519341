#!/usr/bin/env python3-vt
"""check.py <property id> [--thorough] [--only SUBSTR] [-v]
Decides one property of /repo's current working tree; see DESIGN.md."""
import sys, os, time, json, argparse
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from symx import build, ob, props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='count', default=0)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = props.PROPS[a.prop]
    art = build.build_all([(k, c) for c in P.configs for k in ('ir', 'native')])
    tb = time.time() - t0
    obs = P.obligations(props.World(art, tier, seed))
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    budget = (5400 if tier == 'thorough' else 800) - (time.time() - t0)
    res = ob.run_all(obs, a.jobs, budget, verbose=a.v * 400)
    known = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl'))] if os.path.exists(os.path.join(V, 'known_findings.jsonl')) else []
    viol = []
    rdir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    shown = set()
    for r in sorted(res, key=lambda r: r.name):
        if r.status == ob.VIOLATED:
            kf = [k for k in known if k.get('property') == a.prop and k.get('status') == 'known' and k.get('obligation') == r.name
                  and (not k.get('match') or k['match'] in json.dumps(r.replay, default=str))]
            if kf:
                print('KNOWN-FINDING: property=%s %s' % (a.prop, kf[0]['what']))
                shown.add(kf[0]['what'])
                continue
            p = os.path.join(rdir, '%s-%s.json' % (a.prop, ''.join(c if c.isalnum() else '_' for c in r.name)))
            with open(p, 'w') as f:
                json.dump(dict(property=a.prop, obligation=r.name, why=r.why, replay=r.replay), f, indent=1, default=str)
            viol.append((r, p))
    inc = [r for r in res if r.status == ob.INCONCLUSIVE]
    for r in inc:
        print('INCONCLUSIVE property=%s obligation=%s %s' % (a.prop, r.name, r.why.replace('\n', ' ')[:300]))
    funcs = set()
    for r in res:
        funcs |= set(r.funcs)
    stats = {}
    for r in res:
        for k, v in (r.stats or {}).items():
            if k == 'by':
                for s, n in v.items():
                    stats.setdefault('answered_by', {})[s or 'none'] = stats.get('answered_by', {}).get(s or 'none', 0) + n
            else:
                stats[k] = round(stats.get(k, 0) + v, 2)
    dem = P.demangler()
    fl = sorted(set(dem(f) for f in funcs))
    mine = [f for f in fl if 'halo2curves' in f]
    goals = sum(r.info.get('goals', 0) for r in res)
    ev = dict(property=a.prop, tier=tier, seed=seed, level=P.level,
              coverage=dict(obligations=len(res), discharged=sum(r.status == ob.PROVED for r in res),
                            inconclusive=[r.name for r in inc], violated=[r.name for r, _ in viol],
                            goals=goals, queries=stats.get('queries', 0), unsat=stats.get('unsat', 0), sat=stats.get('sat', 0),
                            unknown=stats.get('unknown', 0), solver_time_s=stats.get('time', 0), answered_by=stats.get('answered_by', {}),
                            paths=sum(r.info.get('paths', 1) for r in res),
                            encoder_checked_against_native=sum(r.info.get('eval', 0) for r in res),
                            functions_encoded=len(fl), functions_of_halo2curves=len(mine), functions=mine[:400],
                            bounds=P.bounds, checker_cmd='python3-vt check.py %s' % a.prop,
                            trusted_base=props.TRUSTED, explanation=P.explanation,
                            slowest=[[r.name, round(r.wall, 1)] for r in sorted(res, key=lambda r: -r.wall)[:5]],
                            names=sorted(r.name for r in res)[:600], build_s=round(tb, 1)),
              assumptions=P.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(V, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('property=%s obligations=%d proved=%d inconclusive=%d violated=%d queries=%s solver=%.0fs wall=%.0fs' % (
        a.prop, len(res), ev['coverage']['discharged'], len(inc), len(viol), stats.get('queries', 0), stats.get('time', 0), time.time() - t0))
    for r, p in viol:
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        print('  %s: %s' % (r.name, json.dumps(r.replay, default=str)[:600]))
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
