#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property on /repo's current working tree.
check.py --replay FILE : runs the recorded scenario of a violation again.  Exit 0 holds, 1 violated, 2 no answer."""
import argparse
import json
import os
import sys
import time
import traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build, harness, suite as S, suites, tlc  # noqa: E402


def known():
    """Lines 'known: property=<id> suite=<s> case=<scenario> <what fails>' (a prefix ending in * matches several cases)."""
    out = []
    for l in open(f'{VERIF}/known_findings.txt'):
        if l.startswith('known: '):
            w = l[7:].split(None, 3)
            out.append(dict(property=w[0].split('=')[1], suite=w[1].split('=')[1], case=w[2].split('=')[1], text=w[3].strip()))
    return out


def matches(k, r):
    return k['suite'] == r['suite'] and (r['id'] == k['case'] or k['case'].endswith('*') and r['id'].startswith(k['case'][:-1]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        s = suites.SUITES[r['suite']]
        rej, _ = s.validate(s.traces(r['scenarios'], r['meta']), [r['property']])
        for x in rej:
            print(json.dumps(x['trace']['ev'][max(0, x['at'] - 10):x['at']], indent=0)); print(x['state'])
            print(f'REJECTED at event {x["at"]}: {x["event"]}')
        return 1 if rej else 0
    t0 = time.time()
    p = a.property
    if p not in suites.CHECKS:
        print(f'no check for {p}')
        return 2
    kn = [k for k in known() if k['property'] == p]
    viol, covs, hit = [], {}, set()
    for s in suites.CHECKS[p]:
        conf, cov = S.run(suites.SUITES[s], p, a.seed, a.tier)
        covs[s] = cov
        for r in conf:
            k = next((i for i, k in enumerate(kn) if matches(k, r)), None)
            if k is None:
                viol.append(r)
            else:
                hit.add(k)
    for i in range(len(kn)):
        print(f'KNOWN-FINDING: property={p} {kn[i]["text"]}' + ('' if i in hit else ' (not reproduced in this run)'))
    os.makedirs(f'{VERIF}/work/replay', exist_ok=True)
    paths = []
    for n, r in enumerate(viol[:5]):
        path = f'{VERIF}/work/replay/{p}-{n}.json'
        json.dump(dict(r, property=p), open(path, 'w'), indent=1)
        paths.append(path)
        print(f'  {r["suite"]}/{r["id"]} at {r["at"]}: {json.dumps(r["event"])[:400]}')
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    coverage = dict(states=sum(c['states'] for c in covs.values()), transitions=sum(c['transitions'] for c in covs.values()),
                    traces_validated_against_impl=sum(c['traces'] for c in covs.values()),
                    distinct_traces=sum(c['distinct'] for c in covs.values()),
                    events_by_kind={s: c['kinds'] for s, c in covs.items()},
                    models=[m for c in covs.values() for m in c['mc']],
                    samples=[x for c in covs.values() for x in c['samples']])
    json.dump(dict(property=p, tier=a.tier, seed=a.seed, level='model_checking', coverage=coverage, wall_s=round(time.time() - t0, 1), violations=len(viol),
                   assumptions=suites.ASSUMPTIONS), open(f'{VERIF}/evidence/{p}.json', 'w'), indent=1)
    if viol:
        print(f'VIOLATION property={p} replay={paths[0]}')
        return 1
    print(f'{p}: held on {coverage["traces_validated_against_impl"]} traces, {time.time() - t0:.0f} s')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except (build.BuildError, harness.HarnessError, tlc.TlcError) as e:
        print(f'ERROR: {type(e).__name__}: {e}')
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
