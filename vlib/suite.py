"""A suite: scenarios -> harness -> traces -> TLC, plus the exhaustive checks of its specification."""
import hashlib
import json
import os
import time
from . import harness, tlc

VERIF = tlc.VERIF


def sample(x, room=12000):
    """The start of a trace for the evidence file, which is to stay small."""
    d = dict(id=x['id'], cfg={k: v for k, v in x['cfg'].items() if len(json.dumps(v)) < 2000}, events=[])
    for e in x['ev'][:12]:
        s = json.dumps(e)
        room -= min(len(s), 2000)
        if room < 0:
            break
        d['events'].append(e if len(s) < 2000 else s[:2000] + ' ...')
    return d


class Suite:
    """name, trace module; scenarios(seed, tier, prop) -> ({id: lines}, {id: meta}); to_trace(id, log, **meta) -> trace or None;
    mc(tier) -> [dict of tlc.check arguments]."""
    def __init__(self, name, module, scenarios, to_trace, mc=lambda tier: [], need=('agent', 'lib'), constants=None, samples=3, timeout=60, post=None, group=lambda k: k):
        self.name, self.module, self.scenarios, self.to_trace, self.mc = name, module, scenarios, to_trace, mc
        self.need, self.constants, self.samples, self.timeout = need, constants or {}, samples, timeout
        self.post, self.group = post, group      # scenarios of one group are judged together

    def traces(self, sc, meta):
        logs, bad = harness.run(sc, self.need, timeout=self.timeout)
        out = []
        for k, log in logs.items():
            t = self.to_trace(k, log, **meta.get(k, {}))
            how = bad.get(k)
            for t in (t if isinstance(t, list) else [t]):
                if how and 'end' not in {e['ev'] for e in log[-1:]}:
                    t = t or dict(id=k, cfg={}, ev=[])
                    if not t.pop('judged', False):      # the trace itself says how it ended
                        t['crash'] = how
                if t:
                    t.setdefault('scn', k)
                    out.append(t)
        if self.post:
            self.post(out)
        return out

    def validate(self, traces, props):
        crashed = [t for t in traces if 'crash' in t]
        rej, st = tlc.validate(self.module, [{k: v for k, v in t.items() if k != 'crash'} for t in traces if 'crash' not in t], dict(self.constants, Props=set(props)))
        rej = [dict(id=t['id'], at=len(t['ev']) + 1, event=dict(e='crash', how=t['crash']), trace=t, state='') for t in crashed] + rej
        return rej, st


def digest(t):
    return hashlib.sha1(json.dumps([t['cfg'], t['ev']], sort_keys=True).encode()).hexdigest()


def run(suite, prop, seed, tier, log=print):
    """Returns (rejections, coverage dict)."""
    cov = dict(mc=[], states=0, transitions=0)
    for a in suite.mc(tier):
        a = dict(a)
        label = a.pop('label', a['module'])
        t = time.time()
        r = tlc.check(**a)
        if not r['ok']:
            raise tlc.TlcError(f'the specification itself fails: {label}\n{r["out"][-4000:]}')
        log(f'[{suite.name}] model {label}: {r["generated"]} transitions, {r["distinct"]} states, {time.time() - t:.0f} s')
        cov['mc'].append(dict(model=label, constants={k: str(v) for k, v in a['constants'].items()}, checked=list(a.get('invariants', [])) + list(a.get('properties', [])), states=r['distinct'], transitions=r['generated']))
        cov['states'] += r['distinct']; cov['transitions'] += r['generated']
    t = time.time()
    sc, meta = suite.scenarios(seed, tier, prop)
    traces = suite.traces(sc, meta)
    log(f'[{suite.name}] {len(sc)} scenarios executed, {len(traces)} traces, {sum(len(x["ev"]) for x in traces)} events, {time.time() - t:.0f} s')
    if not traces:
        raise harness.HarnessError('no traces')
    t = time.time()
    rej, st = suite.validate(traces, [prop])
    log(f'[{suite.name}] TLC consumed them in {time.time() - t:.0f} s, {st["generated"]} states; {len(rej)} rejected')
    confirmed = []
    if rej:
        # only what happens again is reported
        first = {suite.group(r['trace']['scn']) for r in rej[:40]}
        ids = [k for k in sc if suite.group(k) in first]
        again, _ = suite.validate(suite.traces({k: sc[k] for k in ids}, {k: meta.get(k, {}) for k in ids}), [prop])
        seen = {r['id'] for r in again}
        for r in rej:
            if r['id'] in seen:
                confirmed.append(dict(suite=suite.name, id=r['id'], scn=r['trace']['scn'], scenarios={k: sc[k] for k in ids if suite.group(k) == suite.group(r['trace']['scn'])},
                                      meta={k: meta.get(k, {}) for k in ids if suite.group(k) == suite.group(r['trace']['scn'])}, at=r['at'], event=r['event'],
                                      before=r['trace']['ev'][max(0, r['at'] - 8):r['at'] - 1], cfg=r['trace']['cfg'], state=r['state']))
        log(f'[{suite.name}] {len(confirmed)} of the first {len(first)} rejected again')
        if not confirmed:
            raise harness.HarnessError(f'{len(rej)} rejections did not repeat: {[r["id"] for r in rej[:5]]}')
    cov['states'] += st['distinct']; cov['transitions'] += st['generated']
    kinds = {}
    for x in traces:
        for e in x['ev']:
            kinds[e['e']] = kinds.get(e['e'], 0) + 1
    cov.update(traces=len(traces), distinct=len({digest(x) for x in traces}), events=sum(len(x['ev']) for x in traces), kinds=kinds,
               samples=[sample(x) for x in traces[:: max(1, len(traces) // suite.samples)][:suite.samples]])
    return confirmed, cov
