"""Runs TLC: exhaustive model checking of a specification, and validation of batches of recorded traces against it."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class TlcError(Exception):
    pass


def classpath():
    d = os.path.dirname(JAR)
    return ':'.join([JAR] + sorted(j for j in glob.glob(f'{d}/*.jar') if j != JAR))


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    raise ValueError(v)


def java(module, cfg, extra, env, timeout, mem, cwd):
    cmd = ['java', f'-Xmx{mem}m', f'-Djava.io.tmpdir={cwd}', '-Xss64m', '-XX:+UseSerialGC' if '-workers 1 ' in ' '.join(extra) + ' ' else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-cp', classpath(), f'-DTLA-Library={SPEC}', 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE', '-metadir', f'{cwd}/meta', '-config', cfg, *extra, f'{SPEC}/{module}.tla']
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise TlcError(f'TLC timed out after {timeout} s on {module}')
    return p.returncode, p.stdout


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '') if False else out)
    g = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not g:
        return 0, 0
    a, b = g[-1]
    return int(a.replace(',', '')), int(b.replace(',', ''))


def check(module, constants, invariants=(), properties=(), constraint=None, spec='Spec', timeout=600, workers=8, mem=6000, deadlock=False, symmetry=None, view=None, action_constraint=None):
    """Exhaustive model checking.  Returns dict(ok, generated, distinct, out)."""
    d = tempfile.mkdtemp(prefix='tlc.')
    try:
        with open(f'{d}/m.cfg', 'w') as f:
            f.write(f'SPECIFICATION {spec}\n')
            for k, v in constants.items():
                f.write(f'CONSTANT {k} = {tla(v)}\n')
            for i in invariants:
                f.write(f'INVARIANT {i}\n')
            for i in properties:
                f.write(f'PROPERTY {i}\n')
            if constraint:
                f.write(f'CONSTRAINT {constraint}\n')
            if action_constraint:
                f.write(f'ACTION_CONSTRAINT {action_constraint}\n')
            if view:
                f.write(f'VIEW {view}\n')
            f.write(f'CHECK_DEADLOCK {"TRUE" if deadlock else "FALSE"}\n')
        rc, out = java(module, f'{d}/m.cfg', ['-workers', str(workers)], {}, timeout, mem, d)
        gen, dist = counts(out)
        if rc == 0 and 'No error has been found' in out:
            return dict(ok=True, generated=gen, distinct=dist, out=out)
        if rc in (10, 11, 12, 13):
            return dict(ok=False, generated=gen, distinct=dist, out=out)
        raise TlcError(f'TLC exit {rc} on {module}:\n{out[-3000:]}')
    finally:
        shutil.rmtree(d)


def _shard(args):
    module, constants, traces, timeout, mem, invariant = args
    with open(f'{SPEC}/{module}.tla') as f:
        view = re.search(r'^View ==', f.read(), re.M)
    d = tempfile.mkdtemp(prefix='tlc.')
    try:
        with open(f'{d}/t.ndjson', 'w') as f:
            for t in traces:
                f.write(json.dumps(t) + '\n')
        with open(f'{d}/m.cfg', 'w') as f:
            f.write('SPECIFICATION TraceSpec\n')
            for k, v in constants.items():
                f.write(f'CONSTANT {k} = {tla(v)}\n')
            f.write('CONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n')
            if view:
                f.write('VIEW View\n')
            for i in invariant:
                f.write(f'INVARIANT {i}\n')
        rc, out = java(module, f'{d}/m.cfg', ['-workers', '1'], {'TRACE_FILE': f'{d}/t.ndjson'}, timeout, mem, d)
        return rc, out
    finally:
        shutil.rmtree(d)


def validate(module, traces, constants, timeout=400, shards=8, mem=2500, explain=3):
    """traces: list of {'id':..., 'cfg': {...}, 'ev': [...]}.  Returns (rejections, stats); a rejection is dict(id, at, event, state)."""
    if not traces:
        return [], dict(generated=0, distinct=0, traces=0)
    n = max(1, min(shards, len(traces)))
    # balance by number of events
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]['ev']))
    groups = [[] for _ in range(n)]
    load = [0] * n
    for i in order:
        k = load.index(min(load))
        groups[k].append(traces[i]); load[k] += len(traces[i]['ev']) + 5
    gen = dist = 0
    rej = []
    with cf.ThreadPoolExecutor(n) as ex:
        for g, (rc, out) in zip(groups, ex.map(_shard, [(module, constants, g, timeout, mem, []) for g in groups])):
            if rc != 0 or 'REPORT-DONE' not in out:
                raise TlcError(f'TLC exit {rc} validating with {module}:\n{out[-4000:]}')
            a, b = counts(out)
            gen += a; dist += b
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out):
                t = g[int(m.group(1)) - 1]
                at = int(m.group(2))
                rej.append(dict(id=t['id'], at=at, event=t['ev'][at - 1] if at <= len(t['ev']) else None, trace=t, state=''))
    order = {t['id']: i for i, t in enumerate(traces)}
    rej.sort(key=lambda r: order[r['id']])
    for r in rej[:explain]:
        c = dict(constants)
        one = dict(r['trace'], stop=r['at'])
        rc, out = _shard((module, c, [one], timeout, mem, ['Stop']))
        st = re.split(r'State \d+:', out)
        r['state'] = st[-1].split('\n\n')[0].strip()[:6000] if len(st) > 1 else out[-2000:]
    return rej, dict(generated=gen, distinct=dist, traces=len(traces))
