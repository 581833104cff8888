"""The same session with and without its trace settings: pairs of executions for DebugTrace."""
import hashlib
import json
import random
from . import console, inputs, life, opening, session, term
from .harness import frame, hexw

# what the settings may say, and how the trace server may behave (mode, number)
VALUES = ['trace', '1', 'trace,input', ',trace,', 'input,trace', 'trace,something_else', 'tracer,trace', 'input', 'TRACE', 'trace,' + 'x' * 240, 'trace,' + 'y' * 300]
SERVERS = ['absent', 'ok', 'ok', 'busy 1', 'busy 3', 'leaves 1', 'denied', 'broken']
SLOW = ['ok 0 2', 'busy 2 3', 'broken 0 1']
AGENTS = {'screen', 'history', 'console', 'input', 'life'}      # nobody races with the agent there: its slowness cannot show
DUMPED = 'Font'     # tracing looks at the fonts: a fault on the n-th look is not the same fault


def usable(lines):
    return not any(l.startswith(('fault ', 'onapi ')) and DUMPED in l for l in lines)


def agent(mouse, *lines):
    return ['seed 11', 'os 10 0 14393 1', 'loginput', f'agent 0 {mouse} 80 25', 'conn conin', 'conn conout', 'adv 60', 'drain conout', *lines, 'adv 60', 'drain conout', 'close control', 'idle']


def typed(b):
    return ['in ' + b.hex(), 'adv 60', 'drain conout']


def directed():
    """What a dump of the input or of an error has to print: anything, of any length."""
    texts = [b'100%% %s%s%s%s%s%n%n%d %p %99999d', b'%' * 40, bytes(range(256)), bytes(range(128, 256)) * 3, b'a' * 1023, b'b' * 1024, b'\r' * 700, b'\x1b[A' * 500,
             b'\xff' * 1500, '\u00e9\u20ac\U0001f600'.encode() * 90, b'\xed\xa0\x80\xf4\x90\x80\x80\xc0\x80', b'\x1b[1;99999999999999999999R', b'\x1b', b'\x03', b'\x1b[<0;5;5M\x1b[<0;5;5m\x1b[<64;900;900M']
    for i, t in enumerate(texts):
        yield f't{i}', agent(2 if i == len(texts) - 1 else 0, *(['app inmode 210'] if i % 3 == 1 else []), *typed(t)), 'trace,input'
    name = hexw('%s%n\\' + 'z' * 2000)
    for i, err in enumerate([2, 5, 231, 2250]):
        yield f's{i}', agent(0, f'childfail {err}', f'spawn 0 1 1 {name} {name} {name} - -', 'rdctl', 'adv 60', 'childfail 0', f'spawn 1 1 1 {hexw("a.exe")} - - - -', 'rdctl', 'adv 60', 'proclist', 'rdctl',
                             f'setsize {90 + i} 30', 'rdctl', f'app title {name}', 'adv 60', 'drain conout', 'childexit 0'), 'trace'
    yield 'm', agent(1, *typed(b'x')), 'trace,dump_input_map'
    for i, bad in enumerate([b'', b'\0', b'\2' + b'\xff' * 8, frame(b'')[:7], b'\1' * 40]):
        yield f'c{i}', agent(0, 'ctl ' + frame(bad).hex(), 'rdctl', 'adv 60', 'adv 40000', 'adv 60'), '1'


def scenarios(seed, tier, prop):
    k = 700 if tier == 'thorough' else 110
    src = dict(session=lambda: session.scenarios(seed, 200, 90), open=lambda: opening.scenarios(seed, 'quick'), faults=lambda: opening.faults(seed, 'quick', 'L02'),
               screen=lambda: term.screen(seed, 90, 'X01'), history=lambda: term.scenarios(seed, 40, only='asf'), console=lambda: console.scenarios(seed, 90),
               input=lambda: inputs.scenarios(seed, 'quick', 'I02'), life=lambda: life.scenarios(seed, 'quick', 'S01'))
    r = random.Random(f'debug{seed}')
    sc, meta = {}, {}
    for name, gen in src.items():
        s, _ = gen()
        s = {i: l for i, l in s.items() if usable(l)}
        for n, i in enumerate(r.sample(sorted(s), min(k, len(s)))):
            # one schedule for both: no random switches, and a background program would see the agent's extra steps
            lines = [l for l in s[i] if not l.startswith(('preempt', 'bgapp'))]
            if not any(l.startswith('seed ') for l in lines):
                lines.insert(0, f'seed {r.randrange(1, 10 ** 9)}')
            v = r.choice(VALUES)
            srv = r.choice(SERVERS + SLOW if name in AGENTS else SERVERS)
            if n == 0 and name in ('screen', 'input'):
                v = 'dump_input_map,trace'
            elif n < 4 and 'trace' not in v.split(',') or len(v) > 255:
                v = r.choice(VALUES[:3] + ['trace,' + 'y' * 300])
            key = f'{name}.{i}'
            sc[key + '+off'] = lines
            sc[key + '+on'] = ['tracesrv ' + srv, 'denv WINPTY_DEBUG ' + v.encode().hex()] + lines
            meta[key + '+on'] = dict(setting=v, server=srv.split()[0])
    for i, lines, v in directed():
        srv = r.choice(SERVERS)
        sc[f'd.{i}+off'], sc[f'd.{i}+on'], meta[f'd.{i}+on'] = lines, ['tracesrv ' + srv, 'denv WINPTY_DEBUG ' + v.encode().hex()] + lines, dict(setting=v, server=srv.split()[0])
    return sc, meta


def x(e):
    s = json.dumps({a: b for a, b in e.items()}, sort_keys=True)
    return s if len(s) < 160 else s[:100] + '... ' + hashlib.sha1(s.encode()).hexdigest()


def to_trace(k, log, setting='', server='none'):
    ev = []
    for e in log:
        if e['ev'] == 'dbg':
            ev.append(dict(e='dbg', op=e['op'], ok=e['ok'], busy=e['err'] == 231, h=e['h'], t=f'{e["pid"]}.{e["t"]}'))
        elif e['ev'] == 'con' and e.get('f') == 'read':
            continue
        else:
            ev.append(dict(e='x', x=x(e)))
    if not log or log[-1]['ev'] != 'end':
        ev.append(dict(e='x', x='stops short'))
    return dict(id=k, cfg=dict(setting=setting, server=server, ref=[]), ev=ev, judged=True)


def group(k):
    return k.rsplit('+', 1)[0]


def post(ts):
    off = {group(t['id']): t for t in ts if t['id'].endswith('+off')}
    ts[:] = [t for t in ts if t['id'].endswith('+on')]
    for t in ts:
        t['cfg']['ref'] = [e['x'] for e in off[group(t['id'])]['ev']]
