"""Scenarios that open sessions and the mapping of their logs to OpenTrace's events."""
import random
from .harness import decode, hexw
from .session import CODES

# A fault in these would be a fault of the sandbox, not a situation a caller can be in: their failure is either impossible
# or has no effect the code could undo.
NOFAULT = {'CloseHandle', 'CloseDesktop', 'CloseWindowStation', 'FreeSid', 'LocalFree', 'CancelIo', 'FreeLibrary', 'GetModuleHandleExW', 'GetModuleFileNameW', 'LoadLibraryW', 'GetProcAddress'}


def cmdline(cmd):
    """The agent's arguments (the first is the program)."""
    q = cmd.split('"')
    rest = q[2] if cmd.startswith('"') and len(q) > 2 else cmd.split(' ', 1)[1] if ' ' in cmd else ''
    return rest.split()


def to_trace(tid, log, **m):
    """One trace per call of winpty_open."""
    out = []
    client = next((e['client'] for e in log if e['ev'] == 'libstat' and 'client' in e), None)
    conf = {}
    for i, e in enumerate(log):
        if e['ev'] == 'call' and e['api'] in ('config', 'size', 'mouse', 'timeout'):
            c = conf.setdefault(e['args'][0], dict(flags=0, mouse=1, cols=80, rows=25, tmo=30000))
            v = [int(x) for x in e['args'][1:]]
            if e['api'] == 'config':
                c.update(flags=v[0], mouse=1, cols=80, rows=25, tmo=30000)
            elif e['api'] == 'size':
                c.update(cols=v[0], rows=v[1])
            elif e['api'] == 'mouse':
                c.update(mouse=v[0])
            else:
                c.update(tmo=v[0])
        if e['ev'] == 'call' and e['api'] == 'open':
            hb = next((x['handles'] for x in reversed(log[:i]) if 'handles' in x), 0)
            out.append(one(f'{tid}#{len(out) + 1}' if out else tid, log[i:], client, dict(conf[e['args'][1]]), hb, m))
    for t in out:
        t['scn'] = tid
    return out


def one(tid, log, client, c, hb, m):
    ev = []
    osv = m.get('os', (10, 0))
    cfg = dict(t0=log[0]['now'], tmo=c['tmo'], flags=str(c['flags']), mouse=str(c['mouse']), cols=str(c['cols']), rows=str(c['rows']), conerr=bool(c['flags'] & 1), ownDesktop=bool(c['flags'] & 8),
               old=osv < (6, 1), xp=osv < (6, 0), show=m.get('show', False), canTell=m.get('canTell', True), random=m.get('random', True), hb=hb, lax=m.get('lax', False), extra=m.get('extra', 4))
    end = next((k for k, e in enumerate(log) if e['ev'] == 'ret' and e['api'] == 'open'), len(log))
    legs, procs, made, sta, seen = {}, {}, {}, {}, {}
    for e in log[:end]:
        if e['ev'] == 'createProcess' and e['by'] == client:
            a = cmdline(e['cmd'])
            if a:
                legs[a[0]] = 'desk' if '--create-desktop' in a[1:] else 'main'
            if not e['err']:
                procs[e['pid']] = legs.get(a[0], 'main') if a else 'main'
    # a pipe nobody was told about (the start never happened) belongs to the leg whose turn it was
    order = [e['pipe'] for e in log[:end] if e['ev'] == 'pipeCreate' and e['pid'] == client]
    for k, p in enumerate(order):
        legs.setdefault(p, 'desk' if k == 0 and cfg['old'] and not cfg['show'] and not cfg['ownDesktop'] else 'main')
    now = cfg['t0']
    ok = None
    waited = set()
    for k, e in enumerate(log):
        n = e['ev']
        now = max(now, e.get('now', now))
        add = lambda **x: ev.append(dict(x, now=now))
        if k > end and n == 'call':
            break
        if n == 'call' and k == 0:
            add(e='begin')
        elif n == 'pipeCreate':
            if e['pid'] == client or e['pid'] in procs:
                ctl = e['pid'] == client
                add(e='pipe', role='control' if ctl else 'data', leg=legs.get(e['pipe'], ''), name=e['pipe'], first=e['first'], remote=e['rejectRemote'], max=e['maxInst'], sd=e['sd'], inh=e['inheritable'], err=e['err'], diff=99)
        elif n == 'pipeOpen' and e['pipe'] in legs:
            add(e='dial', sqos=e['sqos'], level=e['level'])
            if not e['err']:
                add(e='conn', leg=legs[e['pipe']], pid=e['pid'])
        elif n == 'pipeConnect' and e['pipe'] in legs:
            add(e='conn', leg=legs[e['pipe']], pid=e['pid'])
        elif n == 'createProcess' and e['by'] == client:
            a = cmdline(e['cmd'])
            add(e='start', leg=legs.get(a[0] if a else '', 'main'), pipe=a[0] if a else '', args=(a + [''] * 5)[1:5] if len(a) == 5 else a[1:], newcon=e['newConsole'], detached=e['detached'], inherit=e['inherit'], desktop=e['desktop'] if e['hasDesktop'] else '', made=made.get(client, ''), err=e['err'], pid=e.get('pid', 0))
        elif n == 'setStation' and e['pid'] == client:
            add(e='station', s='orig' if e['name'] == 'WinSta0' else 'other')
        elif n == 'newDesktop':
            made[e['pid']] = e['station'] + '\\' + e['name']
        elif n == 'wire' and e['dir'] == 'rep' and e['pipe'] in legs:
            f = decode(e['hex'])
            a = dict(k='names', v=f) if f is not None and all(isinstance(x, str) for x in f) else dict(k='bad', v=[])
            add(e='ann', leg=legs[e['pipe']], a=a)
            pid = next((p for p in procs if procs[p] == legs[e['pipe']]), None)
            if legs[e['pipe']] == 'desk' and pid in made:
                ev[-1]['made'] = made[pid]
        elif n == 'wirePart' and e['dir'] == 'rep' and e['pipe'] in legs:
            if e['badSize']:
                add(e='ann', leg=legs[e['pipe']], a=dict(k='bad', v=[]))
            else:
                add(e='part')
        elif n == 'procExit' and e['pid'] in procs:
            add(e='die', pid=e['pid'])
        elif n == 'pipeClose' and not e['server'] and e['pipe'] in legs:
            add(e='leave', leg=legs[e['pipe']])
        elif n == 'fault':
            if k < end:
                add(e='fault', api=e['api'])
        elif n == 'closePending':
            add(e='pendclose')
        elif n == 'badClose' and e.get('pid') == client:
            add(e='badclose')
        elif n == 'ret' and e['api'] == 'open' and k == end:
            ok = e['ok']
            z = lambda s: '' if s == '<null>' else s
            add(e='ret', ok=e['ok'], code=CODES.get(e['code'], str(e['code'])), noerr=e['noErr'], poison=e['errPoison'], pend=e['pendingIo'], dbl=e['dbl'], handles=e['handles'], sta='orig' if e['station'] == 'WinSta0' else 'other',
                names=[z(e[x]) for x in ('conin', 'conout', 'conerr')] if e['ok'] else [], agent=int(e['agent'].split(':')[1]) if e['ok'] and ':' in e['agent'] else -1)
        elif n == 'libstat':
            add(e='stat', pend=e['pendingIo'], dbl=e['dbl'], failed=ok is False, handles=e['handles'], sta='orig' if e['station'] == 'WinSta0' else 'other', stations=sum(x in ('winsta', 'desktop') for x in e['kinds']))
        elif n == 'fatal':
            add(e='crash', why=e['why'])
        elif n == 'libStuck':
            add(e='crash', why='stuck')
    return dict(id=tid, cfg=cfg, ev=ev)


def post(traces):
    """Runs that differ in nothing but the system's random numbers are laid side by side: how much of a name do they share?"""
    fam = {}
    for t in traces:
        if '~' in t['id']:
            fam.setdefault(t['id'].split('~')[0] + '#' + t['id'].partition('#')[2], []).append([e for e in t['ev'] if e['e'] == 'pipe'])
    for sib in fam.values():
        for pipes in zip(*sib):
            names = [e['name'] for e in pipes]
            for a, e in enumerate(pipes):
                e['diff'] = min([99] + [sum(x != y for x, y in zip(e['name'], o)) + abs(len(o) - len(e['name'])) for b, o in enumerate(names) if b != a])


OSES = [('5 1 2600 0', (5, 1)), ('6 0 6000 0', (6, 0)), ('6 1 7601 0', (6, 1)), ('10 0 19041 1', (10, 0))]


def cfg(flags, size=None, mouse=None, tmo=None, name='C'):
    return [f'call 1 config {name} {flags}'] + ([f'call 1 size {name} {size}'] if size else []) + ([f'call 1 mouse {name} {mouse}'] if mouse is not None else []) + ([f'call 1 timeout {name} {tmo}'] if tmo is not None else [])


def script(osl, flags, extra=(), noerr='', size='40 12', mouse=2):
    """A whole life with the real agent, and another session afterwards."""
    return [f'os {osl}', *extra, 'agentmode real', *cfg(flags, size, mouse), 'waitlib 100', 'libstat', f'call 1 open W C{noerr}', 'waitlib 70000', 'libstat', 'adv 30', 'libstat',
            *cfg(flags ^ 1, '70 20', 1, name='D'), 'waitlib 100', 'libstat', 'call 1 open V D', 'waitlib 70000', 'libstat']


def scenarios(seed, tier):
    rng = random.Random(f'open{seed}')
    sc, meta = {}, {}

    def add(k, lines, **m):
        sc[k], meta[k] = lines, m
    for oi, (osl, osv) in enumerate(OSES):
        for flags in (0, 1, 8, 9, 2, 4, 6, 3, 15) if osv < (6, 1) else (0, 1, 8, 3, 6):
            add(f'real-{oi}-{flags}', script(osl, flags), os=osv)
        add(f'show-{oi}', script(osl, 0, ['env WINPTY_SHOW_CONSOLE 0031']), os=osv, show=True)
        add(f'nopid-{oi}', script(osl, 0, ['osopt pidApi 0']), os=osv, canTell=False)
        add(f'nocrypt-{oi}', script(osl, 0, ['osopt crypt 0']), os=osv)
        for s in range(3):
            add(f'rnd-{oi}~{s}', [f'seed {seed * 7919 + s * 104729 + 17}'] + script(osl, 0), os=osv)
            add(f'rnc-{oi}~{s}', [f'seed {seed * 7919 + s * 104729 + 17}'] + script(osl, 0, ['osopt crypt 0']), os=osv)
        for size in ('1 1', '80 25', '400 300', '2147483647 1'):
            for mouse in (0, 1, 2):
                add(f'prm-{oi}-{size.replace(" ", "x")}-{mouse}', script(osl, rng.choice([0, 1, 2, 4, 6, 8]), size=size, mouse=mouse), os=osv)
    # scripted agents: at each stage of each leg something goes wrong
    for oi, (osl, osv) in enumerate(OSES[1:]):
        oldhelper = osv < (6, 1)
        for flags in (0, 9) if oldhelper else (0, 1):
            for cm in (0, 1):
                for stage in range(6 if oldhelper and not flags & 8 else 3):
                    desk = stage >= 3
                    pre = [f'os {osl}', f'completion {cm}', f'cancel {stage % 3}', 'agentmode mock', *cfg(flags, tmo=500), 'waitlib 100', 'libstat', 'call 1 open W C', 'idle']
                    if oldhelper and not flags & 8 and not desk:
                        pre += ['mk connect', f'mk frame {deskname("X1$" + chr(92) + "D")}', 'idle']
                    st = stage % 3
                    if st >= 1:
                        pre += ['mk connect']
                    if st >= 2:
                        pre += ['mk send 40', 'idle']
                    tail = ['idle', 'libstat', 'adv 600', 'waitlib 2000', 'libstat', 'adv 100', 'libstat']
                    for tn, tr in (('die', ['mk die']), ('diek', ['mk die keep']), ('diep', ['mk die pipefirst']), ('close', ['mk close']), ('stall', []), ('early', ['adv 499', 'libstat']), ('t0', ['adv 501'])):
                        add(f'mk-{oi}-{flags}-{cm}-{stage}-{tn}', pre + tr + tail, os=osv, lax=cm == 1)
                    if st == 0:
                        for who in (9, 1):
                            add(f'mk-{oi}-{flags}-{cm}-{stage}-intruder{who}', pre + [f'mk connect {who}', 'idle', 'mk setup x', 'idle', 'libstat'] + tail, os=osv, lax=cm == 1)
                        add(f'mk-{oi}-{flags}-{cm}-{stage}-intrudernopid', [f'osopt pidApi 0'] + pre + ['mk connect 9', 'idle', f'mk setup x {flags & 1}' if not desk else f'mk frame {deskname("a")}', 'idle', 'libstat'] + tail, os=osv, lax=cm == 1, canTell=False)
                        add(f'mk-{oi}-{flags}-{cm}-{stage}-intruderfault', [f'fault GetNamedPipeClientProcessId -1 5'] + pre + ['mk connect', 'idle', f'mk setup x {flags & 1}' if not desk else f'mk frame {deskname("a")}', 'idle', 'libstat'] + tail, os=osv, lax=cm == 1)
                    if st == 1:
                        good = deskname('X1$\\D') if desk else names(3 if flags & 1 else 2)
                        for bn, b in (('empty', ''), ('int', '0001000000'), ('fewer', names(0 if desk else (2 if flags & 1 else 1))), ('more', good + deskname('z')), ('cut', good[:-2]), ('hugestr', '02ffffffffffffff7f'), ('tag', '07' + good), ('emptystr', deskname('') if desk else names(3 if flags & 1 else 2, True)), ('good', good)):
                            if bn == 'fewer' and desk:
                                continue
                            add(f'mk-{oi}-{flags}-{cm}-{stage}-{bn}', pre + [f'mk frame {b}', 'idle'] + (['mk connect', 'idle', f'mk frame {names(2 + (flags & 1))}', 'idle'] if desk else []) + tail, os=osv, lax=cm == 1)
                        for bn, b in (('size0', '00' * 8), ('size7', '07' + '00' * 7), ('huge', 'ff' * 8)):
                            add(f'mk-{oi}-{flags}-{cm}-{stage}-{bn}', pre + [f'mk send {b}', 'idle'] + tail, os=osv, lax=cm == 1)
                        # trickling: never more than the timeout without progress
                        fr = ((len(good) // 2 + 8).to_bytes(8, 'little').hex() + good)
                        step = max(2, len(fr) // 12 * 2)
                        add(f'mk-{oi}-{flags}-{cm}-{stage}-trickle', pre + [x for i in range(0, len(fr), step) for x in (f'mk send {fr[i:i + step]}', 'adv 400')] + (['mk connect', 'idle', f'mk frame {names(2 + (flags & 1))}', 'idle'] if desk else []) + tail, os=osv, lax=cm == 1)
    return sc, meta


def faults(seed, tier, prop):
    """Every OS call of an opening (and of the calls before it) fails once."""
    from . import harness
    sc, meta = {}, {}
    plans = [(0, 0), (0, 8), (2, 1), (3, 0)] if tier != 'thorough' else [(o, f) for o in range(4) for f in (0, 1, 8)]
    base = {f'{o}-{f}': ['apilog'] + script(OSES[o][0], f)[:-6] + ['apidump'] for o, f in plans}
    logs, _ = harness.run(base)
    for o, f in plans:
        calls = next(e['calls'] for e in logs[f'{o}-{f}'] if e['ev'] == 'apidump')
        # the last switch of the window station is the one that restores it: it cannot fail
        last = max([c for c in calls if c.startswith('SetProcessWindowStation#')], key=lambda c: int(c.split('#')[1]), default='')
        for c in calls:
            api, nth = c.split('#')
            if api in NOFAULT or c == last:
                continue
            for err in (5, 1450) if tier == 'thorough' else (5,):
                k = f'flt-{o}-{f}-{api}-{nth}' + ('' if err == 5 else f'-{err}')
                sc[k], meta[k] = script(OSES[o][0], f, [f'fault {api} {nth} {err}']), dict(os=OSES[o][1])
        for n in (1, 2):
            k = f'cp-{o}-{f}-{n}'
            sc[k], meta[k] = script(OSES[o][0], f, [f'fault CreateProcessW {n} {[2, 740][n - 1]}']), dict(os=OSES[o][1])
        k = f'noexe-{o}-{f}'
        sc[k], meta[k] = script(OSES[o][0], f, ['fault GetFileAttributesW -1 2']), dict(os=OSES[o][1])
    return sc, meta


def deskname(s):
    d = s.encode('utf-16-le')
    return '02' + (len(d) // 2).to_bytes(8, 'little').hex() + d.hex()


def names(n, empty=False):
    return ''.join(deskname('' if empty else x) for x in ('\\\\.\\pipe\\in', '\\\\.\\pipe\\out-é', '\\\\.\\pipe\\err')[:n])
