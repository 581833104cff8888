"""Scenarios for an open session and the mapping of their logs to Session's events."""
import random
from .harness import hexw, decode

CODES = {0: 'success', 1: 'oom', 2: 'cpfailed', 3: 'lost', 4: 'exemissing', 5: 'unspecified', 6: 'died', 7: 'timeout', 8: 'creation', -1: 'none'}


def h(s):
    return s.encode('utf-16-be', 'surrogatepass').hex()


def arg_hex(a):          # scenario argument -> hex of the string it stands for
    return '' if a in ('null', '-') else a


def env_hex(a):
    # the block given plus the terminator of the C string that held it
    return '' if a == 'null' else '0000' * 2 if a == '-' else a + '0000'


def to_trace(tid, log, tmo, lax=False, real=False):
    """The part of a log after a successful open, as events of SessionTrace (None if there was no session)."""
    ev, specs, client, agent = [], {}, None, None
    i0 = None
    hb = 0
    for k, e in enumerate(log):
        if e['ev'] == 'call' and e['api'] == 'open':
            hb = log[k - 1].get('handles', 0) if k else 0
        if e['ev'] == 'ret' and e['api'] == 'open':
            if not e['ok']:
                return None
            i0, t0, agent = k, e['now'], int(e['agent'].split(':')[1]) if ':' in e['agent'] else -1
            break
    if i0 is None:
        return None
    for e in log[:i0]:
        if e['ev'] == 'call' and e['api'] == 'spawnconfig':
            specs[e['args'][0]] = e['args']
        if e['ev'] == 'createProcess' and not e['err'] and e['pid'] == agent:
            client, desk = e['by'], 'WinSta0\\Default' if e['hasDesktop'] else ''
    ctl = [e['pipe'] for e in log[:i0] if e['ev'] == 'pipeCreate' and e['pid'] == client][-1:]
    now = t0
    dead = False
    own_end = False
    att = next((e['pids'] for e in reversed(log[:i0]) if e['ev'] == 'conProcs' and agent in e['pids']), [])
    own = 1
    for e in log[i0 + 1:]:
        now = max(now, e.get('now', now))
        n, add = e['ev'], lambda **k: ev.append(dict(k, now=now))
        if n == 'call':
            a = [x for x in e['args'] if not x.startswith('/')]
            if e['api'] == 'spawnconfig':
                specs[a[0]] = a
            elif e['api'] == 'setsize':
                add(e='begin', i=e['id'], op=dict(k='size', a=[int(a[1]), int(a[2])]))
            elif e['api'] == 'plist':
                add(e='begin', i=e['id'], op=dict(k='plist', a=[int(a[1])]))
            elif e['api'] == 'spawn':
                s = specs[a[1]]
                opt = e['opt']
                add(e='begin', i=e['id'], op=dict(k='spawn', s=[s[1], arg_hex(s[2]), arg_hex(s[3]), arg_hex(s[4]), env_hex(s[5])],
                                                 w=['/p' in opt, '/t' in opt, '/e' in opt]))
        elif n == 'wire':
            f = decode(e['hex'])
            if e['dir'] == 'req':
                if f and f[0] == 1 and len(f) == 3 and all(type(x) is int for x in f):
                    add(e='req', k='size', a=f[1:])
                elif f and f == [2]:
                    add(e='req', k='plist')
                elif f and f[0] == 0 and len(f) == 9:
                    add(e='req', k='spawn', s=[str(f[1][1])] + [h(x) for x in f[4:8]], desk=f[8], w=[f[2] != 0, f[3] != 0])
                else:
                    add(e='req', k='unknown', hex=e['hex'])
            else:
                if f == []:
                    r = dict(k='empty')
                elif f and f[0] == 1 and len(f) == 3 and isinstance(f[1], tuple) and isinstance(f[2], tuple):
                    r = dict(k='created', p=f[1][1] != 0, t=f[2][1] != 0)
                elif f and all(type(x) is int for x in f):
                    # the same bytes mean different things for different requests: decided by what is outstanding
                    q = next((x['k'] for x in reversed(ev) if x['e'] == 'req'), '')
                    r = dict(k='cpfailed', v=f[1]) if q == 'spawn' and len(f) == 2 and f[0] == 0 else dict(k='ints', v=f) if q == 'plist' else dict(k='bad')
                else:
                    r = dict(k='bad')
                add(e='rep', r=r)
        elif n == 'wirePart':
            if e['dir'] == 'rep' and e['badSize']:
                add(e='rep', r=dict(k='bad'))
            else:
                add(e='part', dir=e['dir'])
        elif n == 'mkSpawned':
            add(e='child', h=dict(proc=f"process:{e['pid']}", thread=f"thread:{e['pid']}"))
        elif n == 'createProcess' and e['by'] == agent:
            # what the agent really asked the system for
            f = lambda k: h(e[k]) if e['has' + k.capitalize()] else ''
            add(e='child', pr=dict(s=[f('app'), f('cmd'), f('cwd'), (h(e['env']) + '0000' if e['env'] else '00000000') if e['hasEnv'] else ''], given=[e['has' + k] for k in ('App', 'Cmd', 'Cwd', 'Env')],
                                   newcon=e['newConsole'], detached=e['detached'], uni=e['unicodeEnv'], desktop=e['desktop'] if e['hasDesktop'] else ''))
            if not e['err']:
                ev[-1]['h'] = dict(proc=f"process:{e['pid']}", thread=f"thread:{e['pid']}")
        elif n == 'procExit' and e['pid'] == agent:
            dead = True
            add(e='die', self=own_end)
        elif n == 'exitCall' and e['pid'] == agent:
            own_end = True
        elif n == 'conProcs' and real and agent in e['pids']:
            add(e='procs', v=sorted(e['pids']))
        elif n == 'pipeClose' and e['pipe'] in ctl and not e['server']:
            add(e='close')
        elif n == 'fault' or n == 'dup' and e['by'] == client and (e['err'] or not e['valid']):
            add(e='fault')
        elif n == 'ret' and e['api'] in ('setsize', 'plist', 'spawn'):
            o = dict(e='ret', i=e['id'], ok=e['ok'], code=CODES.get(e['code'], 'other'), noerr=e['noErr'], poison=e['errPoison'] and not e['noErr'], pend=e['pendingIo'], dbl=e['dbl'])
            if e['api'] == 'plist':
                o.update(count=e['count'], overrun=e['overrun'], touched=e['touched'], list=e['list'])
            if e['api'] == 'spawn':
                kp = '/keep' in next(c['opt'] for c in log if c['ev'] == 'call' and c['id'] == e['id'])
                o.update(proc=e['proc'], thread=e['thread'], cperr=e['cpErr'], kept=sum(':' in x for x in (e['proc'], e['thread'])) if kp else 0)
            else:
                o['kept'] = 0
            add(**o)
        elif n == 'ret' and e['api'] == 'free':
            add(e='freed', pend=e['pendingIo'], dbl=e['dbl'], handles=e['handles'])
        elif n == 'libstat':
            add(e='stat', pend=e['pendingIo'], dbl=e['dbl'], handles=e['handles'], agentProcs=e['agentProcs'], down='?' if not e['mock'] else 'yes' if e['ctlBroken'] else 'no')
        elif n == 'libStuck' or n == 'end':
            add(e='clock')
        elif n == 'fatal':
            add(e='crash', why=e['why'])
        elif n == 'closePending':
            add(e='pendclose')
        elif n == 'badClose' and e.get('pid') == client:
            add(e='badclose')
    return dict(id=tid, cfg=dict(tmo=tmo, t0=t0, hb=hb, own=own, lax=lax, desk=desk, att=sorted(att) if real else []), ev=ev)


STR = [hexw(s) for s in ('cmd', 'C:\\a b\\c.exe', '"x y" \\"z\\" \u00e9\u4e2d\U0001f600', '\ud800odd', 'a' * 40)]
ENVS = ['null', '-', hexw('A=1\0'), hexw('A=1\0=C:=C:\\x\0\u00fc=\u4e2d\0'), hexw('X=' + 'y' * 50 + '\0')]


def opening(rng, tmo, setup=True):
    L = [f'completion {rng.choice([0, 1])}', f'cancel {rng.choice([0, 0, 1, 2])}']
    if rng.random() < .4:
        L.append(f'chunk {rng.choice([1, 3, 7])}')
    L += ['agentmode mock', 'call 1 config C 0', f'call 1 timeout C {tmo}' if tmo >= 0 else 'call 1 timeout C 4294967295', 'call 1 open W C', 'idle', 'mk connect', 'mk setup x', 'idle']
    return L


def spawnconfig(rng, name):
    s = lambda: rng.choice(['null', '-'] + STR)
    return f'call 1 spawnconfig {name} {rng.choice([0, 1, 3])} {s()} {s()} {s()} {rng.choice(ENVS)}'


def a_call(rng, t, base):
    k = rng.choice(['setsize', 'plist', 'spawn'])
    ne = ' /noerr' if rng.random() < .15 else ''
    if k == 'setsize':
        return f'call {t} setsize W {base % 500 + 1} {rng.choice([1, 25, 120, 9000])}{ne}'
    if k == 'plist':
        return f'call {t} plist W {rng.choice([1, 2, 3, 4, 10])}{ne}'
    o = rng.choice(['/p /t /e', '/p', '/t', '/e', '/p /t', '/p /t /e'])
    return f'call {t} spawn W S{rng.randrange(3)} {o}{ne}' + (' /keep' if rng.random() < .3 else '')


def random_mock(rng, idx):
    """Some calls from one to three threads against an agent that may answer, lie, stall, close or die at any point."""
    tmo = rng.choice([-1, 30000, 100, 1])
    nt = rng.choice([1, 1, 2, 3])
    L = [f'seed {rng.randrange(1 << 30)}'] + opening(rng, tmo)
    for i in range(3):
        L.append(spawnconfig(rng, f'S{i}'))
    L += ['waitlib 1000', 'libstat']
    if nt > 1:
        L.append(f'preempt {rng.choice([0, 1, 2, 3])}')
    trouble = rng.choice(['none', 'bad', 'die', 'close', 'stall', 'fault', 'die', 'bad', 'stall'])
    at = rng.randrange(6)
    base = rng.randrange(1000)
    pend = 0
    for step in range(rng.randrange(4, 11)):
        for _ in range(rng.choice([1, 1, 2, 3])):
            base += 1
            L.append(a_call(rng, rng.randrange(nt) + 1, base)); pend += 1
        if rng.random() < .3:
            L.append('idle')
        if step == at and trouble != 'none':
            if trouble == 'bad':
                L.append('idle')
                L.append(f"mk answer {rng.choice(['wrong', 'short', 'extra', 'size0', 'size7', 'huge', 'hugestr', 'bogus'])}")
            elif trouble == 'die':
                L += ['idle'] * rng.randrange(2)
                if rng.random() < .5:
                    L += ['mk answer good hold', f'mk push {rng.choice([1, 5, 8, 9, 12, 100])}']
                    if rng.random() < .5:
                        L.append('idle')
                L.append(f"mk die {rng.choice(['', 'pipefirst', 'keep'])}")
            elif trouble == 'close':
                L += ['idle'] * rng.randrange(2)
                if rng.random() < .5:
                    L += ['mk answer good hold', f'mk push {rng.choice([1, 5, 8, 9, 12, 100])}']
                L.append('mk close')
            elif trouble == 'stall':
                L += ['idle', 'mk answer good hold', f'mk push {rng.choice([0, 0, 1, 8, 12])}', f'adv {rng.choice([1, 2, 99, 100, 101, 29999, 30001])}', 'libstat', 'mk push', 'idle']
            elif trouble == 'fault':
                a = rng.choice(['WriteFile', 'ReadFile', 'GetOverlappedResult', 'DuplicateHandle', 'WaitForMultipleObjects'])
                L.append(f'fault {a} {rng.randrange(1, 4)} {rng.choice([5, 6, 87])}')
        for _ in range(rng.choice([1, 2, 3])):
            L.append('idle')
            v = rng.choice(['good', 'good', 'good', 'cpfail'])
            if rng.random() < .3:
                L += [f'mk answer {v} hold {rng.choice([1, 2, 3, 4, 8, 11])}']
                for _ in range(rng.randrange(4)):
                    L += [f'mk push {rng.randrange(1, 9)}', 'idle'] + (['adv 1'] if rng.random() < .3 else [])
                L.append('mk push')
            else:
                L.append(f'mk answer {v} now {rng.choice([1, 2, 3, 4, 8, 11])}')
        if rng.random() < .3:
            L += ['idle', 'libstat']
    for _ in range(12):
        L += ['idle', 'mk answer good now 2']
    L += ['idle', 'libstat', f'adv {rng.choice([10, 200, 31000])}', 'libstat']
    if tmo >= 0:                     # everything must have come to an end now
        L += ['waitlib 500000']
    elif rng.random() < .7:
        L += ['mk die', 'waitlib 10', 'libstat']
    else:
        return L, tmo
    L += ['call 1 free W', 'waitlib 10', 'libstat', 'adv 1000', 'libstat']
    return L, tmo


def directed():
    """Fixed cases: every kind of call meets every kind of trouble, at every byte of the reply."""
    out = {}
    calls = {'size': 'setsize W 7 8', 'plist': 'plist W 4', 'spawn': 'spawn W S /p /t /e', 'spawnN': 'spawn W S'}
    head = lambda tmo, c=0, k=0: [f'completion {c}', f'cancel {k}', 'agentmode mock', 'call 1 config C 0', f'call 1 timeout C {tmo}', 'call 1 open W C', 'idle', 'mk connect', 'mk setup x', 'idle',
                            f'call 1 spawnconfig S 1 null {STR[2]} {STR[1]} {ENVS[3]}', 'waitlib 100', 'libstat']
    tail = ['libstat', 'call 1 setsize W 3 3', 'idle', 'mk answer good', 'idle', 'libstat', 'call 1 plist W 4 ', 'idle', 'mk answer good', 'waitlib 1000', 'libstat', 'call 1 free W', 'waitlib 100', 'libstat']
    n = 0
    for cn, call in calls.items():
        for tr in ('good', 'cpfail', 'wrong', 'short', 'extra', 'size0', 'size7', 'huge', 'hugestr', 'bogus'):
            for cm in (0, 1):
                out[f'd-{cn}-{tr}-{cm}'] = (head(500, cm) + [f'call 1 {call}', 'idle', f'mk answer {tr}', 'idle'] + tail, 500)
        for tr in ('mk die', 'mk die pipefirst', 'mk die keep', 'mk close', 'adv 499', 'adv 501'):
            for cut in (-1, 0, 1, 7, 8, 9, 12, 20, 40):
                for cm in (0, 1, 2):
                    pre = [] if cut < 0 else ['idle', 'mk answer good hold'] + ([f'mk push {cut}'] if cut else []) + ['idle']
                    out[f"d-{cn}-{tr.replace(' ', '')}-{cut}-{cm}"] = (head(500, 0, cm) + [f'call 1 {call}'] + pre + [tr, 'idle', 'libstat', 'mk push', 'idle'] + tail, 500)
        # a second thread is already queued behind the call that fails
        for tr in ('mk die', 'mk close', 'adv 501', 'mk answer wrong'):
            for second in ('setsize W 2 2', 'spawn W S /p /e', 'plist W 9'):
                out[f"d2-{cn}-{tr.replace(' ', '')}-{second.split()[0]}"] = (head(500) + [f'call 1 {call}', 'idle', f'call 2 {second}', 'idle', tr, 'idle', 'mk answer good', 'mk answer good', 'idle'] + tail, 500)
        for api in ('WriteFile', 'ReadFile', 'GetOverlappedResult', 'DuplicateHandle', 'WaitForMultipleObjects'):
            for nth in (1, 2, 3, 4):
                out[f'd-{cn}-f{api}{nth}'] = (head(500, 1) + [f'fault {api} {nth} 5', f'call 1 {call}', 'idle', 'mk answer good', 'idle', 'adv 600'] + tail, 500)
    for cap in (1, 2, 3, 4, 5):
        for cnt in (1, 2, 3, 4, 5, 40):
            out[f'd-plist-{cap}-{cnt}'] = (head(500) + [f'call 1 plist W {cap}', 'idle', f'mk answer good now {cnt}', 'idle'] + tail, 500)
    for k, s in enumerate(STR + ['null', '-']):
        for j, e in enumerate(ENVS):
            out[f'd-str-{k}-{j}'] = (head(500) + [f'call 1 spawnconfig S2 {j % 4} {s} {STR[k % 5]} {STR[(k + 1) % 5] if j else "null"} {e}', 'call 1 spawn W S2 /p', 'idle', 'mk answer good', 'idle'] + tail, 500)
    return out


def real(rng, idx):
    """The real agent behind the real library."""
    L = [f'seed {rng.randrange(1 << 30)}', f'os {rng.choice(["5 1 2600 0", "6 0 6002 0", "6 1 7601 0", "6 2 9200 0", "10 0 14393 1", "10 0 19041 1"])}', 'agentmode real', f'call 1 config C {rng.choice([0, 1, 2, 8, 9])}', f'call 1 size C {rng.choice(["80 25", "20 6", "100 30"])}', 'call 1 open W C', 'waitlib 5000', 'libstat',
         'conn conin', 'conn conout']
    for i in range(3):
        L.append(f'call 1 spawnconfig S{i} {1 if i == 0 else 0} {rng.choice(["null", "-"] + STR)} {rng.choice(STR)} {rng.choice(["null", "-"] + STR)} {rng.choice(ENVS)}')
    L += ['waitlib 1000']
    if rng.random() < .5:
        L.append(f'preempt {rng.choice([0, 1, 2])}')
    spawned0 = False
    for step in range(rng.randrange(3, 9)):
        for _ in range(rng.choice([1, 2])):
            c = a_call(rng, rng.randrange(2) + 1, rng.randrange(100))
            if ' S0 ' in c:
                if spawned0:
                    continue
                spawned0 = True
                c = c.replace('call 2', 'call 1')
            if rng.random() < .15 and 'spawn' in c:
                L.append(f'childfail {rng.choice([2, 3, 5, 740])}')
            L.append(c)
        L.append(rng.choice(['idle', 'waitlib 2000', 'adv 1', 'idle']))
        if rng.random() < .2:
            L.append(f'app attach {rng.randrange(1, 5)}')
        if rng.random() < .1:
            L.append(rng.choice(['killagent 1', 'childexit 3']))
        L.append('drain conout')
    L += ['waitlib 40000', 'libstat', 'call 1 free W', 'waitlib 100', 'adv 2000', 'libstat']
    return L, 30000


def crowd(rng, n0, n1, at, cap, det):
    """The real agent lists many processes while more of them come and go."""
    L = [f'seed {rng.randrange(1 << 30)}', 'os 10 0 14393 1', 'agentmode real', 'call 1 config C 0', 'call 1 size C 20 6', 'call 1 open W C', 'waitlib 5000', 'libstat', 'conn conin', 'conn conout', f'app attach {n0}',
         f'onapi GetConsoleProcessList {at} attach {n1}', f'onapi GetConsoleProcessList {at + 1} attach {n1 * 2}', f'onapi GetConsoleProcessList {at + 2} detach {det}',
         f'call 1 plist W {cap}', 'waitlib 40000', f'call 1 plist W {cap * 3 + 2}', 'waitlib 40000', 'call 1 setsize W 30 7', 'waitlib 40000', 'libstat', 'call 1 free W', 'waitlib 100', 'adv 2000', 'libstat']
    return L, 30000


def scenarios(seed, n_mock, n_real, with_directed=True):
    rng = random.Random(f'session{seed}')
    sc = dict(directed()) if with_directed else {}
    for i in range(n_mock):
        sc[f'm{i}'] = random_mock(rng, i)
    for i in range(n_real):
        sc[f'r{i}'] = real(rng, i)
    for n0 in (1, 60, 62, 63, 64, 70, 126, 127, 200):
        for n1, at, det in ((0, 1, 0), (1, 1, 0), (1, 2, 0), (80, 2, 0), (80, 1, 60), (60, 2, 100)):
            sc[f'c{n0}-{n1}-{at}-{det}'] = crowd(rng, n0, n1, at, rng.choice([1, n0, n0 + 1, n0 + 2, 400]), det)
    return {k: v[0] for k, v in sc.items()}, {k: dict(tmo=v[1], lax='completion 1' in v[0], real='agentmode real' in v[0]) for k, v in sc.items()}
