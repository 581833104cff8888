"""Sessions seen through their pipes: scenarios for the real agent and mapping to LifeTrace events."""
import random
from . import term
from .harness import frame, hexw, i32, i64, wstr

PROG = hexw('a.exe')


def to_trace(k, log, err=False, w=80, h=25, stream=False, plain=False, **_):
    ev, tok, names = [], term.Tok(), {}
    outs = dict(conout=bytearray(), conerr=bytearray())
    text, att, started, gone, left, judged = bytearray(), [], False, False, set(), False
    for e in log:
        t = e['ev']
        if t == 'setup':
            names = {e[n]: n for n in ('conin', 'conout', 'conerr') if e[n]}
            started = True
        elif t == 'conProcs':
            if started:
                ev.append(dict(e='att', v=e['pids']))
            else:
                att = e['pids']
        elif t == 'fatal' and e['why'] == 'signal 6':
            ev.append(dict(e='abort'))          # the process does away with itself
            judged = True
        elif not started:
            if t in ('fatal', 'assert', 'noSetup'):
                ev.append(dict(e='dead'))
        elif t == 'wire':
            ev.append(dict(e='req' if e['dir'] == 'req' else 'rep', b=list(bytes.fromhex(e['hex']))))
        elif t == 'wirePart':
            if e['dir'] == 'req' and e['badSize']:
                if not ev or ev[-1]['e'] != 'badframe':
                    ev.append(dict(e='badframe'))
            elif e['badSize']:
                ev.append(dict(e='dead'))
        elif t == 'createProcess':
            ev.append(dict(e='run', ok=e['err'] == 0, err=e['err']))
        elif t == 'procExit':
            ev.append(dict(e='died' if e['pid'] == 104 else 'exit'))
        elif t == 'pipeConnect' and e['pipe'] in names:
            ev.append(dict(e='conn', p=names[e['pipe']]))
        elif t == 'pipeClose':
            n = names.get(e['pipe'])
            if n:
                ev.append(dict(e='shut' if e['server'] else 'left', p=n))
                if not e['server']:
                    left.add(n)
            elif e['server'] and not gone:      # the driver holds the server end of the control pipe
                gone = True
                ev.append(dict(e='gone'))
        elif t == 'postMessage':
            ev.append(dict(e='end' if e['msg'] == 16 and e['known'] else 'dead'))
        elif t == 'in':
            ev.append(dict(e='in', b=list(bytes.fromhex(e['hex']))))
        elif t == 'key':
            if e['down'] and e['ch']:
                if ev[-1]['e'] != 'chars':
                    ev.append(dict(e='chars', v=[]))
                ev[-1]['v'].append(e['ch'])
        elif t == 'out':
            b = bytes.fromhex(e['hex'])
            if e['pipe'] == 'conout':
                ks = [x[1] for x in tok.feed(b) if x[0] == 'o']
                if ks:
                    ev.append(dict(e='modes', k=ks))
            if (b or e['eof']) and e['pipe'] not in left:
                outs[e['pipe']] += b
                ev.append(dict(e='out', p=e['pipe'], b=list(b), eof=e['eof']))
        elif t == 'op' and e['op'] == 'write' and plain:
            text += bytes(c for c in bytes.fromhex(e['a'][0])[1::2] if c > 32)
        elif t == 'snap':
            b = [b for b in e['bufs'] if b['label'] == 'primary'][0]
            ev.append(dict(e='win', c=b['r'] - b['l'] + 1, r=b['b'] - b['t'] + 1))
        elif t == 'note' and e['text'].startswith('settle'):
            w_ = e['text'].split(':')
            ev.append(dict(e='settle', rd=[x for x in w_[1].split(',') if x], full='full' in w_[2:]))
        elif t == 'inShort' and any(x['e'] in ('died', 'end') or x.get('p') == 'conin' and x['e'] in ('left', 'shut') for x in ev):
            pass
        elif t in ('closePending', 'badClose', 'badWait', 'inShort', 'fatal', 'noSetup', 'csDeletedHeld'):
            ev.append(dict(e='dead'))           # nothing in the specification allows this
    return dict(id=k, cfg=dict(err=err, c=w, r=h, stream=stream, plain=plain, ref=dict(conout=[], conerr=[]), text=list(text), att=att), ev=ev, outs=outs, judged=judged)


def post(traces):
    """The reference of a group is what its attentive reader (id ending in -r) got."""
    ref = {t['id'][:-2]: t['outs'] for t in traces if t['id'].endswith('-r') and 'outs' in t}
    for t in traces:
        o = ref.get(t['id'][:-2])
        if t['cfg'].get('stream') and o:
            t['cfg']['ref'] = {n: list(b) for n, b in o.items()}
        t.pop('outs', None)
        t.pop('judged', None)


def group(k):
    return k[:-2]


# ---------------------------------------------------------------- pieces of scenarios
def begin(rng, flags=0, mouse=1, w=80, h=25, conn=('conin', 'conout', 'conerr'), extra=()):
    return [rng.choice(term.OSES), *extra, f'agent {flags} {mouse} {w} {h}'] + [f'conn {p}' for p in conn if p != 'conerr' or flags & 1]


def fault_modes(rng):
    return [f'completion {rng.choice([0, 0, 1])}', f'cancel {rng.choice([0, 0, 1])}'] + ([f'chunk {rng.choice([1, 2, 7, 100])}'] if rng.random() < .4 else [])


def settle(pipes='', full=False):
    return f'note settle:{pipes}' + (':full' if full else '')


def spawnreq(flags=0, wp=0, wt=0, prog='a.exe', cmd='a b', cwd='', env='', desk=''):
    return i32(0) + i64(flags) + i32(wp) + i32(wt) + wstr(prog) + wstr(cmd) + wstr(cwd) + wstr(env) + wstr(desk)


def sizereq(c, r):
    return i32(1) + i32(c) + i32(r)


LISTREQ = i32(2)
SCRAPING = ['ReadConsoleOutputW', 'GetConsoleScreenBufferInfo', 'GetConsoleTitleW', 'WriteConsoleInputW', 'WaitForSingleObject', 'GetConsoleCursorInfo', 'SendMessageW', 'WriteFile', 'ReadFile', 'GetConsoleMode', 'CreateFileW', 'GetOverlappedResult']


def readall(pipe):
    return [f'drain {pipe}'] if pipe != 'ctl' else ['rdctl', 'idle'] * 12


def requests(rng, n, spawned=False):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .4:
            out.append(('r', sizereq(rng.randint(10, 120), rng.randint(5, 50))))
        elif k < .8 or spawned:
            out.append(('r', LISTREQ))
        elif k < .9:
            ok = rng.random() < .6
            big = rng.random() < .15
            out.append(('f', rng.choice([2, 3, 5, 87, 193, 740]) if not ok else 0))
            out.append(('r', spawnreq(0, rng.randint(0, 1), rng.randint(0, 1), env='A=' + 'x' * (rng.choice([40000, 33000, 70000]) if big else 5) + '\0')))
            spawned = ok
        else:
            out.append(('r', bytes([0]) + rng.choice([3, 7, -1, 1 << 30]).to_bytes(4, 'little', signed=True) + rng.choice([b'', i32(5), b'\7'])))
    return out


def malformed(rng):
    k = rng.randrange(9)
    good = rng.choice([sizereq(33, 11), LISTREQ, spawnreq()])
    if k == 0:
        return rng.choice([0, 1, 7]).to_bytes(8, 'little')
    if k == 1:
        return frame(good + rng.choice([i32(0), b'\0', i64(1)]))
    if k == 2:
        g = rng.choice([sizereq(33, 11), spawnreq()])
        return frame(g[:rng.randrange(5, len(g))])
    if k == 3:
        return frame(sizereq(*rng.choice([(0, 5), (5, 0), (-1, 10), (10, -1)])))
    if k == 4:
        return frame(b'')
    if k == 5:
        return frame(rng.choice([b'\1', b'\2', b'\7']) + good[1:])
    if k == 6:
        s = spawnreq(prog='abcd')
        i = s.index(b'\2') + 1
        return frame(s[:i] + (rng.choice([100000, 1 << 20, 1 << 40, 1 << 62, (1 << 64) - 1])).to_bytes(8, 'little') + s[i + 8:])
    if k == 7:
        return frame(i32(1) + rng.choice([i64(30) + i32(10), i32(30) + wstr('x'), wstr('') + i32(10)]))
    return frame(i32(0) + i32(1) + spawnreq()[14:])


# ---------------------------------------------------------------- families
def f_control(rng):
    """C01."""
    err = rng.random() < .3
    w, h = rng.randint(20, 120), rng.randint(5, 50)
    conn = rng.choice([(), ('conin', 'conout', 'conerr'), ('conout',)])
    lines = fault_modes(rng) + begin(rng, int(err), rng.choice([0, 1, 2]), w, h, conn) + ['adv 60']
    eager = rng.random()
    spawned = False
    for _ in range(rng.randint(1, 5)):
        rq = requests(rng, rng.choice([1, 2, 4, 10, 40]), spawned)
        spawned = spawned or any(a == 'r' and b[:5] == i32(0) for a, b in rq)
        b = b''
        for a, x in rq:
            if a == 'f':
                lines += [f'childfail {x}']
            else:
                b += frame(x)
        if rng.random() < .4:
            lines += [f'app {rng.choice(["attach", "attach", "detach"])} {rng.choice([1, 2, 70, 130])}']
        style = rng.random()
        while b:
            n = len(b) if style < .25 else rng.choice([1, 2, 7, 8, 9, 13, 21, 22, 40, 300, 9000])
            lines.append('ctl ' + b[:n].hex())
            b = b[n:]
            if rng.random() < .6:
                lines.append('idle')
            if rng.random() < .1:
                lines.append(f'adv {rng.choice([1, 24, 25, 60])}')
            if rng.random() < eager * .5:
                lines += ['rdctl' + rng.choice(['', ' 1', ' 8', ' 100'])]
            if rng.random() < .1:
                lines += ['app write ' + hexw('hello\r\n' * rng.randint(1, 300))]
            if rng.random() < .05:
                lines += [f'app {rng.choice(["attach", "detach"])} {rng.choice([1, 2, 70])}']
        if rng.random() < .5:
            lines += [f'adv {rng.choice([1, 30, 100])}'] + readall('ctl') + [settle('ctl'), 'stat']
    if rng.random() < .25:
        m = malformed(rng)
        lines += ['adv 60'] + readall('ctl') + [settle('ctl'), 'stat'] + ['ctl ' + m.hex()] + (['idle'] if rng.random() < .5 else [])
        lines += ['ctl ' + frame(rng.choice([LISTREQ, sizereq(44, 22)])).hex() for _ in range(rng.randint(0, 3))]
        lines += ['adv 60'] + ['rdctl', 'adv 1'] * 3 + ['stat']
    else:
        lines += ['adv 60'] + readall('ctl') + [settle('ctl'), 'stat']
    return {'a': (lines, dict(err=err, w=w, h=h))}


def f_gone(rng):
    """C02."""
    err = rng.random() < .4
    w, h = rng.randint(20, 120), rng.randint(5, 50)
    pipes = ['conin', 'conout'] + (['conerr'] if err else [])
    conn = [p for p in pipes if rng.random() < .75]
    lines = fault_modes(rng)
    if rng.random() < .3:
        lines += [f'osopt closeDelay {rng.choice([0, 5, 500, 20000])}']
    if rng.random() < .15:
        lines += ['osopt closeHangs 1']
        hangs = True
    else:
        hangs = False
    lines += begin(rng, int(err), rng.choice([0, 1, 2]), w, h, conn) + [f'adv {rng.choice([0, 1, 60])}']
    flags = rng.choice([None, 0, 1, 1, 2, 3])
    if flags is not None:
        lines += ['ctl ' + frame(spawnreq(flags, 1, 1)).hex(), f'adv {rng.choice([0, 60])}']
    for _ in range(rng.randint(0, 5)):
        k = rng.random()
        if k < .3:
            lines += ['app write ' + hexw(f'{rng.randrange(10**6)} text ' * rng.choice([1, 5, 600, 2000]) + '\r\n')]
        elif k < .4 and 'conin' in conn:
            lines += ['in ' + bytes(rng.choice(b'abcxyz') for _ in range(rng.choice([1, 5, 500]))).hex()]
        elif k < .5:
            p = rng.choice(pipes)
            lines += [f'close {p}']
        elif k < .6:
            lines += [f'rd conout {rng.choice([1, 10, 5000])}'] if 'conout' in conn else []
        elif k < .8:
            lines += ['ctl ' + frame(rng.choice([LISTREQ, sizereq(30, 20)])).hex() for _ in range(rng.choice([1, 3, 50]))]
        elif k < .9:
            lines += [f'app attach {rng.randint(1, 4)}']
        elif flags is not None:
            lines += ['app exit 7']
        lines += [rng.choice(['idle', 'adv 1', 'adv 24', 'adv 30', 'adv 100'])]
    how = rng.random()
    if how < .3:
        rq = frame(rng.choice([LISTREQ, sizereq(30, 20), spawnreq(0)]))
        lines += ['ctl ' + rq[:rng.randint(1, len(rq))].hex()] + rng.choice([[], ['idle'], ['adv 30']]) + ['close control']
    elif how < .6:
        api = rng.choice(SCRAPING)
        lines += ['app write ' + hexw('more\r\n'), f'onapi {api} {rng.choice([1, 1, 2, 3, 5, 10])} !close control', 'adv 100', 'close control']
    elif how < .7 and flags is not None:
        lines += ['app exit 1', rng.choice(['idle', 'adv 10', 'adv 25', 'adv 60']), 'close control']
    else:
        lines += ['close control']
    lines += [rng.choice(['idle', 'adv 30'])]
    for _ in range(rng.randint(0, 3)):
        lines += [rng.choice([f'conn {rng.choice(pipes)}', 'in 6162', 'rd conout', 'app write ' + hexw('late'), 'app exit 2', f'close {rng.choice(pipes)}'])]
    lines += ['adv 30', settle(), 'adv 32000' if not hangs else 'adv 60000']
    lines += [settle('', not hangs), 'stat']
    return {'a': (lines, dict(err=err, w=w, h=h))}


def content(rng, w, h, err, plain, n=None):
    """Operations with pauses; what is written is distinguishable."""
    ops, sent = [], 0
    for _ in range(n or rng.randint(3, 12)):
        k = rng.random()
        if plain:
            m = rng.choice([1, 2, 5, 20, 200])
            ops.append('app write ' + hexw(''.join('%x;%s\r\n' % (rng.randrange(1 << 30), 'k' * rng.randint(0, w - 12)) for _ in range(m))))
        elif k < .6:
            m = rng.choice([1, 2, 5, 20, 100, 100])
            ops.append('app write ' + hexw(''.join('%x;%s\r\n' % (rng.randrange(1 << 30), 'k' * rng.randint(0, max(0, w - 12))) for _ in range(m))))
        elif k < .7 and err:
            ops.append('app writeto buf1 ' + hexw(''.join('E%x\r\n' % rng.randrange(1 << 30) for _ in range(rng.choice([1, 5, 100])))))
        elif k < .8:
            ops.append('app wfill %d %d %d %d %d' % (rng.randrange(w), rng.randrange(h), rng.randint(1, w * h), rng.choice([35, 64, 0x20ac]), rng.randrange(256)))
        elif k < .9:
            ops.append('app title ' + hexw('t%d' % rng.randrange(1000) * rng.choice([1, 1, 200])))
        else:
            ops.append('app wcursor %d %d' % (rng.randrange(w), rng.randrange(h)))
        ops.append(f'adv {rng.choice([0, 1, 24, 25, 26, 60, 200])}')
    return ops


def reader(rng, ops, err, style, stop=None):
    """Interleaves reading with the operations (no time passes in it)."""
    out = []
    pipes = ['conout'] + (['conerr'] if err else [])
    stall = False
    for o in ops:
        out.append(o)
        if not o.startswith('adv'):
            continue
        if style == 'eager':
            out += [f'drain {p}' for p in pipes]
        elif style == 'trickle':
            for _ in range(rng.randint(0, 4)):
                out += [f'rd {rng.choice(pipes)} {rng.choice([1, 2, 10, 100, 4000, 8191, 8192, 8193])}', rng.choice(['idle', 'idle', ''])]
        elif style == 'stall':
            if rng.random() < .3:
                stall = not stall
            if not stall:
                out += [rng.choice([f'drain {p}', f'rd {p} {rng.choice([1, 500, 9000])}']) for p in pipes]
        elif style == 'one':
            out += [f'drain {pipes[-1]}']
    return [x for x in out if x]


def f_pipes(rng):
    """P01."""
    plain = rng.random() < .25
    err = not plain and rng.random() < .5
    w, h = (rng.randint(20, 120), rng.randint(5, 50)) if rng.random() < .8 else (300, 100)
    flags = int(err) | (2 if plain else 0)
    extra = [rng.choice(term.OSES)]
    ops = content(rng, w, h, err, plain)
    big = rng.random() < .5
    for i in range(len(ops) - 1, 0, -1):      # input and requests in between
        if rng.random() < .3:
            ops.insert(i, 'in ' + bytes(rng.choice(b'abcdefghxyz') for _ in range(rng.choice([1, 3, 100, 300, 1000, 5000, 20000, 60000] if not big else [1, 3, 100, 300, 1000]))).hex())
            big = big or len(ops[i]) > 30000
        if rng.random() < .1:
            ops.insert(i, 'ctl ' + frame(LISTREQ).hex())
    start = [f'agent {flags} 1 {w} {h}', 'conn conin']
    end = ['adv 100', 'drain conout', 'drain conerr'] + readall('ctl') + [settle('conout,conerr,ctl', True)]
    meta = dict(err=err, w=w, h=h, stream=True, plain=plain)
    outs = ['conn conout'] + (['conn conerr'] if err else [])
    res = {'r': (extra + start + outs + ['adv 60'] + reader(rng, ops, err, 'eager') + end, meta)}
    for v in 'abc':
        style = rng.choice(['trickle', 'stall', 'one', 'none'])
        pre, body = fault_modes(rng), reader(rng, ops, err, style)
        if rng.random() < .3:                 # connects late
            o = outs[:]
            b = body[:]
            at = [i for i, x in enumerate(b) if x.startswith('adv')]
            for x in o:
                b.insert(rng.choice(at), x)
            first = []
            body = b
        else:
            first = outs
        lines = extra + pre + start + first + ['adv 60'] + body
        m = dict(meta)
        if rng.random() < .25:                # a client leaves
            at = [i for i, x in enumerate(lines) if i > len(extra + pre + start) and x.startswith('adv')]
            gone = rng.choice(['conout'] + ['conerr', 'conerr'] * err + ['conin'])
            i = rng.choice(at)
            if gone == 'conin':
                lines = lines[:i] + ['close conin'] + [x for x in lines[i:] if not x.startswith('in ')]
            elif f'conn {gone}' in lines[:i]:
                if rng.random() < .4:
                    lines.insert(i, f'onapi {rng.choice(SCRAPING)} {rng.randint(1, 6)} !close {gone}')
                else:
                    lines.insert(i, f'close {gone}')
            m['plain'] = False
        last = []
        if rng.random() < .3:                 # and in the end the controlling client, with replies unread
            last = [f'app attach {rng.choice([1, 60])}'] + ['ctl ' + frame(LISTREQ).hex()] * rng.choice([1, 1, 2, 10]) + [rng.choice(['idle', 'adv 10']), 'close control', 'adv 100']
        res[v] = (lines + end + last, m)
    return res


def f_shutdown(rng):
    """S01, S02."""
    err = rng.random() < .5
    w, h = rng.randint(20, 120), rng.randint(5, 50)
    mouse = rng.choice([0, 1, 1, 2])
    quiet = err and rng.random() < .5      # nothing on the error screen
    agent = int(err) | (2 if rng.random() < (.6 if quiet else .15) else 0)
    extra = [rng.choice(term.OSES)]
    before = content(rng, w, h, err and not quiet, False, rng.randint(0, 6))
    if rng.random() < .5:
        i = rng.randint(0, len(before))
        before[i:i] = ['app inmode %d' % rng.choice([0x97, 0x17, 0xd7, 0x87]), 'adv 60']
    last = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        if k < .6:
            last.append('app write ' + hexw('last words %x' % rng.randrange(1 << 30) + '\r\n' * rng.randint(0, 3) + 'x' * rng.choice([0, 0, 3000, 20000])))
        elif k < .75:
            last.append('app title ' + hexw('last title %x' % rng.randrange(1 << 30)))
        elif k < .85 and err and not quiet:
            last.append('app writeto buf1 ' + hexw('last error %x' % rng.randrange(1 << 30)))
        elif k < .9:
            last.append('app wfill %d %d 5 42 7' % (rng.randrange(w), rng.randrange(h)))
        else:
            last.append('app wcursor %d %d' % (rng.randrange(w), rng.randrange(h)))
    api = rng.choice(['', '', 'ReadConsoleOutputW', 'GetConsoleScreenBufferInfo', 'WaitForSingleObject', 'GetConsoleTitleW', 'SendMessageW', 'GetConsoleMode', 'SetConsoleMode'])
    nth = rng.randint(1, 6)
    auto = rng.random() < .75
    if api == 'WaitForSingleObject' and not auto:
        api = ''      # (nobody waits for the child then)
    if api:           # in the middle of the agent's work
        nth = 1 if api == 'WaitForSingleObject' else nth
        fin = [f'onapi {api} {nth} {x[4:]}' for x in last]
        bye = [f'onapi {api} {nth} exit 3']
    else:
        fin, bye = last if rng.random() < .8 else [], ['app exit 3']
    wait = [f'adv {rng.choice([0, 1, 10, 24])}'] if not api else []
    after = content(rng, w, h, err and not quiet, False, rng.randint(0, 3))
    meta = dict(err=err, w=w, h=h, stream=True)
    outs = ['conn conout'] + (['conn conerr'] if err else [])

    def session(flags, exits, pre, first, style):
        o = list(first) + ['ctl ' + frame(spawnreq(flags, 1, 0)).hex(), 'adv 60', 'rdctl'] + before
        o += wait + (last if api == 'WaitForSingleObject' and not exits else fin) + (bye if exits else []) + ['adv 200', 'onapi none'] + (['app exit 3', 'adv 100'] if exits else [])
        if not auto:
            o += after
        return extra + pre + [f'agent {agent} {mouse} {w} {h}', 'conn conin'] + reader(rng, o, err, style)
    end = ['adv 100', 'drain conout', 'drain conerr'] + readall('ctl') + [settle('conout,conerr,ctl')]
    res = {'r': (session(0, False, [], outs, 'eager') + ['adv 100', 'drain conout', 'drain conerr'] + end, meta)}
    for v in 'abc':
        late = rng.random() < .4
        flags = rng.choice([1, 3]) if auto else rng.choice([0, 2])
        style = rng.choice(['eager', 'trickle', 'stall', 'none', 'one'])
        behind = outs if rng.random() < .6 else [rng.choice(outs)]
        lines = session(flags, True, fault_modes(rng), [x for x in outs if x not in behind] if late else outs, style)
        if late:      # connects after the child has gone
            for p in rng.sample(behind, len(behind)):
                lines += ['adv %d' % rng.choice([0, 30, 500]), settle(''), p] + ([f'rd {p[5:]} 10', 'idle'] if rng.random() < .5 else [])
        k = rng.random()
        if k < .25:   # still there?
            lines += ['ctl ' + frame(LISTREQ).hex(), 'adv 30', 'rdctl', settle('')]
        if k > .8 and not late:
            lines += [f'close {rng.choice(outs)[5:]}', 'adv 30']
        if rng.random() < .3:
            lines += ['adv %d' % rng.choice([1000, 40000]), settle('')]
        if rng.random() < .2:
            lines += ['app write ' + hexw('nobody should see this')] if auto else []
        lines += ['adv 60'] + end + ['ctl ' + frame(LISTREQ).hex(), 'adv 60'] + readall('ctl') + [settle('conout,conerr,ctl', True), 'stat']
        res[v] = (lines, meta)
    return res


FAMS = dict(C01=(f_control, 300), C02=(f_gone, 400), P01=(f_pipes, 90), S01=(f_shutdown, 160), S02=(f_shutdown, 160))


def scenarios(seed, tier, prop):
    sc, meta = {}, {}
    fam, n = FAMS[prop]
    for i in range(n * (20 if tier == 'thorough' else 1)):
        for v, (lines, m) in fam(random.Random(f'life{seed}{prop}.{i}')).items():
            k = f'{i}-{v}'
            sc[k], meta[k] = lines, m
    return sc, meta
