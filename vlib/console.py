"""Freezes and resizes: scenarios for the real agent and mapping to ConTrace events."""
import random
from .harness import hexw
from . import term

SIZES = {'fit', 'win', 'bufsize', 'newbuf', 'activate', 'cls'}


def to_trace(k, log, w, h, lx=300, ly=120, minw=0, newcon=True, conerr=False, **_):
    ev = []
    for e in log:
        t = e['ev']
        if t == 'con':
            x = dict(e='con', f=e['f'], n=e['buf'])
            if not ev or ev[-1] != x or e['f'] in ('mark', 'all', 'esc'):       # a run of reads, or of writes, is one
                ev.append(x)
        elif t == 'reqSize':
            ev.append(dict(e='req', c=e['c'], r=e['r']))
        elif t == 'sizeEvent':
            ev.append(dict(e='size', w=e['w'], h=e['h'], winw=e['winw'], winh=e['winh'], bufw=e['bufw'], bufh=e['bufh']))
        elif t == 'ctlReply':
            ev.append(dict(e='ans', ok=e['hex'] == ''))
        elif t == 'op':
            ev.append(dict(e='op', sizes=e['op'] in SIZES - {'cls'}))
        elif t == 'fault':
            ev.append(dict(e='fault'))
        elif t == 'snap':
            if not e['alive']:
                ev.append(dict(e='dead'))
                break
            bs = [b for b in e['bufs'] if b['label'] in ('primary', 'buf1')] if conerr else [b for b in e['bufs'] if b['active']]
            ev.append(dict(e='snap', frozen=e['frozen'], pending=e['pendingOps'], bufs=[dict(n=b['label'], w=b['w'], h=b['h'], l=b['l'], t=b['t'], r=b['r'], b=b['b']) for b in bs]))
    return dict(id=k, cfg=dict(w=w, h=h, lx=lx, ly=ly, minw=minw, newcon=newcon, bufs=['primary', 'buf1'] if conerr else ['primary']), ev=ev)


FAULTS = ['SetConsoleWindowInfo', 'SetConsoleScreenBufferSize', 'GetConsoleCursorInfo', 'GetConsoleMode', 'SetCurrentConsoleFontEx', 'GetCurrentConsoleFontEx', 'ReadConsoleOutputW',
          'WriteConsoleOutputW', 'FillConsoleOutputCharacterW', 'FillConsoleOutputAttribute', 'SetConsoleCursorPosition']
APIS = term.APIS + ['SetConsoleWindowInfo', 'SetConsoleScreenBufferSize', 'SetCurrentConsoleFontEx', 'FillConsoleOutputCharacterW']


def size(rng, w, h):
    k = rng.random()
    if k < .5:
        return max(1, w + rng.randint(-6, 6)), max(1, h + rng.randint(-4, 4))
    if k < .7:
        return rng.choice([1, 2, 3, 19, 20, 80, 132]), rng.choice([1, 2, 3, 24, 25, 60])
    if k < .8:
        return w, rng.choice([1, 2, h, h + 1, 40])
    if k < .9:
        return rng.choice([299, 300, 301, 400, 2499, 2500, 2501, 3000]), rng.choice([119, 120, 121, 1999, 2000, 2001, 2999, 3000, 3001])
    return rng.choice([32767, 32768, 65536 + 30, 70000, 2147483647]), rng.choice([5, 32767, 65536 + 7, 2147483647])


def burst(rng, f):
    """Output that moves the buffer a long way, or happens while it is read: the agent has to start over, frozen."""
    to = 'writeto buf1 ' if f == 'e' and rng.random() < .6 else 'write '
    n = rng.choice([2, 30, 300, 600, 1500])
    r = [f'app {to}' + hexw('x\r\n' * n)]
    if rng.random() < .6:
        r = [f'onapi {rng.choice(["ReadConsoleOutputW", "ReadConsoleOutputW", "GetConsoleScreenBufferInfo", "GetConsoleCursorInfo"])} {rng.randint(1, 6)} {to}' + hexw('y\r\n' * rng.choice([1, 1, 2, 20]))] + r
    return r


def small(rng, w, h):
    """A buffer without scrollback but with room around the window, and the cursor anywhere."""
    bw, bh = w + rng.choice([0, 0, 3, 10]), h + rng.choice([1, 2, 4, 8])
    l, t = rng.randint(0, bw - w), rng.randint(0, bh - h)
    return rng.choice([[], ['app newbuf', 'app activate last']]) + [f'app win 0 0 {w - 1} {h - 1}', f'app bufsize {bw} {bh}', f'app cursor {rng.randrange(bw)} {rng.randrange(bh)}', f'app win {l} {t} {l + w - 1} {t + h - 1}']


def scenarios(seed, n, tier='quick'):
    sc, meta = {}, {}
    for i in range(n):
        rng = random.Random(f'con{seed}.{i}')
        f = 'gdrfe'[i % 5]
        w, h = size(rng, rng.randint(8, 30), rng.randint(3, 12)) if rng.random() < .3 else (rng.randint(8, 30), rng.randint(3, 12))
        w, h = min(w, 3000), min(h, 3000)
        o = rng.choice(term.OSES)
        m = dict(w=w, h=h, newcon=o.endswith(' 1'), conerr=f == 'e')
        extra = ['logconsole 1']
        if rng.random() < .5:
            lx, ly = rng.choice([20, 60, 100, 300, 2500]), rng.choice([10, 30, 120, 1000])
            m.update(lx=lx, ly=ly)
            extra += [f'osopt largestX {lx}', f'osopt largestY {ly}']
        if rng.random() < .2:
            m['minw'] = rng.randint(2, 20)
            extra.append(f'osopt minCols {m["minw"]}')
        if rng.random() < .2:
            extra.append('osopt fontApi 0')
        if rng.random() < .5 or f == 'r':
            extra += ['preempt %d' % rng.choice([1, 2, 5]), f'seed {rng.randrange(1 << 30)}']
        lines = term.start(w, h, 1 if f == 'e' else 0, 1, o, extra) + ['adv 60', 'drain conout', 'drain conerr', 'snap']
        ww, wh = max(1, min(w, m.get('lx', 300))), max(1, min(h, m.get('ly', 120)))
        for _ in range(rng.randint(3, 7)):
            for _ in range(rng.choice([0, 1, 1, 2])):
                o = term.shellop(rng, min(ww, 60), min(wh, 30), True) if f != 'd' or rng.random() < .5 else rng.choice(
                    ['newbuf', 'activate primary', 'activate last', f'fit {max(1, ww - rng.randint(0, 4))} {max(1, wh - rng.randint(0, 3))}', f'fit {ww} {wh}', f'bufsize {ww} {rng.choice([3000, wh + 10, 500])}'])
                if f == 'd' and rng.random() < .4:
                    lines += small(rng, max(1, min(ww, 60)), max(1, min(wh, 30)))
                    continue
                if f in 'gef' and rng.random() < .4:
                    lines += burst(rng, f)
                    if rng.random() < .5:
                        lines += ['adv 60', 'drain conout', 'drain conerr']
                    continue
                if o == 'activate last':
                    lines.append('app newbuf')
                lines.append(rng.choice(['app ', 'bgapp ']) + o if f != 'd' else 'app ' + o)
            if f == 'r':
                for _ in range(rng.randint(1, 3)):
                    lines.append(f'onapi {rng.choice(APIS)} {rng.randint(1, 12)} {term.shellop(rng, min(ww, 60), min(wh, 30), True)}')
            lines += ['adv 60', 'drain conout', 'drain conerr', 'snap']
            if f == 'f' and rng.random() < .6:
                lines.append(f'fault {rng.choice(FAULTS)} {rng.choice([1, 1, 2, 3, 4])} 87')
                if rng.random() < .5:
                    lines += ['adv 60', 'drain conout', 'snap']
            w, h = size(rng, min(w, 60), min(h, 40)) if rng.random() < .9 else (w, h)
            ww, wh = max(1, min(w, m.get('lx', 300), 2500)), max(1, min(h, m.get('ly', 120), 2000))
            lines += [f'setsize {w} {h}', 'adv 40', 'rdctl', 'drain conout', 'snap', 'adv 60', 'drain conout', 'drain conerr', 'snap']
        k = f'{f}{i}'
        sc[k], meta[k] = lines, m
    return sc, meta
