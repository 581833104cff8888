"""Console histories for the real agent: scenario generation, output tokeniser and mapping to TermTrace events."""
import random
from .harness import hexw

OSES = ['os 5 1 2600 0', 'os 6 1 7601 0', 'os 6 3 9600 0', 'os 10 0 10586 0', 'os 10 0 14393 1', 'os 10 0 14393 1']


# ---------------------------------------------------------------- output -> tokens
class Tok:
    """Splits output bytes into tokens, keeping what is incomplete for later."""
    def __init__(self):
        self.buf = b''
        self.prev = 0

    def feed(self, data):
        b = self.buf + data
        out, txt, i = [], [], 0

        def flush():
            if txt:
                out.append(['t', txt[:]])
                del txt[:]
        while i < len(b):
            c = b[i]
            if c == 0x1b:
                r = self.escape(b, i)
                if r is None:
                    break
                flush()
                out.append(r[0])
                i = r[1]
            elif c == 13:
                flush(); out.append(['r', 0]); i += 1
            elif c == 10:
                flush(); out.append(['n', 1 if (b[i - 1] if i else self.prev) == 13 else 0]); i += 1
            elif c < 32 or c == 127:
                flush(); out.append(['c', c]); i += 1
            elif c < 128:
                txt.append(c); i += 1
            else:
                n = 2 if 0xc2 <= c <= 0xdf else 3 if 0xe0 <= c <= 0xef else 4 if 0xf0 <= c <= 0xf4 else 0
                if not n:
                    flush(); out.append(['x', b[i:i + 1].hex()]); i += 1
                    continue
                if i + n > len(b) and all(0x80 <= x < 0xc0 for x in b[i + 1:]):
                    break
                try:
                    cp = ord(b[i:i + n].decode('utf-8'))
                    if 0x80 <= cp < 0xa0:
                        flush(); out.append(['c', cp])
                    else:
                        txt.append(cp)
                    i += n
                except (UnicodeDecodeError, TypeError):
                    flush(); out.append(['x', b[i:i + 1].hex()]); i += 1
        flush()
        self.buf = b[i:]
        if i:
            self.prev = b[i - 1]
        return out

    def escape(self, b, i):
        if i + 1 >= len(b):
            return None
        if b[i + 1] == 0x5b:
            j = i + 2
            while j < len(b) and not 0x40 <= b[j] <= 0x7e:
                if b[j] < 0x20 or b[j] > 0x7e:
                    return ['x', b[i:j].hex()], j
                j += 1
            if j >= len(b):
                return None
            body, f = b[i + 2:j].decode('ascii'), chr(b[j])
            e = j + 1
            ps = body.split(';')
            if f == 'm' and all(p.isdigit() and len(p) < 4 for p in ps):
                return ['m', [int(p) for p in ps]], e
            if f == 'K' and body in ('0', ''):
                return ['k', 0], e
            if f == 'A' and body.isdigit() and int(body) > 0:
                return ['u', int(body)], e
            if f == 'G' and body.isdigit() and int(body) > 0:
                return ['g', int(body)], e
            if f == 'H' and body == '1;1':
                return ['h', 0], e
            if f == 'J' and body == '2':
                return ['j', 0], e
            if f == 'n' and body == '6':
                return ['d', 0], e
            if f in 'hl' and body[:1] == '?' and body[1:].isdigit():
                return (['v', f == 'h'] if body == '?25' else ['o', [int(body[1:]), f == 'h']]), e
            return ['x', b[i:e].hex()], e
        if b[i + 1] == 0x5d:
            j = b.find(b'\x07', i)
            if j < 0:
                return None if len(b) - i < 200000 else (['x', 'unterminated title'], len(b))
            body = b[i + 2:j]
            if body[:2] != b'0;':
                return ['x', body[:20].hex()], j + 1
            try:
                s = body[2:].decode('utf-8')
            except UnicodeDecodeError:
                return ['x', body[:20].hex()], j + 1
            if any(ord(c) < 32 or 127 <= ord(c) < 160 for c in s):
                return ['x', body[:20].hex()], j + 1
            return ['i', ascii16(s)], j + 1
        return ['x', b[i:i + 2].hex()], i + 2


def ascii16(s):
    """Titles travel to TLC as ASCII."""
    return ''.join(c if ' ' <= c <= '~' and c not in '\\"' else '{%x}' % ord(c) for c in s)


def title16(s):
    """What a title should look like when sent: control characters replaced, unpaired surrogates replaced."""
    s = s.encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'replace')
    return ascii16(''.join('?' if ord(c) < 32 or 127 <= ord(c) < 160 else c for c in s))


# ---------------------------------------------------------------- log -> trace
def rows(cells):
    return [[[int(r[i:i + 4], 16), int(r[i + 4:i + 8], 16)] for i in range(0, len(r), 8)] for r in cells]


def buf(b, n):
    return dict(n=b['label'], t=b['t'], cx=b['cx'] - b['l'], cy=b['cy'] - b['t'] + 1, vis=b['vis'], mode=b['mode'], bh=b['h'], wh=b['b'] - b['t'] + 1, cells=rows(b['cells']))


def to_trace(k, log, w, h, plain=False, color=False, mouse=False, conerr=False, newcon=True, append=False, keep=False, split=300, **_):
    terms = 2 if conerr else 1
    tok = [Tok(), Tok()]
    ev = []
    outcp, ops = 437, 0
    made = []           # screen buffers the agent made
    for e in log:
        t = e['ev']
        if t == 'out' and e['pipe'] in ('conout', 'conerr') and e.get('hex'):
            p = 1 if e['pipe'] == 'conout' else 2
            ks = tok[p - 1].feed(bytes.fromhex(e['hex']))
            for i in range(0, len(ks), split):
                # a carriage return and its line feed stay together
                ev.append(dict(e='out', p=p, k=ks[i:i + split]))
            if not ks:
                ev.append(dict(e='out', p=p, k=[]))
        elif t == 'op':
            x = dict(e='op', op=e['op'])
            if append and e['op'] == 'write':
                x['s'] = list(ord(c) for c in bytes.fromhex(e['a'][0]).decode('utf-16-be', 'surrogatepass')) if e['a'][0] != '-' else []
            elif append and e['op'] == 'attr':
                x['attr'] = int(e['a'][0])
            elif append and e['op'] not in ('title',):
                raise ValueError('not an append-only history: ' + e['op'])
            if e['op'] == 'outcp':
                outcp = int(e['a'][0])
            ops += 1
            ev.append(x)
        elif t in ('appTitle', 'setTitle'):
            ev.append(dict(e='title', t=title16(e['title']), own=t == 'setTitle'))
        elif t == 'newBuffer' and e['pid'] == 104:
            made.append(e['label'])
        elif t == 'createProcess':
            known = {'primary': 1, **{x: 2 for x in made}}
            ev.append(dict(e='spawn', sin=e.get('sin', 'none'), out=known.get(e.get('sout'), 0), err=known.get(e.get('serr'), 0), n=1 + len(made)))
        elif t == 'note' and e.get('text', '').startswith('rs:'):
            c, r = map(int, e['text'][3:].split('x'))
            ev.append(dict(e='rs', w=c, h=r))
        elif t == 'snap':
            if not e['alive']:
                ev.append(dict(e='dead'))       # nothing in the specification allows this
                break
            if conerr:
                bs = [b for b in e['bufs'] if b['label'] == 'primary'] + [b for b in e['bufs'] if b['label'].startswith('buf')]
            else:
                bs = [b for b in e['bufs'] if b['active']]
            if len(bs) < terms:
                ev.append(dict(e='nobuffer'))
                break
            ev.append(dict(e='snap', cp=outcp, title=title16(e['title']), one=ops <= 1, bufs=[buf(b, 0) for b in bs[:terms]]))
            ops = 0
    return dict(id=k, cfg=dict(w=w, h=h, bw=w, plain=plain, color=color or not plain, mouse=mouse, terms=terms, newcon=newcon, append=append, keep=keep), ev=ev)


# ---------------------------------------------------------------- histories
def look(n=4):
    """Let the agent catch up, look, and check that it stays quiet."""
    return ['adv 60', 'drain conout', 'drain conerr'] * n + ['snap', 'adv 400', 'drain conout', 'drain conerr']


def word(rng, n, wide=False):
    return ''.join(rng.choice('abcdefghijkLMNOP 0123 ') for _ in range(n))


ATTRS = [7, 7, 7, 0x0f, 0x08, 0x0a, 0x1e, 0x4f, 0x70, 0xf0, 0xf4, 0x87, 0x00, 0x77, 0xff, 0x4007, 0x401c, 0x8007, 0xc04e, 0x407f]


def rattr(rng):
    return rng.choice(ATTRS) if rng.random() < .8 else rng.randrange(256) | rng.choice([0, 0x4000, 0x8000, 0xc000])


WIDE = '\u4e00\u3042\uac00\u30c6\uff21'


def op(rng, w, h, free=True):
    """One console operation of an application, confined to the window."""
    k = rng.random()
    if k < .22:
        s = word(rng, rng.randint(1, w + 3))
        return f'write {hexw(s)}'
    if k < .34:
        return f'write {hexw(word(rng, rng.randint(0, w)) + chr(13) + chr(10))}'
    if k < .42:
        return f'write {hexw("".join(word(rng, rng.randint(0, w - 1)) + chr(13) + chr(10) for _ in range(rng.randint(2, h + 3))))}'
    if k < .60:
        return f'wcursor {rng.randrange(w)} {rng.randrange(h)}'
    if k < .72:
        return f'attr {rattr(rng)}'
    if k < .82:
        n = rng.choice([1, 2, w, 2 * w, w * h, rng.randint(1, w * 2)])
        y = rng.randrange(h); x = rng.choice([0, rng.randrange(w)])
        return f'wfill {x} {y} {min(n, (h - y) * w - x)} {rng.choice([32, 32, 32, ord("x"), 0x2502])} {rattr(rng)}'
    if k < .88:
        return f'curvis {rng.randrange(2)}'
    if k < .92:
        return f'wide {hexw("".join(rng.choice(WIDE) for _ in range(rng.randint(1, 4))))}'
    if k < .95:
        return f'write {hexw(rng.choice(["é", "ß│─", chr(0x20ac), chr(0xd835) + chr(0xdd04), chr(0xd835), chr(0xdd04) + "q", "∀x"]))}'
    if k < .97:
        return f'outmode {rng.choice([3, 7, 0x13])}'
    if k < .98:
        return f'outcp {rng.choice([437, 932, 65001])}'
    return 'cls'


def start(w, h, flags=0, mouse=1, osx=None, extra=()):
    return [osx or 'os 10 0 14393 1', *extra, f'agent {flags} {mouse} {w} {h}', 'conn conin', 'conn conout'] + (['conn conerr'] if flags & 1 else []) + ['adv 60', 'drain conout', 'drain conerr']


def some(rng, lines, w, h, verb='app', most=6):
    for _ in range(rng.choice([1, 1, 1, 2, 3, most])):
        lines.append(f'{verb} ' + op(rng, w, h))


APIS = ['GetConsoleScreenBufferInfo', 'ReadConsoleOutputW', 'GetConsoleCursorInfo', 'GetConsoleMode', 'GetConsoleTitleW', 'SendMessageW', 'WriteConsoleOutputW']


def errop(rng, w, h, label='buf1'):
    k = rng.random()
    if k < .5:
        return f'writeto {label} {hexw(word(rng, rng.randint(1, w)) + rng.choice(["", chr(13) + chr(10)]))}'
    if k < .65:
        return f'wcursorto {label} {rng.randrange(w)} {rng.randrange(h)}'
    if k < .8:
        return f'attrto {label} {rattr(rng)}'
    if k < .9:
        return f'curvisto {label} {rng.randrange(2)}'
    return f'writeto {label} {hexw("".join(word(rng, rng.randint(1, w)) + chr(13) + chr(10) for _ in range(h + 2)))}'


def resize(w, h):
    return ['adv 60', 'drain conout', 'drain conerr', f'note rs:{w}x{h}', f'setsize {w} {h}', 'adv 40', 'rdctl']


def addop(rng, w, h, room, much, cr):
    k = rng.random()
    if k < .12:
        return f'attr {rng.choice([7, 7, 10, 15, 8, 0xc])}', room
    if k < .2:
        return f'title {hexw(rng.choice(TITLES))}', room
    ln = lambda m: word(rng, rng.randint(0, m)) + '\r\n'
    if much and k < .6:
        n = min(room, rng.choice([300, 700, 900, 1500]))
        return f'write {hexw("".join(ln(min(w - 1, 6)) for _ in range(n)))}', room - n
    n = min(room, rng.choice([0, 0, 1, 2, h, h + 3, 40]))
    s = ''.join(ln(w + 5 if rng.random() < .1 else w - 1) for _ in range(n)) + word(rng, rng.choice([0, 0, 1, 3, w, w + 2]))
    if cr and rng.random() < .2:
        s += '\r' + word(rng, rng.randint(0, 5))
    return f'write {hexw(s)}', room - 2 * n


TITLES = ['', 'a', 'title', 'C:\\>cmd "x"', 'é漢字', 'x' * 40, 'y' * 300, '\U0001f600 smile', 'tab\tbell\x07esc\x1b]0;evil\x07', 'del\x7f', 'bad\ud800']


def shellop(rng, w, h, only_w):
    """What a shell does.  Taller and shorter: without colored backgrounds and with the cursor on, for a terminal then
    drops lines below its cursor, wherever that is, and shows plain ones instead."""
    k = rng.random()
    if k < .5:
        return f'write {hexw(word(rng, rng.randint(1, w)) + rng.choice(["", chr(13) + chr(10)]))}'
    if k < .7:
        return f'write {hexw("".join(word(rng, rng.randint(0, w - 1)) + chr(13) + chr(10) for _ in range(rng.randint(2, h + 3))))}'
    if k < .85:
        return f'attr {rng.choice([7, 7, 10, 0x1e] if only_w else [7, 7, 10, 0xc])}'
    if k < .93 and only_w:
        return f'curvis {rng.randrange(2)}'
    return 'cls'


FAMS = dict(X01='hdbrikw', X03='hdriew', X04='hptkdw', X06='hedrtiw', X08='eeh', T01='tdhr', X07='r')


def screen(seed, n, prop):
    return scenarios(seed, n, only=FAMS[prop])


def scenarios(seed, n, only=''):
    sc, meta = {}, {}
    fams = [f for f in ['h', 'e', 't', 'd', 'w', 'b', 'r', 'i', 'p', 'k', 'a', 's', 'f'] if not only or f in only]
    wt = dict(h=6, e=3, t=2, d=3, w=2, b=1, r=4, i=5, p=2, k=1, a=6, s=1, f=1)
    plan = [f for f in fams for _ in range(wt[f])]
    for i in range(n):
        f = plan[i % len(plan)]
        rng = random.Random(f'term{seed}.{f}.{i}')
        w, h = rng.randint(8, 20), rng.randint(3, 8)
        o = rng.choice(OSES)
        m = dict(w=w, h=h, newcon=o.endswith(' 1'))
        steps = rng.randint(4, 9)
        if f == 'h':                              # one application drawing
            mouse = rng.choice([0, 1, 2])
            m['mouse'] = mouse > 0
            lines = start(w, h, 0, mouse, o)
            if rng.random() < .2:
                lines += [f'spawn {rng.choice([0, 1, 3])} 1 0 - {hexw("prog")} - - -', 'adv 60', 'rdctl', 'drain conout', 'drain conerr']
            for _ in range(steps):
                some(rng, lines, w, h)
                if rng.random() < .1:
                    lines.append(f'app inmode {rng.choice(["0x10", "0x90", "0xd0", "0xf7"])}')
                lines += look()
        elif f == 'e':                            # separate error output
            m['conerr'] = True
            lines = start(w, h, 1, 1, o)
            if rng.random() < .5:
                lines += [f'spawn {rng.choice([0, 1, 3])} 1 0 - {hexw("prog")} - - -', 'adv 60', 'rdctl', 'drain conout', 'drain conerr']
            for _ in range(steps):
                for _ in range(rng.choice([1, 1, 2, 4])):
                    lines.append('app ' + (errop(rng, w, h) if rng.random() < .5 else op(rng, w, h)))
                lines += look()
        elif f == 't':                            # titles
            plain = rng.random() < .15
            m['plain'] = plain
            lines = start(w, h, 2 if plain else 0, 1, o)
            for _ in range(steps):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    lines += [f'app title {hexw(rng.choice(TITLES))}'] + ['adv 30'] * (rng.random() < .3)
                if rng.random() < .3:
                    some(rng, lines, w, h)
                lines += look()
        elif f == 'd':                            # other buffers, full-screen programs
            lines = start(w, h, 0, 1, o)
            nb = 0
            for _ in range(steps):
                k = rng.random()
                if k < .3:
                    lines += ['app newbuf', 'app activate last']
                    nb += 1
                elif k < .45:
                    lines += ['app activate primary']
                elif k < .6:
                    lines += [f'app fit {rng.choice([w, w, w - 3, w + 4])} {rng.choice([h, h, h - 1, h + 3])}']
                elif k < .7:
                    lines += [f'app bufsize {w} {rng.choice([3000, h + 10, 500])}']
                some(rng, lines, w, h)
                lines += look()
            if any('app fit' in x for x in lines):
                lines = [x for x in lines if not x.startswith('app wide')]      # the window's edge may cut a character in two
        elif f == 'b':                            # large windows
            w, h = rng.choice([(80, 25), (160, 40), (132, 60), (250, 30)])
            if rng.random() < .5:
                w = rng.choice([100, 120, 200, 250, 400, 500, 1000, 1300])    # how much older consoles give at once: 2500 cells
                h = max(2, min(2500 // w * rng.choice([1, 1, 2, 3]), 6000 // w) + rng.choice([0, 1, 1, 2]))
                m['newcon'] = False
                o = rng.choice(OSES[:2])
            m['w'], m['h'] = w, h
            lines = ['osopt largestX 2500', 'osopt largestY 300'] + start(w, h, 0, 1, o)
            for _ in range(3):
                some(rng, lines, w, h)
                for _ in range(2):
                    lines.append(f'app wcursor {rng.randrange(w)} {rng.choice([0, h - 1, h - 2, rng.randrange(h)])}')
                    lines.append(f'app write {hexw(word(rng, rng.randint(1, 12)))}')
                lines += look()
        elif f == 'w':                            # a full-screen program whose buffer is wider than the window
            lines = start(w, h, 0, 1, o)
            bw, bh = w + rng.randint(1, 12), h + rng.choice([0, 0, 5])
            if rng.random() < .4:
                lines += ['app newbuf', 'app activate last']
            lines += [f'app win 0 0 {w - 1} {h - 1}', f'app bufsize {bw} {bh}']
            for _ in range(steps):
                some(rng, lines, w, h, most=3)
                if rng.random() < .7:
                    lines.append(f'app cursor {rng.randrange(bw)} {rng.randrange(bh)}')
                if rng.random() < .7:
                    l, t = rng.randint(0, bw - w), rng.randint(0, bh - h)
                    lines.append(f'app win {l} {t} {l + w - 1} {t + h - 1}')
                lines += look()
            lines = [x for x in lines if not x.startswith('app wide')]          # the window's edge may cut a character in two
        elif f == 'r':                            # resizing under a shell
            lines = start(w, h, 0, 1, o)
            m['keep'] = only_w = rng.random() < .4
            for _ in range(steps):
                for _ in range(rng.choice([0, 1, 2, 3])):
                    lines.append('app ' + shellop(rng, w, h, only_w))
                lines += look()
                w, h = max(4, w + rng.randint(-4, 4)), h if only_w else max(2, h + rng.randint(-3, 3))
                lines += resize(w, h) + look()
                lines.append('app ' + shellop(rng, w, h, only_w))
                lines += look()
        elif f == 'i':                            # the application runs while the agent looks
            lines = ['preempt %d' % rng.choice([1, 2, 5]), f'seed {rng.randrange(1 << 30)}'] + start(w, h, 0, 1, o)
            for _ in range(steps):
                for _ in range(rng.randint(1, 4)):
                    if rng.random() < .5:
                        lines.append(f'onapi {rng.choice(APIS)} {rng.randint(1, 12)} {op(rng, w, h)}')
                some(rng, lines, w, h, 'bgapp')
                lines += ['adv 25', 'drain conout'] * 8 + look()
        elif f == 'p':                            # plain output
            fl = rng.choice([2, 6])
            m.update(plain=True, color=fl == 6)
            lines = start(w, h, fl, rng.choice([0, 1, 2]), o)
            for _ in range(steps):
                some(rng, lines, w, h)
                if rng.random() < .3:
                    lines.append(f'app title {hexw(rng.choice(TITLES))}')
                if rng.random() < .3:
                    lines.append('app curvis 0')
                lines += look()
        elif f == 'f':                            # the buffer is full and lines are added while the agent looks
            w, h = rng.randint(7, 9), rng.randint(3, 6)
            m.update(w=w, h=h, append=True, newcon=True)
            lines = start(w, h, 0, 1, 'os 10 0 14393 1')
            c = 0

            def more(n):
                nonlocal c
                c += n
                return 'write ' + hexw(''.join('%d\r\n' % (i % 9973) for i in range(c - n, c)))
            for n in (800, 800, 800, 700, 5):
                lines += ['app ' + more(n), 'adv 60', 'drain conout']
            lines += look()
            for _ in range(steps):
                for _ in range(rng.choice([1, 1, 2])):
                    lines += [f'onapi {rng.choice(["ReadConsoleOutputW", "ReadConsoleOutputW", "GetConsoleScreenBufferInfo"])} {rng.randint(1, 6)} ' + more(rng.choice([1, 1, 2, 3, h, 20]))]
                lines += ['bgapp ' + more(1)] * rng.choice([0, 1]) + ['adv 25', 'drain conout'] * 4
                if rng.random() < .4:
                    lines += look()
            lines += look()
        elif f in 'as':                           # output is only ever added, sometimes a lot at a time
            if f == 's':
                h = m['h'] = min(h, 5)
            fl = rng.choice([0, 0, 2, 6])
            m.update(append=True, plain=fl != 0, color=fl == 6)
            lines = start(w, h, fl, 1, o)
            if rng.random() < .5:
                lines = ['preempt %d' % rng.choice([1, 2, 5]), f'seed {rng.randrange(1 << 30)}'] + lines
            for _ in range(steps if f == 'a' else 6):
                room = 2000
                for _ in range(rng.randint(1, 4)):
                    o, room = addop(rng, w, h, room, f == 's', fl == 0)
                    k = rng.random()
                    lines += [('bgapp ' if k < .4 else f'onapi {rng.choice(APIS)} {rng.randint(1, 8)} ' if k < .6 else 'app ') + o]
                    if rng.random() < .5:
                        lines += ['adv 25', 'drain conout']
                lines += ['adv 25', 'drain conout'] * 4 + look()
        else:                                     # characters that must not be sent as they are
            lines = start(w, h, 0, 1, o)
            for _ in range(steps):
                lines += [f'app wfill {rng.randrange(w - 2)} {rng.randrange(h)} {rng.randint(1, 3)} {rng.choice(list(range(0, 33)) + [127, 128, 155, 159, 0xfffe, 0xffff, 0xfeff, 0x2028])} {rattr(rng)}']
                if rng.random() < .5:
                    some(rng, lines, w, h)
                lines += look()
        sc[f'{f}{i}'], meta[f'{f}{i}'] = lines, m
    return sc, meta
