"""Terminal input: scenarios for the real agent and mapping to InputTrace events."""
import random
from . import term

ESC = b'\x1b'


def to_trace(k, log, mode=1, plain=False, german=False, chunk=False, **_):
    ev, tok = [], term.Tok()
    base = next((e['now'] for e in log if e.get('now')), 0)

    def rec(r, e, rep=True):
        now = e['now'] - base
        if not ev or ev[-1]['e'] != 'rec' or ev[-1]['now'] != now or ev[-1]['r'][-1][0] == 'c':
            ev.append(dict(e='rec', now=now, r=[], rep=True))
        ev[-1]['r'].append(r)
        ev[-1]['rep'] = ev[-1]['rep'] and rep
    for e in log:
        t = e['ev']
        if t == 'in':
            ev.append(dict(e='in', b=list(bytes.fromhex(e['hex'])), now=e['now'] - base))
        elif t == 'key':
            rec(['k', int(e['down']), e['vk'], e['ch'], e['st']], e, e['rep'] == 1)
        elif t == 'mouse':
            rec(['p', e['x'], e['y'], e['btn'], e['wheel'], e['flags'], e['st']], e)
        elif t == 'keyMsg':
            good = e['rep'] == 1 and e['top'] == (0 if e['down'] else 3) and not e['frozen']
            rec(['m', int(e['down']), e['vk'] if good else -1], e)
        elif t == 'ctrlEvent':
            rec(['c'] if e['type'] == 0 and e['group'] == 0 and e['attached'] else ['c', 0], e)
        elif t in ('ctrlDeath', 'consoleMisuse', 'otherInput', 'inShort', 'fatal'):
            ev.append(dict(e='dead'))           # nothing in the specification allows this
        elif t == 'op' and e['op'] == 'inmode':
            ev.append(dict(e='mode', m=int(e['a'][0], 0)))
        elif t == 'out' and e['pipe'] == 'conout' and e.get('hex'):
            ks = [x for x in tok.feed(bytes.fromhex(e['hex'])) if x[0] in 'do']
            if ks:
                ev.append(dict(e='tok', k=ks))
        elif t == 'snap':
            if not e['alive']:
                ev.append(dict(e='dead'))
                break
            b = [b for b in e['bufs'] if b['active']][0]
            ev.append(dict(e='mode', m=e['inMode']))
            ev.append(dict(e='win', l=b['l'], t=b['t'], w=b['r'] - b['l'] + 1, h=b['b'] - b['t'] + 1))
        elif t == 'note' and e['text'] in ('settle', 'polled'):
            ev.append(dict(e='settle', polled=e['text'] == 'polled', now=e['now'] - base))
        elif t == 'note' and e['text'] == 'pass':
            ev.append(dict(e='pass'))
    return dict(id=k, cfg=dict(mode=mode, plain=plain, german=german, chunk=chunk), ev=ev)


# ---------------------------------------------------------------- pieces of scenarios
def feed(b, settle=True):
    return ['in ' + b.hex(), 'idle'] + (['drain conout', 'note settle'] if settle else [])


def pause(ms):
    return [f'adv {ms}', 'drain conout', 'note settle']


def setmode(m, wait=1200):
    return [f'adv {wait}', f'app inmode {m}', 'adv 60', 'drain conout', 'snap', 'note polled']


def begin(m=1, flags=0, w=80, h=25, extra=()):
    return term.start(w, h, flags, m, 'os 10 0 14393 1', extra) + ['snap']


def vocabulary():
    """Sequences over the shape of keys, whether they denote one or not."""
    out = [bytes([b]) for b in range(0, 128) if b != 27]
    letters = [bytes([c]) for c in range(0x40, 0x7f)]
    mods = b'2345678'
    for c in letters:
        out += [ESC + b'[' + c, ESC + b'O' + c]
        for m in mods:
            m = bytes([m])
            out += [ESC + b'[1;' + m + c, ESC + b'[' + m + c, ESC + b'O' + m + c, ESC + b'O1;' + m + c]
    for n in range(0, 40):
        for s in b'~$^@':
            s = bytes([s])
            out.append(ESC + b'[%d' % n + s)
            for m in b'123456789':
                out.append(ESC + b'[%d;' % n + bytes([m]) + s)
    for c in b'ABCDEFG':
        out.append(ESC + b'[[' + bytes([c]))
    return out


VOC = vocabulary()
COMMON = [ESC + b'[A', ESC + b'[D', ESC + b'[3~', ESC + b'[15~', ESC + b'OP', ESC + b'[1;5C', ESC + b'[24~', ESC + b'[H', ESC + b'OH', ESC + b'[Z', b'\x7f', ESC + b'\x7f', ESC + b'[[A', ESC + b'[6;3~', ESC + ESC + b'[A', ESC + ESC + b'OC']


def dsrlike(b):
    import re
    return re.search(rb'\x1b\[\d+;\d+R', b)


def letters(rng, n=None):
    return bytes(rng.choice(b'abcdefghijkmnopqrstuvwxyz') for _ in range(n or rng.choice([1, 1, 2, 3, 8])))


POINTS = [0x7f, 0x80, 0xa0, 0xe9, 0xf6, 0xb2, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x103ff, 0x10400, 0x10ffff]


def point(rng):
    k = rng.random()
    if k < .5:
        return rng.choice(POINTS)
    while True:
        c = rng.randrange(0x80, 0x800) if k < .65 else rng.randrange(0x800, 0x10000) if k < .85 else rng.randrange(0x10000, 0x110000)
        if not 0xd800 <= c < 0xe000:
            return c


def malformed(rng):
    k = rng.randrange(8)
    good = chr(point(rng)).encode('utf-8')
    if k == 0:
        return good[:rng.randint(1, max(1, len(good) - 1))] if len(good) > 1 else b'\xc3'
    if k == 1:
        return bytes([rng.randrange(0x80, 0xc0)])
    if k == 2:
        return bytes([rng.randrange(0xf8, 0x100)])
    if k == 3:      # overlong
        c = rng.choice([0, 3, 0x1b, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xffff])
        ways = ([bytes([0xc0 | c >> 6, 0x80 | c & 63])] if c < 0x80 else []) + ([bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])] if c < 0x800 else []) + [bytes([0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])]
        return rng.choice(ways)
    if k == 4:      # surrogates
        c = rng.choice([0xd800, 0xdbff, 0xdc00, 0xdfff])
        return bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    if k == 5:
        c = rng.choice([0x110000, 0x13ffff, 0x1fffff])
        return bytes([0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    if k == 6:      # a lead byte and not enough after it
        return bytes([rng.choice([0xc3, 0xe9, 0xe2, 0xf0, 0xf4])]) + bytes(rng.randrange(0x80, 0xc0) for _ in range(rng.randint(0, 2)))
    return bytes([rng.randrange(0x80, 0x100)])


def report(rng, w=80, h=25, near=None):
    x, y = near or rng.choice([(rng.randint(1, w), rng.randint(1, h)), (rng.randint(1, 4), rng.randint(1, 3)), (rng.choice([0, 1, w, w + 1, w + 40]), rng.choice([0, 1, h, h + 1, h + 40]))])
    b = rng.choice([0, 0, 0, 1, 2, 3, 64, 65, 66, 32, 33, 35, 34])
    f = b + (rng.choice([4, 8, 16, 28]) if rng.random() < .3 else 0)
    k = rng.random()
    if k < .5:
        if rng.random() < .1:
            x, y = -rng.randint(1, 30), -rng.randint(1, 9)
        return ESC + b'[<%d;%d;%d' % (f, x, y) + rng.choice([b'M', b'M', b'm'])
    if k < .75:
        return ESC + b'[%d;%d;%dM' % (f + 32, x, y)
    return ESC + b'[M' + bytes([f + 32, max(0, min(x, 220)) + 32, max(0, min(y, 220)) + 32])


BADMOUSE = [ESC + b'[<0;1M', ESC + b'[<;1;1M', ESC + b'[<0;1;1X', ESC + b'[0;1;1', ESC + b'[<0;12345678;1M', ESC + b'[<-1;2;3M', ESC + b'[<0;--2;3M', ESC + b'[32;1;1m', ESC + b'[<0;1;1;1M', ESC + b'[M\x1b[A', ESC + b'[<']


def answer(rng):
    return ESC + b'[%d;%dR' % (rng.choice([1, 1, 1, 5, 25, 300]), rng.choice([1, 2, 3, 8, 9, 80, 3000]))


# ---------------------------------------------------------------- families
def chunks(rng, b):
    k = rng.random()
    if k < .3:
        return [b[i:i + 1] for i in range(len(b))]
    if k < .5:
        n = rng.randint(2, 5)
        return [b[i:i + n] for i in range(0, len(b), n)]
    out, i = [], 0
    while i < len(b):
        n = rng.choice([1, 1, 2, 3, 5, 9, 40])
        out.append(b[i:i + n]); i += n
    return out


def piece(rng, mouse=True):
    k = rng.random()
    if k < .25:
        return letters(rng)
    if k < .5:
        return rng.choice(COMMON)
    if k < .65:
        return rng.choice(VOC)
    if k < .75:
        return chr(point(rng)).encode()
    if k < .8:
        return ESC + chr(rng.choice([97, 65, 64, 32, point(rng)])).encode()
    if k < .85:
        return malformed(rng)
    if k < .95 and mouse:
        return report(rng)
    return rng.choice([ESC, ESC + b'[', ESC + b'O', ESC + b'[1', ESC + b'[1;', ESC + b'[<0;', b'\x03', bytes([rng.randrange(256)])] + (BADMOUSE if mouse else []))


def f_chunk(rng):
    """I01: the same bytes several times, cut differently."""
    mouse = rng.random() < .6
    while True:
        s = b''.join(piece(rng, mouse) for _ in range(rng.choice([1, 2, 2, 3, 5, 8])))
        if not dsrlike(s):
            break
    m = (0x87 | rng.choice([0, 0x10, 0x200, 0x10])) & ~rng.choice([0, 1])
    lines = begin(rng.choice([1, 2])) + setmode(m)
    for n in range(rng.randint(3, 6)):
        lines += feed(ESC + b'[<3;1;1M', False)
        cs = [s] if n == 0 else chunks(rng, s)
        slow = rng.choice([0, 0, 10, 450 // len(cs) if mouse else 900, 900 if not mouse else 0])
        for c in cs:
            lines += feed(c, False)
            if slow and c is not cs[-1]:
                lines += ['adv %d' % slow]
        lines += ['adv 1300', 'drain conout'] + feed(ESC + b'[1;1R', False) + ['adv 1300', 'drain conout', 'note pass']
    return lines, {}


def f_order(rng):
    """I02: nothing lost, reordered, stuck; the status query."""
    plain = rng.random() < .15
    lines = begin(rng.choice([0, 1]), 2 if plain else 0, extra=[f'now {rng.choice([4294966000, 4294967000, 2147483000])}'] if rng.random() < .2 else [])
    lines += setmode(0x1f7 & ~0x17 | rng.choice([0x86, 0x87]))
    simple = COMMON[:4] + [ESC + b'[1;2', ESC + b'[12', ESC + b'[', ESC + b'O', ESC + b'[M', ESC + b'[5']
    for _ in range(rng.randint(6, 14)):
        k = rng.random()
        if k < .25:
            lines += feed(letters(rng))
        elif k < .4:
            lines += feed(rng.choice(simple))
        elif k < .5:
            lines += feed(ESC)
        elif k < .58:
            lines += feed(ESC + letters(rng))
        elif k < .65:
            lines += feed(ESC + ESC + rng.choice([b'', b'a', b'[', b'[A', ESC]))
        elif k < .85:
            a = answer(rng)
            if rng.random() < .3:
                for c in chunks(rng, a):
                    lines += feed(c) + ([f'adv {rng.choice([1, 100, 400])}'] if rng.random() < .2 else [])
            else:
                lines += feed(a + (letters(rng) if rng.random() < .3 else b''))
        elif k < .92:
            lines += feed(chr(point(rng)).encode()[:rng.randint(1, 3)])
        else:
            lines += feed(letters(rng) + malformed(rng) + letters(rng))
        if rng.random() < .5:
            lines += pause(rng.choice([1, 30, 500, 900, 990, 1010, 1110, 1200, 1200, 2500]))
    lines += pause(1200)
    return lines, dict(plain=plain)


def f_balance(rng):
    """I03."""
    g = rng.random() < .4
    lines = begin(1, extra=['osopt german 1'] if g else []) + setmode(rng.choice([0x86, 0x87, 0x96]))
    for _ in range(rng.randint(10, 25)):
        k = rng.random()
        b = rng.choice(VOC) if k < .4 else ESC + rng.choice(VOC) if k < .55 else piece(rng) if k < .8 else rng.choice([b'', ESC]) + (chr(rng.choice([64, 0x20ac, 123, 91, 0xb2, 0xf6, 0xc4, 0x1f600])).encode())
        lines += feed(b)
        if rng.random() < .2:
            lines += pause(rng.choice([10, 1200]))
    return lines + pause(1200), dict(german=g)


def f_mouse(rng):
    """I04."""
    mm = rng.choice([0, 1, 1, 2])
    w, h = rng.randint(5, 120), rng.randint(3, 40)
    lines = begin(mm, 0, w, h)
    for _ in range(rng.randint(2, 5)):
        lines += setmode(rng.choice([7, 0x87]) | rng.choice([0x10, 0x10, 0x90, 0x90, 0x90, 0xd0, 0x50, 0x80, 0xc0, 0x290]))
        if rng.random() < .4:
            lines += ['app write ' + term.hexw('x\r\n' * rng.randint(1, 80)), 'adv 60', 'drain conout', 'snap']
        pos = None
        for _ in range(rng.randint(3, 9)):
            b = report(rng, w, h, pos) if rng.random() < .85 else rng.choice(BADMOUSE + COMMON + [letters(rng)])
            if rng.random() < .5:
                pos = (rng.randint(1, w), rng.randint(1, h)) if pos is None or rng.random() < .3 else pos
            else:
                pos = None
            if rng.random() < .25:
                for c in chunks(rng, b):
                    lines += feed(c)
            else:
                lines += feed(b)
            if rng.random() < .4:
                lines += pause(rng.choice([10, 200, 480, 499, 500, 501, 1200]))
        if rng.random() < .6:      # clicks
            b, x, y = rng.randrange(3), rng.randint(1, w), rng.randint(1, h)
            for _ in range(rng.randint(2, 5)):
                lines += feed(ESC + b'[<%d;%d;%dM' % (b, x, y)) + ([f'adv {rng.choice([100, 240, 499, 500])}'] if rng.random() < .5 else [])
                lines += feed(ESC + b'[<%d;%d;%dm' % (b if rng.random() < .9 else (b + 1) % 3, x, y) if rng.random() < .7 else ESC + b'[M' + bytes([35, 32 + min(x, 200), 32 + min(y, 200)]))
    return lines + pause(1200), dict(mode=mm)


def f_interrupt(rng):
    """I05."""
    lines = begin(1, extra=['loginput 1'])
    m = 0x87
    lines += setmode(m)
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        if k < .35:
            m ^= 1
            lines += ['adv 1200', 'drain conout', 'note settle', f'app inmode {m}', rng.choice(['snap', 'adv 10', 'adv 60'])]
        s = b''.join(rng.choice([b'\x03', b'\x03', letters(rng), b'\x03\x03', ESC + b'\x03', ESC + b'[A', ESC + b'[', chr(point(rng)).encode(), b'\xc3\x03', ESC + b'[M \x03\x03'[:rng.randint(1, 9)], b'\x03' + ESC]) for _ in range(rng.randint(1, 4)))
        if s.count(b'\x03') and rng.random() < .25:
            m2 = m ^ 1
            lines += [f'onapi GenerateConsoleCtrlEvent {rng.randint(1, 2)} inmode {m2}']
            m = None
        for c in ([s] if rng.random() < .6 else chunks(rng, s)):
            lines += feed(c)
        if m is None:
            lines += pause(1200)
            m = 0x87
            lines += [f'app inmode {m}', 'adv 60']
    return lines + pause(1200) + ['snap'], {}


def f_text(rng):
    """I06."""
    g = rng.random() < .3
    lines = begin(1, extra=['osopt german 1'] if g else []) + setmode(rng.choice([0x86, 0x86, 0x286]))
    for _ in range(rng.randint(8, 20)):
        s = b''
        for _ in range(rng.randint(1, 5)):
            k = rng.random()
            s += chr(point(rng)).encode() if k < .4 else letters(rng) if k < .6 else malformed(rng) if k < .8 else ESC + chr(point(rng)).encode() if k < .9 else rng.choice([ESC + b'[A', ESC + malformed(rng), b'\x7f'])
        for c in ([s] if rng.random() < .6 else chunks(rng, s)):
            lines += feed(c, False)
        lines += ['drain conout', 'note settle']
        if rng.random() < .4:
            lines += pause(rng.choice([10, 1200]))
    return lines + pause(1200), dict(german=g)


def blocks(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def f_keys(rng, voc, esc, mode, german=False, vt=0):
    """I07 (I08 with terminal input): every sequence, one at a time."""
    lines = begin(1, extra=['osopt german 1'] if german else []) + setmode(mode)
    for b in voc:
        lines += feed((ESC if esc else b'') + b, False) + ['note settle']
    return lines + pause(1200), dict(german=german)


def f_vt(rng):
    """I08: switching between modes."""
    lines = begin(1)
    for _ in range(rng.randint(2, 5)):
        if rng.random() < .4:       # the mode changes while something is undecided
            lines += pause(1200) + feed(rng.choice([ESC, ESC + b'[', ESC + b'[1;', ESC + b'O', b'\xe2\x82', ESC + b'[<0;1']))
            lines += setmode(rng.choice([0x87, 0x287, 0x286, 0x296, 0x280]), rng.choice([1, 100, 600]))
        else:
            lines += setmode(rng.choice([0x87, 0x287, 0x286, 0x296, 0x280]))
        for _ in range(rng.randint(4, 12)):
            b = rng.choice([rng.choice(VOC), rng.choice(COMMON), ESC + rng.choice(VOC), letters(rng), chr(point(rng)).encode(), ESC + chr(point(rng)).encode()])
            lines += feed(b)
            if rng.random() < .2:
                lines += pause(rng.choice([10, 1200]))
    return lines + pause(1200), {}


FAMS = dict(I01=(f_chunk, 500), I02=(f_order, 500), I03=(f_balance, 400), I04=(f_mouse, 400), I05=(f_interrupt, 400), I06=(f_text, 450), I07=(None, 0), I08=(f_vt, 250))


def scenarios(seed, tier, prop):
    sc, meta = {}, {}
    fam, n = FAMS[prop]
    n *= 20 if tier == 'thorough' else 1
    rng = random.Random(f'in{seed}{prop}')
    if prop in ('I07', 'I08'):
        voc = [b for b in VOC if tier == 'thorough' or prop == 'I07' or len(b) < 3 or rng.random() < .4]
        for esc in (0, 1):
            for i, part in enumerate(blocks(voc, 60)):
                k = f'v{esc}{i}'
                sc[k], meta[k] = f_keys(rng, part, esc, 0x286 if prop == 'I08' else 0x86 | i % 2)
        chars = [chr(c).encode() for c in list(range(0x20, 0x7f)) + list(range(0xa0, 0x100)) + [0x20ac, 0x1f600, 0xffff]]
        for g in (0, 1):
            for esc in (0, 1):
                k = f'c{g}{esc}'
                sc[k], meta[k] = f_keys(rng, chars, esc, 0x286 if prop == 'I08' else 0x86, bool(g))
    if prop == 'I07':
        for i in range(60 * (20 if tier == 'thorough' else 1)):
            r = random.Random(f'in{seed}{prop}.{i}')
            k = f'x{i}'
            sc[k], meta[k] = f_keys(r, [b''.join(r.choice(VOC) for _ in range(r.randint(2, 4))) for _ in range(15)], 0, 0x86)
    for i in range(n):
        k = f'{i}'
        sc[k], meta[k] = fam(random.Random(f'in{seed}{prop}.{i}'))
        if prop in ('I02', 'I06') and i % 5 == 4:
            r = random.Random(f'ch{seed}{prop}.{i}')
            sc[k] = [f'chunk {r.choice([1, 2, 3])}'] + sc[k]
            meta[k]['chunk'] = True
    return sc, meta
