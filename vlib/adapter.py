"""The Unix adapter between a simulated terminal and a scripted session."""
import random
import re
from .harness import hexw

H = lambda s: (s if isinstance(s, bytes) else s.encode()).hex() or '-'
IFLAG = {'BRKINT': 2, 'INPCK': 0x10, 'ISTRIP': 0x20, 'ICRNL': 0x100, 'IXON': 0x400, 'IGNBRK': 1, 'IGNPAR': 4, 'PARMRK': 8, 'INLCR': 0x40, 'IGNCR': 0x80, 'IXANY': 0x800, 'IXOFF': 0x1000, 'IMAXBEL': 0x2000, 'IUTF8': 0x4000}
OFLAG = {'OPOST': 1, 'ONLCR': 4, 'OCRNL': 8, 'ONOCR': 0x10, 'ONLRET': 0x20, 'OFILL': 0x40}
CFLAG = {'CSTOPB': 0x40, 'CREAD': 0x80, 'PARENB': 0x100, 'PARODD': 0x200, 'HUPCL': 0x400, 'CLOCAL': 0x800}
LFLAG = {'ISIG': 1, 'ICANON': 2, 'ECHO': 8, 'ECHOE': 0x10, 'ECHOK': 0x20, 'ECHONL': 0x40, 'NOFLSH': 0x80, 'TOSTOP': 0x100, 'ECHOCTL': 0x200, 'IEXTEN': 0x8000}
names = lambda v, t: sorted(k for k, b in t.items() if v & b)
DIRS = ['/bin', '/usr/bin/', '/usr/local/bin', '/cygdrive/c/Windows', '', '.', '/home/a b/bin']
EXTS = ['.exe', '.EXE', '.com', '.bat', '.Cmd', '', '', '.sh']


def units(s):
    b = s.encode('utf-16-le', 'surrogatepass')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def unhexw(h):
    b = bytes.fromhex(h)
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def win(p):
    if p.startswith('/cygdrive/') and len(p) > 10:
        return p[10].upper() + ':' + p[11:]
    return 'C:/cygwin' + p if p.startswith('/') else p


def word(r):
    if r.random() < 0.1:
        return ''.join(r.choice(['\\', '"', ' ', 'a']) for _ in range(r.randrange(30, 80)))
    return ''.join(r.choice(['\\', '\\', '"', '"', ' ', '\t', 'a', 'b', '/c', '\u00e9', '\U0001f600', '\n', "'", '-', '%X%', '^', '$', '\\\\']) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9])))


class Scene:
    def __init__(self, r, options=(), words=None):
        self.r = r
        self.meta = dict(argv=[], dirs=[], files=[], tty=[0, 1, 2], shared=False, size=[80, 25], why='', barred=False, excused=False, unopened=False, debug='', show='', modes=[0x4502, 5, 0xbf, 0x800b])
        self.lines = [f'seed {r.randrange(1, 10 ** 9)}', 'agentmode mock', 'uenv TERM ' + H('xterm')]
        self.options, self.words = list(options), words

    def file(self, ask, real, x=True):
        self.meta['files'].append([ask, real, win(real), x])
        self.lines.append(f'ufile {H(ask)} {H(real)}' + ('' if x else ' no'))

    def simple(self):
        self.dirs(['/bin'])
        self.file('/bin/cmd', '/cygdrive/c/Windows/cmd.exe')
        self.words = ['cmd'] + (self.words or [])

    def dirs(self, d):
        self.meta['dirs'] = d
        self.lines.append('uenv PATH ' + H(':'.join(d)))

    def launch(self, name='x', spawn='good', quota=(0, 0), auto=True):
        argv = self.options + (self.words or [])
        self.meta['argv'] = argv
        err = int('-Xconerr' in self.options[:self.options.index('--')] if '--' in self.options else '-Xconerr' in self.options)
        self.lines += ['uadapter ' + ' '.join(H(a) for a in argv), 'idle', f'mkpipes {name} {err} {quota[0]} {quota[1]}', 'mk connect', f'mk setup {name} {err}']
        if auto:
            self.lines += [f'mkauto {spawn}']
        return self

    def add(self, *l):
        self.lines += l
        return self


def blob(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def amount(r):
    return r.choice([1, 1, 2, 5, 17, 100]) if r.random() < 0.93 else r.choice([4095, 4096, 4097, 9000, 12288])


def relay(r, early=False):
    """Traffic in both directions, until something ends it."""
    s = Scene(r)
    L = s.lines
    if r.random() < 0.35:
        s.options.append('-Xconerr')
    if r.random() < 0.2:
        s.options.append('-Xplain')
    if r.random() < 0.2:
        s.options.append('--mouse')
    if r.random() < 0.3:
        L.append('ushared'); s.meta['shared'] = True
    if r.random() < 0.15:
        gone = r.sample([0, 1, 2], r.choice([1, 1, 2, 3]))
        L += [f'unotty {f}' for f in gone]
        s.meta['tty'] = [f for f in (0, 1, 2) if f not in gone]
        if r.random() < 0.8:
            s.options.append('-Xallow-non-tty')
        else:
            need = [0, 1] + ([2] if '-Xconerr' in s.options else [])
            s.meta['barred'] = any(f in gone for f in need)
    r.shuffle(s.options)
    m = s.meta['modes'] = [r.choice([0x4502, 0x4502, 0, 0x7fff & r.randrange(1 << 15)]), r.choice([5, 5, 4, 1, 0x7d]), r.choice([0xbf, 0xbf, 0xaf, 0x9f, 0x1bf, 0x3af, 0xfbf]), r.choice([0x800b, 0x800b, 0, 0x83fb])]
    L.append('umodes ' + ' '.join(map(str, m)))
    if r.random() < 0.3:
        s.meta['size'] = r.choice([[1, 1], [20, 5], [200, 60], [0, 0], [0, 25], [80, 0], [500, 300]])
        L.append('usize %d %d' % tuple(s.meta['size']))
    for c, p, v in (('umaxw', .3, [1, 3, 100]), ('umaxr', .3, [1, 2, 50]), ('ueintr', .4, [2, 3, 10]), ('uyield', .6, [2, 3, 5]), ('upipecap', .3, [1, 2, 16]), ('preempt', .4, [2, 5, 20])):
        if r.random() < p:
            L.append(f'{c} {r.choice(v)}')
    if r.random() < 0.3:
        L.append('unorestart')
    if r.random() < 0.2:
        L.append(f'completion {r.randrange(2)}')
    err = '-Xconerr' in s.options
    fds = [(1, 'conout')] + ([(2, 'conerr')] if err else [])
    s.simple()
    if r.random() < 0.15:                           # typed and resized while it is still starting
        L.append('utype ' + H(blob(r, 5)))
    big = r.random() < 0.12
    quota = (r.choice([0, 0, 0, 1, 7, 64]), r.choice([0, 0, 0, 1, 7, 64])) if not big else (0, 0)
    s.launch(quota=quota, auto=False)
    conc = 'bg ' if r.random() < 0.6 else ''
    busy = False
    if r.random() < 0.25:
        c, w = r.choice([(100, 40), (81, 25), (80, 26), (2, 2), (0, 0)])
        L.append(f'{r.choice(["", conc])}uwinch {c} {w}')
    L.append('mkauto')
    if r.random() < 0.7:
        L.append('idle')
    if r.random() < 0.3:
        L += ['idle', 'ustat']
    size = amount if big else (lambda r: r.choice([1, 1, 2, 3, 9, 30]))
    limited = set()
    for _ in range(r.choice([1, 3, 6, 12])):
        k = r.random()
        if k < 0.3:
            L.append(f'{conc}utype {blob(r, size(r)).hex()}')
        elif k < 0.62:
            L.append(f'{conc}pw {r.choice(fds)[1]} {blob(r, size(r)).hex()}')
        elif k < 0.72:
            L.append(f'{conc}uwinch {r.choice([1, 2, 40, 80, 81, 132, 0, 300])} {r.choice([1, 2, 24, 25, 50, 0])}')
        elif k < 0.77:
            f = r.choice(fds)[0]
            L.append(f'uroom {f} {r.choice([0, 1, 3])}'); limited.add(f)
        elif k < 0.82 and limited:
            f = limited.pop()
            L += ([] if conc else ['idle']) + [f'{conc}uroom {f} all']
        elif k < 0.87:
            L.append('rd conin')
        else:
            L.append('idle')
            if r.random() < 0.5 and not conc:
                L.append('ustat')
    if r.random() < 0.5:
        L += ['idle', 'ustat']
    for f in limited if r.random() < 0.7 else []:
        L.append(f'uroom {f} all')
    end = r.choice(['exit', 'exit', 'exit', 'hup', 'inerr', 'outfail', 'cut', 'die', 'both', 'none', 'errclose'])
    code = r.choice([0, 1, 7, 255, 256, 3221225786, 259])
    if 'idle' not in L[L.index('mkauto'):]:
        L.append('idle')
    last = [f'{conc}pw {r.choice(fds)[1]} {blob(r, size(r)).hex()}' for _ in range(r.choice([0, 1, 3]))]
    if end in ('exit', 'both'):
        L += [f'{conc}childexit {code}'] + last + [f'{conc}close {p}' for _, p in r.sample(fds, len(fds))]
    if end in ('hup', 'both'):
        L.append(f'{conc}utype {blob(r, size(r)).hex()}' if r.random() < 0.5 else 'idle')
        L += [f'{conc}uhup'] + last
    if end == 'inerr':
        L += [f'{conc}uinerr {r.choice([5, 9, 22])}'] + last
    if end == 'outfail':
        f, p = r.choice(fds)
        L += [f'{conc}uoutfail {f} {r.choice([5, 28, 32])} {r.choice([0, 1, 5])}', f'{conc}pw {p} {blob(r, r.choice([1, 9])).hex()}'] + last
    if end == 'cut':
        L += ['idle', f'{conc}close conin', f'{conc}utype {blob(r, size(r)).hex()}'] + last
    if end == 'errclose' and err:
        L += last + [f'{conc}close conerr']
    if end == 'die':
        L += last + [f'{conc}close conout', f'{conc}close conin', f'{conc}childexit {code}']
    L += ['idle', 'ustat']
    if r.random() < 0.2:
        L += [f'{conc}pw conout {blob(r, 3).hex()}', f'{conc}utype {H(b"zz")}', f'{conc}uwinch 90 30', 'idle', 'ustat']
    for f, _ in fds:
        L.append(f'uroom {f} all')
    L += ['idle', 'ustat']
    return s


def argvs(r):
    """What is started for which arguments."""
    s = Scene(r)
    L = s.lines
    if r.random() < 0.3:
        s.meta['debug'] = 'hello'
        L.append('uenv WINPTY_DEBUG ' + H('hello'))
    if r.random() < 0.3:
        s.meta['show'] = '1'
        L.append('uenv WINPTY_SHOW_CONSOLE ' + H('1'))
    opts = []
    for o, p in (('--mouse', .3), ('-Xconerr', .3), ('-Xplain', .3), ('-Xcolor', .3), ('-Xallow-non-tty', .2)):
        if r.random() < p:
            opts.append(o)
    r.shuffle(opts)
    k = r.random()
    if k < 0.1:
        opts.insert(r.randrange(len(opts) + 1), r.choice(['-x', '--', '--mousee', '-', '--help', '-h', '--version', '---', '-Xcon', '--showkey', '--Mouse']))
    elif k < 0.3:
        opts.append('--')
    n = r.choice(['cmd', 'a b', 'prog.exe', 'PROG.EXE', 'x.bat', 'y.Com', 'run', '-z', '--help', 'x.sh', '\u00e9t\u00e9', '.exe'])
    dirs = r.sample(DIRS, r.randrange(1, 4))
    s.dirs(dirs)
    spawn, name = 'good', n
    where = r.random()
    if where < 0.25:                                # a path
        name = r.choice(['./', '/opt/x y/', '.\\', 'sub/', '/cygdrive/d/']) + n
        if r.random() < 0.75:
            s.file(name, r.choice(['/opt/x y/', '/cygdrive/d/', '/a/']) + n + r.choice(EXTS))
        else:
            pass
    else:
        seen = set()
        for d in dirs:
            if r.random() < 0.6:
                ask = (d if not d or d.endswith('/') else d + '/') + n
                if ask in seen:
                    continue
                seen.add(ask)
                real = r.choice([ask if ask.startswith('/') else '/cwd/' + ask, '/usr/lib/' + n, '/cygdrive/c/P F/' + n]) + r.choice(EXTS)
                s.file(ask, real, r.random() < 0.8)
                if r.random() < 0.5:
                    e = real + '.exe'
                    s.file(e, e, r.random() < 0.9)
    s.words = [name] + [word(r) for _ in range(r.choice([0, 1, 2, 2, 5]))] if r.random() < 0.96 else []
    s.options = opts
    k = r.random()
    if k < 0.1:
        err = r.choice([2, 5, 193, 4242])
        spawn = f'cpfail {err}'
        s.meta['excused'], s.meta['why'] = True, ('error text %d' % err if err != 4242 else '0x%x' % err)
    elif k < 0.14:
        L.append('agenterr 2')
        s.meta['excused'] = s.meta['unopened'] = True
    s.launch(spawn=spawn)
    L += ['idle', 'utype 04', 'idle', 'ustat', 'childexit 3', 'close conout', 'idle', 'ustat']
    return s


def scenarios(seed, tier, prop):
    k = 12 if tier == 'thorough' else 1
    sc, meta = {}, {}
    for name, fn, n in (('r', relay, 420), ('a', argvs, 420 if prop == 'U02' else 120)):
        if prop == 'U02' and name == 'r':
            n = 150
        for i in range(n * k):
            r = random.Random(f'adapter{seed}{name}{i}')
            s = fn(r)
            sc[f'{name}{i}'], meta[f'{name}{i}'] = s.lines, s.meta
    return sc, meta


def mode(i, o, c, l, mn, tm):
    return dict(i=names(i, IFLAG), o=names(o, OFLAG), c=names(c, CFLAG), l=names(l, LFLAG), size=5 + (c >> 4 & 3), min=mn, time=tm)


def ints(h):
    return list(bytes.fromhex(h))


PIPES = {'out': 1, 'err': 2}


def fields(b):
    """The fields of a control message."""
    i, f = 0, []
    while i < len(b):
        t = b[i]
        if t == 0:
            f.append(int.from_bytes(b[i + 1:i + 5], 'little')); i += 5
        elif t == 1:
            f.append(int.from_bytes(b[i + 1:i + 9], 'little')); i += 9
        else:
            n = int.from_bytes(b[i + 1:i + 9], 'little') * 2
            f.append(unhexw(b[i + 9:i + 9 + n].hex())); i += 9 + n
    return f


def to_trace(k, log, **meta):
    c = dict(meta)
    c['argv'] = [units(a) for a in meta['argv']]
    c['dirs'] = [units(d) for d in meta['dirs']]
    c['files'] = [dict(ask=units(a), real=units(b), win=units(w), x=x) for a, b, w, x in meta['files']]
    c['why'] = list(meta['why'].encode())
    c['bytes'] = [list(a.encode()) for a in meta['argv']]
    c['debug'], c['show'] = units(meta['debug']), units(meta['show'])
    c['modes'] = mode(*meta['modes'], 4, 7)
    me, env, ev, child = None, {}, [], None
    put = lambda e, **a: ev.append(dict(e=e, **a))
    for e in log:
        t = e['ev']
        if t == 'uenv':
            env = {a[2:]: b for a, b in e.items() if a.startswith('E_')}
        elif t == 'createProcess' and not ev_has(ev, 'agent'):
            me = e['by']
            f, m, cols, rows = (int(x) for x in e['cmd'].split()[-4:])
            put('agent', flags=f, mouse=m, c=cols, r=rows, term='TERM' in env, debug=units(env.get('WINPTY_DEBUG', '')), show=units(env.get('WINPTY_SHOW_CONSOLE', '')))
        elif t == 'wire' and e['dir'] == 'req':
            f = fields(bytes.fromhex(e['hex']))
            if f[0] == 0:
                put('start', flags=f[1], prog=f[4], cmd=f[5], cwd=f[6], envb=f[7])
            elif f[0] == 1:
                put('tell', c=f[1], r=f[2])
        elif t == 'mkSpawned':
            child = e['pid']
            put('up')
        elif t == 'utyped':
            put('typed', b=ints(e['hex']))
        elif t == 'uhup':
            put('hup')
        elif t == 'pio':
            p = pipe(e['pipe'])
            if e['up']:
                put('in', b=ints(e['hex']))
            else:
                put('said', p=PIPES[p], b=ints(e['hex']))
        elif t == 'pipeClose':
            p = pipe(e['pipe'])
            if p in PIPES and e['server']:
                put('ended', p=PIPES[p])
            elif p == 'in' and e['server']:
                put('cut')
            elif 'winpty-control' in e['pipe'] and e['server']:
                put('leave')
        elif t == 'ufd':
            put('show', p=e['fd'], b=ints(e['hex']))
        elif t == 'ufail':
            put('refuse', p=e['fd'])
        elif t == 'usize' and me:
            put('size', c=e['c'], r=e['r'])
        elif t == 'umode':
            put('mode', fd=e['fd'], m=mode(e['iflag'], e['oflag'], e['cflag'], e['lflag'], e['vmin'], e['vtime']))
        elif t == 'procExit' and e['pid'] == child:
            put('kid', code=str(e['code']))
        elif t == 'exitCall':
            put('exit', code=str(e['code']), how=e['how'])
        elif t == 'ustat':
            put('still', alive=e['alive'], deaf=e['full'], blocked=[i for i in (1, 2) if e[f'wait{i}']])
    return dict(id=k, cfg=c, ev=ev)


def ev_has(ev, name):
    return any(e['e'] == name for e in ev)


def pipe(n):
    m = re.search(r'pipe\\(in|out|err)-', n)
    return m.group(1) if m else ''
