"""Builds /repo's real sources (working tree) natively against the simulated Win32 of /verif/sim.

The list of source files comes from /repo's own subdir.mk files, so added or renamed files are followed.
Output goes to /verif/.build (ignored by git), keyed by a hash of everything that goes in.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BASE = os.path.join(VERIF, '.build')
WIN = '/usr/share/mingw-w64/include'

# what the Unix adapter gets from the simulation instead of the C library
UNIX = ('read write pipe pipe2 close fcntl fcntl64 select pselect poll isatty ioctl tcgetattr tcsetattr sigaction signal pthread_join pthread_self getenv realpath access '
        'vfprintf fprintf printf puts fputs fwrite putchar fputc putc perror fflush mbstowcs wcstombs').split()

COMMON = ['-fshort-wchar', '-fms-extensions', '-w', '-D_GLIBCXX_ASSERTIONS', '-fPIC', '-fno-strict-aliasing',
          '-D_WIN32', '-D_WIN64', '-DUNICODE', '-D_UNICODE', '-O1', '-pthread']


def sources(part, var):
    text = open(f'{REPO}/src/{part}/subdir.mk', encoding='latin1').read().replace('\\\n', ' ')
    m = re.search(r'^' + var + r'\s*[:+]?=(.*)$', text, re.M)
    out = []
    for o in m.group(1).split():
        rel = o.split('/', 2)[2]            # build/<target>/<dir>/<file>.o
        out.append(f'{REPO}/src/' + rel[:-2] + '.cc')
    return out


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for root in (f'{REPO}/src', SIM):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    h.update(open(f'{REPO}/VERSION.txt', 'rb').read())
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])


def build(parts=('agent', 'lib'), san=''):
    """Returns the directory holding agent.so / winpty.so / harness (and unix-adapter parts)."""
    h = tree_hash(san)
    out = os.path.join(BASE, h)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BASE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _build(out, set(parts), san)
    return out


def _build(out, parts, san):
    gen = os.path.join(out, 'gen')
    os.makedirs(gen, exist_ok=True)
    with open(f'{gen}/GenVersion.h', 'w') as f:
        v = open(f'{REPO}/VERSION.txt').read().strip()
        f.write(f'const char GenVersion_Version[] = "{v}";\nconst char GenVersion_Commit[] = "none";\n')
    sanf = san.split() if san else []
    jobs, links = [], []
    inc = ['-include', f'{SIM}/pre.h', '-include', f'{REPO}/src/shared/PrecompiledHeader.h', f'-I{SIM}/inc', '-idirafter', WIN]
    for part, mk, var, defs, so in (
            ('agent', 'agent', 'AGENT_OBJECTS', ['-DWINPTY_AGENT_ASSERT', '-Dmain=agent_main'], 'agent.so'),
            ('lib', 'libwinpty', 'LIBWINPTY_OBJECTS', ['-DCOMPILING_WINPTY_DLL'], 'winpty.so'),
            ('adapter', 'unix-adapter', 'UNIX_ADAPTER_OBJECTS', ['-Dmain=adapter_main', '-U_FORTIFY_SOURCE', '-Dpthread_create=sim_pthread_create', '-include', 'limits.h', f'-I{SIM}/unix', '-fno-builtin'], 'adapter.so')):
        if part not in parts or os.path.exists(f'{out}/{so}'):
            continue
        objs = []
        for s in sources(mk, var):
            o = f'{out}/{part}-' + os.path.relpath(s, f'{REPO}/src').replace('/', '-')[:-3] + '.o'
            objs.append(o)
            if not os.path.exists(o):
                jobs.append(['g++', '-std=c++11', *COMMON, *sanf, *inc, '-D_WIN32_WINNT=0x0501', *defs, f'-I{REPO}/src/include', f'-I{gen}', '-c', s, '-o', o])
        wrap = ['exit', '_exit', 'abort', '__assert_fail'] + (UNIX if part == 'adapter' else [])
        links.append(['g++', '-shared', *sanf, '-Wl,-Bsymbolic', '-Wl,-z,lazy', '-Wl,' + ','.join(f'--wrap={f}' for f in wrap),
                      '-o', f'{out}/{so}', *objs])
    hobjs = []
    need_h = not os.path.exists(f'{out}/harness')
    for s in sorted(os.listdir(SIM)):
        if not s.endswith(('.cc', '.c')):
            continue
        o = f'{out}/h-{s}.o'
        hobjs.append(o)
        if need_h and not os.path.exists(o):
            if s.endswith('.c'):
                jobs.append(['gcc', '-O1', '-fPIC', '-fno-builtin', '-w', *sanf, '-c', f'{SIM}/{s}', '-o', o])
            else:
                jobs.append(['g++', '-std=c++17', *COMMON, *sanf, '-include', f'{SIM}/pre.h', f'-I{SIM}/inc', f'-I{SIM}', '-idirafter', WIN,
                             '-D_WIN32_WINNT=0x0601', f'-I{REPO}/src/include', f'-I{REPO}/src/shared', '-c', f'{SIM}/{s}', '-o', o])
    if need_h:
        links.append(['g++', *sanf, '-rdynamic', '-pthread', '-o', f'{out}/harness', *hobjs, '-ldl'])
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        for f in [ex.submit(run, j) for j in sorted(jobs, key=lambda j: 'sim' not in j[-3])]:
            f.result()
        for f in [ex.submit(run, l) for l in links]:
            f.result()


if __name__ == '__main__':
    try:
        print(build(('agent', 'lib', 'adapter'), san=' '.join(sys.argv[1:])))
    except BuildError as e:
        print(e)
        sys.exit(2)
