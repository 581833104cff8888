"""Runs scenarios in the native harness and returns their logs."""
import json
import os
import shutil
import subprocess
import tempfile
from . import build


class HarnessError(Exception):
    pass


def run(scenarios, need=('agent', 'lib'), san='', timeout=60, jobs=None, keep=None):
    """scenarios: {id: [command lines]} -> ({id: [event dicts]}, {id: abnormal ending})."""
    b = build.build(need, san)
    d = keep or tempfile.mkdtemp(prefix='winpty-scn.')
    os.makedirs(d, exist_ok=True)
    try:
        with open(f'{d}/scenarios', 'w') as f:
            for k, lines in scenarios.items():
                f.write(f'## {k}\n' + '\n'.join(lines) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1')
        p = subprocess.run([f'{b}/harness', f'{b}/agent.so' if 'agent' in need else '-', f'{b}/winpty.so' if 'lib' in need else '-',
                            f'{d}/scenarios', f'{d}/out', str(jobs or os.cpu_count()), str(timeout), f'{b}/adapter.so' if 'adapter' in need else '-'],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env)
        if p.returncode not in (0, 1):
            raise HarnessError(f'harness failed ({p.returncode}): {p.stderr[-2000:]}')
        bad = {}
        for l in p.stdout.splitlines():
            w = l.rsplit(' ', 2)
            bad[w[0]] = f'{w[1]} {w[2]}'
        logs = {}
        for k in scenarios:
            fn = f'{d}/out/{k}.ndjson'
            if not os.path.exists(fn):
                raise HarnessError(f'no log for scenario {k} ({bad.get(k)}): {p.stderr[-2000:]}')
            with open(fn, errors='replace') as f:
                lines = f.readlines()
            try:
                logs[k] = json.loads('[' + ','.join(lines) + ']')
            except ValueError:          # something wrote over the log
                logs[k] = []
                for l in lines:
                    try:
                        logs[k].append(json.loads(l))
                    except ValueError:
                        logs[k].append(dict(ev='fatal', why='garbled'))
            if k in bad and bad[k].split()[1] in ('9', '2', '127'):
                raise HarnessError(f'scenario {k}: {bad[k]}: {p.stderr[-2000:]}')
        return logs, bad
    finally:
        if not keep:
            shutil.rmtree(d)


# ---------------------------------------------------------------- wire helpers (shared/Buffer.cc encoding)
def i32(v): return b'\0' + (v & 0xffffffff).to_bytes(4, 'little')
def i64(v): return b'\1' + (v & 0xffffffffffffffff).to_bytes(8, 'little')


def wstr(s):
    d = s.encode('utf-16-le', 'surrogatepass')
    return b'\2' + (len(d) // 2).to_bytes(8, 'little') + d


def frame(p): return (len(p) + 8).to_bytes(8, 'little') + p


def hexw(s): return s.encode('utf-16-be', 'surrogatepass').hex() or '-'


def decode(h):
    """Payload hex -> list of fields, or None if it is not well formed."""
    b = bytes.fromhex(h)
    out, i = [], 0
    while i < len(b):
        t = b[i]
        i += 1
        if t == 0 and i + 4 <= len(b):
            out.append(int.from_bytes(b[i:i + 4], 'little', signed=True)); i += 4
        elif t == 1 and i + 8 <= len(b):
            out.append(('q', int.from_bytes(b[i:i + 8], 'little'))); i += 8
        elif t == 2 and i + 8 <= len(b):
            n = int.from_bytes(b[i:i + 8], 'little'); i += 8
            if i + 2 * n > len(b):
                return None
            out.append(b[i:i + 2 * n].decode('utf-16-le', 'surrogatepass')); i += 2 * n
        else:
            return None
    return out
