"""Runs scenarios on the sources of the current directory (natively, against the simulated Win32 beside this file)."""
import os
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['VERIF_REPO'] = os.getcwd()
sys.path.insert(0, HERE)
from dl import build, harness  # noqa: E402
from dl.harness import hexw, frame, i32, i64, wstr, decode  # noqa: E402,F401
_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='demo.')
        build.BASE = f'{_tmp}/b'
        os.makedirs(build.BASE)
    return _tmp


def run(scenarios, need=('agent', 'lib')):
    scratch()
    return harness.run({k: [l for l in v.split('\n') if l.strip()] if isinstance(v, str) else v for k, v in scenarios.items()}, need)


def main(judge):
    """judge() returns a list of complaints."""
    try:
        bad = judge()
    finally:
        if _tmp:
            shutil.rmtree(_tmp)
    for b in bad:
        print('FAIL:', b)
    print('demo:', 'FAILED' if bad else 'ok')
    sys.exit(1 if bad else 0)
