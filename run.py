#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--only substring] [--replay file]"""
import os, sys, tempfile, shutil, atexit, importlib, json
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
_scratch = tempfile.mkdtemp(prefix='symx-')
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_scratch, ignore_errors=True))
os.environ['MPLCONFIGDIR'] = _scratch
os.environ['SYMX_SCRATCH'] = _scratch
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.setrecursionlimit(20000)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    from symx import runner
    mod = importlib.import_module('checks.' + a.prop.lower())
    hs = mod.harnesses(a.tier)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as f:
            known = json.load(f)['findings']
    if a.replay:
        return runner.replay(a.prop, hs, a.replay)
    return runner.run_property(a.prop, hs, a.tier, a.seed, known, getattr(mod, 'NOTE', ''), budget=600 if a.tier == 'quick' else 3000)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
