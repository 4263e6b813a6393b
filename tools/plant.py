"""Builds and verifies planted bugs.  plant.py SPEC.py [ids...]   (SPEC defines SEEDS: list of dicts id, property, file,
edits [(old,new),..] or list of (file,old,new), needs, breaks, demo)
For each: scratch copy of /repo under /tmp, apply, run the tests, the demo on both trees, optionally the check."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []))


def sh(cmd, cwd, t=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stdout + p.stderr


def one(s, check=True):
    d = tempfile.mkdtemp(prefix='seed-')
    out = dict(id=s['id'])
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        subprocess.run(['find', r, '-name', '__pycache__', '-prune', '-exec', 'rm', '-rf', '{}', '+'])
        dest = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(dest, exist_ok=True)
        with open(f'{dest}/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        with open(f'{dest}/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                    'export MPLCONFIGDIR=$(mktemp -d)\ntrap \'rm -rf "$MPLCONFIGDIR"\' EXIT\n'
                    'PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{dest}/demo.sh', 0o755)
        rc0, o0 = sh(['bash', f'{dest}/demo.sh'], r)
        for e in s['edits']:
            fn, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join(r, fn)
            t = open(p, encoding='utf-8', newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                out['error'] = f'{fn}: old text found {t.count(old)} times: {old[:60]!r}'
                return out
            open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
        rc, diff = sh(['git', 'diff'], r)
        p = subprocess.run(['git', 'diff'], cwd=r, capture_output=True)
        open(f'{dest}/patch.diff', 'wb').write(p.stdout)
        rc1, o1 = sh(['bash', f'{dest}/demo.sh'], r)
        out['demo'] = (rc0, rc1, (o0[-300:] if rc0 else '') + ' | ' + o1[-200:])
        rc, o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-x', '--basetemp', d + '/t', 'tests'], r)
        out['tests'] = (rc, o.strip().split('\n')[-1], [l for l in o.split('\n') if l.startswith('FAILED')][:3])
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{dest}/meta.json', 'w'), indent=1)
        if check and rc0 == 0 and rc1 != 0 and rc == 0:
            w = os.path.join(d, 'verif')
            shutil.copytree(HERE, w, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'out', '__pycache__'))
            os.makedirs(w + '/evidence'); os.makedirs(w + '/out')
            rc, o = sh([PY, 'run.py', s['property']], w, env=dict(VERIF_REPO=r))
            out['check'] = (rc, [l for l in o.split('\n') if 'VIOLATION' in l][:2])
    except Exception as ex:
        out['error'] = repr(ex)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    spec = importlib.util.spec_from_file_location('seedspec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith('-')]
    seeds = [s for s in m.SEEDS if not want or s['id'] in want]
    nj = 2 if '--nocheck' not in sys.argv else 7
    with ThreadPoolExecutor(nj) as ex:
        for o in ex.map(lambda s: one(s, '--nocheck' not in sys.argv), seeds):
            ok = o.get('demo', (1, 0))[0] == 0 and o.get('demo', (1, 0))[1] not in (0, 'timeout') and o.get('tests', (1,))[0] == 0
            print(o['id'], 'VALID' if ok else 'INVALID', 'CAUGHT' if o.get('check', (0,))[0] == 1 else 'missed' if 'check' in o else '-', flush=True)
            if not ok or o.get('check', (1,))[0] != 1:
                print('    ', o)


main()
