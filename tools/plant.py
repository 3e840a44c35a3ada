"""plant.py SPECS.py [id...]: build seeded/<id>/ from specs and confirm each one in a scratch copy of /repo.

A spec is a dict: id, property, file, edits [(old, new)], demo (python source), needs, breaks.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SH = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=True, **k)


def plant(s):
    tmp = tempfile.mkdtemp(dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        edits = s['edits']
        for e in edits:
            f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', repo, 'diff'])
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        bad = []
        r = sh(os.path.join(d, 'demo.sh'), '/repo')
        if r.returncode:
            bad.append('demo fails on the clean tree: %s' % r.stdout.decode()[-300:])
        r = sh(os.path.join(d, 'demo.sh'), repo)
        if not r.returncode:
            bad.append('demo passes with the patch')
        # the tests, in the copy
        r = sh('PYTHONPYCACHEPREFIX=%s/pyc PATH=/opt/venv/bin:$PATH PYTHONPATH=%s timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 tests 2>&1 | tail -5' % (tmp, repo), repo)
        out = r.stdout.decode()
        if ' failed' in out or ' error' in out or ' passed' not in out:
            bad.append('tests: %s' % out[-400:])
        return bad
    finally:
        shutil.rmtree(tmp)


def main():
    specs = runpy.run_path(sys.argv[1])['SPECS']
    for s in specs:
        if sys.argv[2:] and s['id'] not in sys.argv[2:]:
            continue
        bad = plant(s)
        print(s['id'], 'OK' if not bad else bad, flush=True)


main()
