#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and writes /verif/seeded/<id>/.

usage: mkseed.py SPEC.py [--nocheck]     (SPEC defines ID, PROP, NEEDS, BREAKS, EDITS, DEMO)
"""
import json, os, re, subprocess, sys, shutil, tempfile
BASE = '31bb8f6'
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(fn, check=True):
    g = {}
    exec(open(fn).read(), g)
    sid = g['ID']
    work = tempfile.mkdtemp(prefix='seed.')
    try:
        r = work + '/repo'
        subprocess.run(['cp', '-a', REPO, r], check=True)
        d = work + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
        if 'serve(' in g['DEMO']:
            shutil.copy('/verif/tools/demo_web.py', d + '/demo_web.py')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# %s\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8 no_proxy="*"\n'
                                        'here=$(cd "$(dirname "$0")" && pwd)\nscratch=$(mktemp -d)\ncp "$here"/*.py "$scratch"\nrepo=$PWD\ncd "$scratch"\n'
                                        'REPO="$repo" timeout 250 /opt/venv/bin/python "$scratch/demo.py"\nrc=$?\ncd /\nrm -rf "$scratch"\nexit $rc\n'
                                        % g['BREAKS'].split('\n')[0])
        os.chmod(d + '/demo.sh', 0o755)

        def demo():
            return sh('bash %s/demo.sh' % d, cwd=r)
        a = demo()
        if a.returncode:
            print(sid, 'DEMO FAILS UNCHANGED', a.stdout[-1500:], a.stderr[-1500:])
            return 1
        for f, old, new in g['EDITS']:
            s = open(r + '/' + f).read()
            if s.count(old) != 1:
                print(sid, 'EDIT does not apply (%d)' % s.count(old), f, old)
                return 1
            open(r + '/' + f, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        # removed lines of the original
        own = []
        for f in sh('git diff --name-only', cwd=r).stdout.split():
            h = sh('git diff -U0 %s' % f, cwd=r).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', h, re.M):
                n0, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0:      # only lines added: look at the lines around them
                    n0, n = max(1, n0), 2
                b = sh('git blame -s -L %d,+%d %s..HEAD -- %s' % (n0, n, BASE, f), cwd=r).stdout
                own += [x for x in b.split('\n') if x and not x.startswith('^')]
        if own:
            print(sid, 'TOUCHES OWN LINES:', *own, sep='\n  ')
        b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; sed 's#/repo#%s#g' /opt/vp/check_build.py > %s/cb.py; cd %s && "
               "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python %s/cb.py" % (r, work, r, work, r, work))
        if b.returncode:
            print(sid, 'BUILD FAILS', b.stdout[-800:], b.stderr[-800:])
            return 1
        c = demo()
        if c.returncode == 0:
            print(sid, 'DEMO PASSES WITH CHANGE')
            return 1
        t = sh("sed 's#cd /repo#cd %s#' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/out.json" % (r, work, work, work))
        o = json.load(open(work + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable') or base.get('tests') or base.get('passed')
        passed = set(o.get('passed') or [k for k, v in o.get('tests', {}).items() if v == 'passed'])
        lost = [x for x in stable if x not in passed]
        if lost:
            print(sid, 'TESTS FAIL', lost[:6])
            return 1
        out = '/verif/seeded/' + sid
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        print(sid, 'kept')
        if check:
            x = sh('SYMX_REPO=%s python3-vt -m symx.run %s quick --budget 300' % (r, g['PROP']), cwd='/verif')
            lines = [l for l in x.stdout.split('\n') if l and not l.startswith('..')]
            print(sid, g['PROP'], 'CAUGHT' if x.returncode == 1 else 'MISSED rc=%d' % x.returncode, '|', '\n   '.join(lines[:4] + lines[-1:])[:700])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    rc = 0
    for a in sys.argv[1:]:
        if not a.startswith('-'):
            rc |= main(a, '--nocheck' not in sys.argv)
    sys.exit(rc)
