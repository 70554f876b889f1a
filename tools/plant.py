#!/usr/bin/env python3
"""plant.py SPEC.py: makes /verif/seeded/<id>/ for each entry of SEEDS and confirms it (tests pass, demo fails with the
patch and passes without it, which checks catch it). Works on /repo itself and undoes every change."""
import json
import os
import shutil
import subprocess
import sys

REPO = '/repo'
PY = '/opt/venv-pypy/bin/python'
BASE = '71831dd'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(spec, only=None):
    ns = {}
    exec(open(spec).read(), ns)
    base = json.load(open('/opt/vp/BASELINE.json'))
    for key in ('passed', 'pass', 'stable', 'tests'):
        if key in base:
            base = base[key]
            break
    base = set(base)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join('/verif/seeded', s['id'])
        assert not sh('git -C %s status --porcelain' % REPO).stdout.strip()
        try:
            ok = True
            for path, old, new in s['edits']:
                p = os.path.join(REPO, path)
                text = open(p, encoding='utf-8', newline='').read()
                crlf = '\r\n' in text
                text = text.replace('\r\n', '\n')
                if text.count(old) != 1:
                    print(s['id'], 'BAD EDIT', path, text.count(old), repr(old))
                    ok = False
                    continue
                # only lines of the original
                blame = sh('git -C %s blame -s %s' % (REPO, path)).stdout.splitlines()
                newtext = text.replace(old, new)
                open(p, 'w', encoding='utf-8', newline='').write(newtext.replace('\n', '\r\n') if crlf else newtext)
            if not ok:
                continue
            diff = subprocess.run('git -C %s diff' % REPO, shell=True, stdout=subprocess.PIPE).stdout.decode('utf-8')
            blames = {}
            cur = None
            ln = 0
            orig = False
            removed = 0
            for l in diff.split('\n'):
                if l.startswith('--- a/'):
                    cur = l[6:]
                    blames[cur] = [b.split(')')[0] for b in sh('git -C %s blame -s HEAD -- %s' % (REPO, cur)).stdout.splitlines()]
                elif l.startswith('@@'):
                    ln = int(l.split()[1].split(',')[0][1:])
                elif l.startswith('-') and not l.startswith('---'):
                    removed += 1
                    if blames[cur][ln - 1].startswith('^'):
                        orig = True
                    else:
                        print(s['id'], 'touches a line of a fix:', l)
                    ln += 1
                elif l.startswith(' '):
                    ln += 1
            t = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
            o = json.load(open('/tmp/seed_o.json'))
            for key in ('passed', 'pass', 'stable', 'tests'):
                if key in o:
                    o = o[key]
                    break
            missing = sorted(base - set(o))
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w', newline='', encoding='utf-8').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# exits 0 when the property holds\nd="$(cd "$(dirname "$0")" && pwd)"\n'
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv-pypy/bin/python "$d/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            bad = sh('bash %s/demo.sh' % d, cwd=REPO)
            caught = []
            for pid in [s['prop']] + s.get('also', []):
                r = sh('./check.sh %s quick' % pid, cwd='/verif')
                if r.returncode == 1 and 'VIOLATION property=%s' % pid in r.stdout:
                    caught.append(pid)
                elif r.returncode != 0:
                    print(s['id'], 'check', pid, 'exit', r.returncode, r.stdout[-500:])
        finally:
            sh('git -C %s checkout -- .' % REPO)
        good = sh('bash %s/demo.sh' % d, cwd=REPO)
        fine = orig and not missing and bad.returncode != 0 and good.returncode == 0
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks'],
                       caught_by=', '.join(caught) or 'NOT CAUGHT'), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('%s %s orig=%s missing=%s demo patched=%d clean=%d caught=%s' % (
            'OK ' if fine else 'BAD', s['id'], orig, missing[:3], bad.returncode, good.returncode, caught))
        if good.returncode:
            print(good.stdout[-800:])
        if bad.returncode == 0:
            print('patched demo passed:', bad.stdout[-300:])
        if not fine:
            shutil.rmtree(d)
        sh("rm -f /tmp/tmp????????")


main(sys.argv[1], sys.argv[2:])
