#!/usr/bin/env python3
"""Make the planted bugs of tools/seeds.py in a scratch copy of /repo and write seeded/<id>/.

plant.py [--check] [--only ID,...]   --check also runs the property's own check on the copy
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds                                                       # noqa: E402

SC = '/tmp/vf-plant'
COPY = SC + '/repo'
RESULTS = os.path.join(HERE, 'caught.json')      # id -> outcomes in the order they were found, for DESIGN.md


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def script(name):
    t = open('/opt/vp/%s.sh' % name).read()
    t = t.replace('/opt/vp/build.sh', SC + '/build.sh').replace('/repo', COPY)
    p = '%s/%s.sh' % (SC, name)
    open(p, 'w').write(t)
    return p


def observe(s):
    """Output of the unchanged tree for a demonstration that expects 'auto'."""
    d = SC + '/observe'
    os.makedirs(d, exist_ok=True)
    open(d + '/a.asm', 'w', encoding='latin-1').write(s['asm'])
    r = sh('%s/_build/tree/bin/dasm a.asm %s -oo' % (COPY, s['args']), shell=True, cwd=d)
    assert r.returncode == 0, (s['id'], r.stdout)
    return open(d + '/o', 'rb').read().hex()


def notoriginal(diff):
    """Removed lines that are not of the original repository, or none removed at all."""
    root = sh(['git', '-C', COPY, 'rev-list', '--max-parents=0', 'HEAD']).stdout.decode().strip()
    path, n, removed, out = None, 0, 0, []
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            path = line[6:]
        elif line.startswith('@@'):
            n = int(line.split()[1][1:].split(',')[0])
        elif line.startswith('-') and not line.startswith('---'):
            b = sh(['git', '-C', COPY, 'blame', '-s', '--root', '-l', '-L', '%d,%d' % (n, n), 'HEAD', '--', path]).stdout.decode('latin-1')
            if b.lstrip('^').split()[0] != root:
                out.append('line %d of %s is not original' % (n, path))
            removed += 1
            n += 1
        elif line.startswith(' '):
            n += 1
    return out or ([] if removed else ['changes no original line'])


def main():
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    shutil.rmtree(SC, ignore_errors=True)
    os.makedirs(SC)
    sh(['cp', '-a', '/repo', COPY])
    build, test = script('build'), script('test')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh(['git', '-C', COPY, 'checkout', '--', '.'])
    bad = 0
    for s in seeds.SEEDS:
        if only and s['id'] not in only:
            continue
        d = os.path.join(VERIF, 'seeded', s['id'])
        sh(['git', '-C', COPY, 'checkout', '--', '.'])
        assert sh(['bash', build]).returncode == 0
        if s['expect'] == 'auto':
            s = dict(s, expect=observe(s))
        demo_text = seeds.demo(s)
        os.makedirs(d, exist_ok=True)
        demo = os.path.join(d, 'demo.sh')
        open(demo, 'w').write(demo_text)
        ok0 = sh(['bash', demo], cwd=COPY)
        msg = []
        for path, old, new in s['edits']:
            p = os.path.join(COPY, path)
            t = open(p, encoding='latin-1').read()
            if t.count(old) != 1:
                msg.append('edit matches %d times in %s: %r' % (t.count(old), path, old))
                continue
            open(p, 'w', encoding='latin-1').write(t.replace(old, new))
        diff = sh(['git', '-C', COPY, 'diff']).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        msg += notoriginal(diff.decode('latin-1'))
        b = sh(['bash', build])
        if b.returncode:
            msg.append('does not build')
        sh(['bash', test, SC + '/out.json'])
        lost = stable - set(json.load(open(SC + '/out.json'))['passed'])
        if lost:
            msg.append('tests fail: %s' % sorted(lost)[:4])
        ok1 = sh(['bash', demo], cwd=COPY, timeout=300)
        if ok0.returncode:
            msg.append('demo fails on the unchanged tree: %s' % ok0.stdout[-300:])
        if not ok1.returncode:
            msg.append('demo passes with the change')
        res = ''
        if '--check' in sys.argv:
            t0 = time.time()
            r = sh([sys.executable, VERIF + '/check.py', s['property'], '--tier', 'quick'], cwd=VERIF, env=dict(os.environ, VF_REPO=COPY, VF_EVIDENCE=SC + '/evidence'))
            v = b'VIOLATION property=%s ' % s['property'].encode() in r.stdout
            res = ('caught' if r.returncode == 1 and v else 'MISSED (%d)' % r.returncode) + ' %.0f s' % (time.time() - t0)
            if r.returncode not in (0, 1):
                res += r.stdout.decode('latin-1')[-600:]
            known = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
            h = known.setdefault(s['id'], [])
            word = res.split()[0].lower()
            if h[-1:] != [word]:
                h.append(word)
            json.dump(known, open(RESULTS, 'w'), indent=1, sort_keys=True)
        if msg:
            bad += 1
        print('%-12s %s %s %s' % (s['id'], s['property'], '; '.join(msg) or 'ok', res), flush=True)
    shutil.rmtree(SC, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
