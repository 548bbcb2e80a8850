#!/usr/bin/env python3
"""Sensitivity of the checks: small changes of the sources against a part of every check's items.

mutate.py run FILE.. [--every N] [--log LOG]    screen all mutants of the given source files
mutate.py again LOG [--every N] [--log LOG2]    screen the survivors of a log again, with more items
                 [--checks P03,P04] [--secs S]  only these checks; the time for a space

This is a development aid; no check uses it.  A mutant that survives the part is to be run against the full checks.
"""
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]
sys.dont_write_bytecode = True
SC = '/dev/shm/vf-mut'
SRC = SC + '/base'                          # a copy of /repo/src
CHECKS = ['P%02d' % i for i in range(1, 28) if i not in (22, 23)]
MOST = 2                                    # stop when so many checks have noticed
SKIP = {('P05', 'early')}

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//.*|/\*.*?\*/|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+|\d+|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|->|[-+*/%&|^]=|\S|\s+')
ALT = {'<': ['<=', '>='], '<=': ['<'], '>': ['>=', '<='], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'],
       '++': ['--'], '--': ['++'], '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'], '|=': ['&=', '='], '&=': ['|='], '+=': ['-=', '='], '-=': ['+=', '='],
       '!': [''], 'true': ['false'], 'false': ['true'], 'break': [''], 'continue': ['break'], '^': ['|'], '%': ['/'], '*': ['/'], '~': ['']}


def mutants(path):
    """[(line number, new line)]"""
    out = []
    incomment = False
    lines = open(path, encoding='latin-1').read().split('\n')
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            if '*/' in l:
                incomment = False
            continue
        if s.startswith('/*') and '*/' not in s:
            incomment = True
            continue
        if not s or s[0] == '#' or s.startswith('//') or s.startswith('*') or s.startswith('extern'):
            continue
        toks = TOK.findall(l)
        for k, t in enumerate(toks):
            alts = ALT.get(t, [])
            if re.fullmatch(r'\d+|0[xX][0-9a-fA-F]+', t):
                v = int(t, 0) if not re.fullmatch(r'0\d+', t) else int(t, 8)
                f = hex if t[:2].lower() == '0x' else str
                alts = [f(v + 1)] + ([f(v - 1)] if v else [])
            elif re.fullmatch(r"'[^\\]'", t):
                alts = ["'%s'" % chr(ord(t[1]) ^ 1 if t[1] not in "'\\&]" else 122)]
            for a in alts:
                out.append((i, ''.join(toks[:k] + [a] + toks[k + 1:])))
        if re.match(r'^[^;{}]*[^;{}\s][^;{}]*;\s*(/\*.*\*/|//.*)?$', s) and not re.match(r'^(return|goto|break|continue|static|const|int|char|long|unsigned|else|case|default|if|for|while)\b', s):
            out.append((i, re.match(r'\s*', l)[0] + ';'))
        m = re.match(r'^(\s*(?:else\s+)?(?:if|while)\s*)\((.*)\)(\s*\{?\s*)$', l)
        if m:
            out.append((i, m[1] + '(0)' + m[3]))
            if 'while' not in m[1]:
                out.append((i, m[1] + '(1)' + m[3]))
        if 'case ' in s and s.endswith(':') and s.startswith('case'):
            out.append((i, ''))
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x))]


def sample(every):
    """[(check, [(space, items)])]: the first few and every n-th item of each space."""
    import itertools
    got = []
    for p in CHECKS:
        mod = importlib.import_module(p)
        per = []
        for sp in mod.spaces('quick'):
            if (p, sp.name) in SKIP or sp.name.startswith('scale') or p == 'P18' and sp.name == 'numbers':
                continue
            n = 0
            items = []
            for it in sp.items():
                n += 1
                items.append(it)
                if n > 400000:
                    break
            step = max(1, len(items) // every)
            per.append((sp, items[::step]))
        got.append((p, per))
    return got


def thin(part, every, secs):
    """Fewer items where one item is many runs."""
    import runner
    pool = runner.Pool({'dasm': (SC + '/w0/src/dasm', {}), 'ftohex': (SC + '/w0/src/ftohex', {})}, SC + '/w0/thin')
    out, total = [], 0
    for p, per in part:
        new = []
        for sp, items in per:
            keep = []
            st = runner.Stats()
            t0 = time.time()
            for it in items[::3] + items[1::3] + items[2::3]:
                runner.run_items(sp, [it], pool, st)
                keep.append(it)
                if st.cases > every * 2 or time.time() - t0 > secs:
                    break
            total += st.cases
            new.append((sp, keep))
        out.append((p, new))
    pool.close()
    print(total, 'runs', flush=True)
    return out


def memo():
    import common
    import refasm
    cache = {}
    real = refasm.assemble

    def assemble(files, main, **kw):
        k = (tuple(sorted((a, b) for a, b in files.items())), main, repr(sorted(kw.items())))
        r = cache.get(k)
        if r is None:
            r = cache[k] = real(files, main, **kw)
        return r
    refasm.assemble = assemble


def make(src, path):
    import build
    cc, cflags, ldflags = build.KINDS['plain']
    r = subprocess.run(['make', '-C', src, '-s', 'dasm', 'ftohex', 'CC=' + cc, 'CFLAGS=' + cflags, 'LDFLAGS=%s %s -Wl,--wrap=main%s' % (path + '/forksrv.o', ldflags, build.WRAP)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0


def content(src):
    return [open(os.path.join(src, n), 'rb').read() for n in ('dasm', 'ftohex')]


def screen(part, bins, root, full=False):
    """{check: (space, message)} for the checks that notice."""
    import runner
    hit = {}
    variants = {'dasm': (bins[0], {}), 'ftohex': (bins[1], {})}
    pool = runner.Pool(variants, root)
    pool.hung = True                        # believe the first time limit
    for p, per in part:
        for sp, items in per:
            bad = None
            for ch in runner.chunks(items, 64):
                st = runner.Stats()
                try:
                    runner.run_items(sp, ch, pool, st)
                except Exception as e:
                    bad = (sp.name, 'error ' + repr(e.__cause__ or e)[:200])
                    pool.close()
                    pool = runner.Pool(variants, root)
                    pool.hung = True
                    break
                if st.viol:
                    bad = (sp.name, st.viol[0][1][:200])
                    break
            if bad:
                hit[p] = bad
                break
        if len(hit) == MOST:
            break
    pool.close()
    return hit


def work(w, jobs, part, nxt, q):
    d = '%s/w%d' % (SC, w)
    src = d + '/src'
    base = content(src)
    while True:
        with nxt.get_lock():
            n = nxt.value
            nxt.value += 1
        if n >= len(jobs):
            break
        f, i, new = jobs[n]
        p = os.path.join(src, f)
        orig = open(os.path.join(SRC, f), encoding='latin-1').read()
        ls = orig.split('\n')
        ls[i] = new
        open(p, 'w', encoding='latin-1').write('\n'.join(ls))
        os.utime(p, (time.time() + 2, time.time() + 2))
        res = None
        for x in ('dasm', 'ftohex'):
            if os.path.exists(os.path.join(src, x)):
                os.remove(os.path.join(src, x))
        if not make(src, d):
            res = 'nobuild'
        elif content(src) == base:
            res = 'same'
        else:
            try:
                res = screen(part, [os.path.join(src, x) for x in ('dasm', 'ftohex')], d + '/run')
            except Exception as e:
                res = 'error ' + repr(e)[:200]
        q.put((n, res))
        open(p, 'w', encoding='latin-1').write(orig)
        os.utime(p, (time.time() + 2, time.time() + 2))
    q.put((None, None))


def main():
    args = sys.argv[2:]
    every, log = 60, '/tmp/pr/mutants.jsonl'
    files = []
    secs = 0.3
    while args:
        a = args.pop(0)
        if a == '--every':
            every = int(args.pop(0))
        elif a == '--secs':
            secs = float(args.pop(0))
        elif a == '--checks':
            CHECKS[:] = args.pop(0).split(',')
        elif a == '--log':
            log = args.pop(0)
        else:
            files.append(a)
    W = 8
    shutil.rmtree(SC, ignore_errors=True)
    os.makedirs(SC)
    shutil.copytree('/repo/src', SRC)
    if sys.argv[1] == 'again':
        jobs = [(r['file'], r['line'] - 1, r['new']) for r in map(json.loads, open(files[0])) if r['kind'] == 'SURVIVED']
    else:
        jobs = [(f, i, new) for f in files for i, new in mutants(os.path.join(SRC, f))]
    done = set()
    if os.path.exists(log):
        for l in open(log):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['new']))
    jobs = [j for j in jobs if (j[0], j[1] + 1, j[2]) not in done]
    print(len(jobs), 'mutants', flush=True)
    import build
    for w in range(W):
        d = '%s/w%d' % (SC, w)
        os.makedirs(d)
        os.chmod(d, 0o755)
        shutil.copytree(SRC, d + '/src', ignore=shutil.ignore_patterns('*.o', 'dasm', 'ftohex'))
        if w == 0:
            subprocess.check_call(['gcc', '-O2', '-w', '-DLIMIT_AS', '-c', os.path.join(VERIF, 'lib', 'forksrv.c'), '-o', d + '/forksrv.o'])
        else:
            shutil.copy(SC + '/w0/forksrv.o', d)
        assert make(d + '/src', d)
    os.chmod(SC, 0o755)
    memo()
    part = sample(every)
    print(sum(len(i) for p, per in part for s, i in per), 'items', flush=True)
    h = screen(part, [SC + '/w0/src/dasm', SC + '/w0/src/ftohex'], SC + '/w0/run')      # also fills the cache of model results
    assert not h, h
    part = thin(part, every, secs)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    nxt = ctx.Value('i', 0)
    ps = [ctx.Process(target=work, args=(w, jobs, part, nxt, q)) for w in range(W)]
    for p in ps:
        p.start()
    end = 0
    count = {}
    with open(log, 'a') as out:
        while end < W:
            n, res = q.get()
            if n is None:
                end += 1
                continue
            f, i, new = jobs[n]
            kind = res if isinstance(res, str) else 'caught' if res else 'SURVIVED'
            count[kind] = count.get(kind, 0) + 1
            out.write(json.dumps(dict(file=f, line=i + 1, new=new, old=open(os.path.join(SRC, f), encoding='latin-1').read().split('\n')[i], kind=kind, by=res if isinstance(res, dict) else None)) + '\n')
            out.flush()
    for p in ps:
        p.join()
    shutil.rmtree(SC, ignore_errors=True)
    print(count)


if __name__ == '__main__':
    main()
