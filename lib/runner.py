"""Explores spaces of cases on the real program, in parallel.

A *space* is a deterministic, finite stream of items.  For each item the
space's script (a Python generator) yields lists of Case objects, is sent the
list of Results, and returns None (the property held) or a text saying how it
was violated.  Every item of the stream is run: worker w of W takes every W-th
chunk.
"""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

import build as buildmod

NOLIMIT = 0xffffffff
FSIZE = 64 << 20              # default limit on the size of any file a case writes
UID = 65534


class Case:
    __slots__ = ('prog', 'args', 'files', 'outs', 'cpu', 'fsize', 'flags')

    def __init__(self, args, files=(), outs=(), prog='dasm', cpu=1000, fsize=FSIZE, flags=0):
        self.prog = prog
        self.args = args          # after argv[0]
        self.files = files        # sequence of (name, bytes|str)
        self.outs = outs          # names of files to collect
        self.cpu = cpu
        self.fsize = fsize
        self.flags = flags


def enc(s):
    return s if isinstance(s, bytes) else s.encode('latin-1')


_p = struct.Struct('<I').pack


def pack(c, cpu):
    o = [_p(cpu), _p(c.fsize), _p(c.flags)]
    name = enc(c.prog.split(':')[0])
    o.append(_p(len(c.args) + 1))
    o.append(_p(len(name)))
    o.append(name)
    for a in c.args:
        a = enc(a)
        o.append(_p(len(a)))
        o.append(a)
    o.append(_p(len(c.files)))
    for n, d in c.files:
        n = enc(n)
        d = enc(d)
        o.append(_p(len(n)))
        o.append(n)
        o.append(_p(len(d)))
        o.append(d)
    o.append(_p(len(c.outs)))
    for n in c.outs:
        n = enc(n)
        o.append(_p(len(n)))
        o.append(n)
    return b''.join(o)


class Result:
    __slots__ = ('rc', 'out', 'err', 'files')
    # rc: exit status, or -signal; files: list of bytes or None, in the order of Case.outs

    def timeout(self):
        return self.rc in (-signal.SIGPROF, -signal.SIGALRM)


class Dead(Exception):
    pass


class Server:
    def __init__(self, binary, dirname, env):
        os.makedirs(dirname)
        os.chmod(dirname, 0o777)
        self.dir = dirname
        self.req = os.path.join(dirname, 'req.bin')
        self.res = os.path.join(dirname, 'res.bin')
        e = {'PATH': '/usr/bin:/bin', 'VF_SRV': '1', 'VF_UID': str(UID), 'LC_ALL': 'C'}
        e.update(env)
        self.p = subprocess.Popen([binary], cwd=dirname, env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def run(self, cases, cpus):
        with open(self.req, 'wb') as f:
            f.write(_p(len(cases)))
            for c, u in zip(cases, cpus):
                f.write(pack(c, u))
        self.p.stdin.write(b'x')
        self.p.stdin.flush()
        if self.p.stdout.read(1) != b'x':
            raise Dead('fork server died: %r' % self.p.stderr.read()[-2000:])
        with open(self.res, 'rb') as f:
            d = f.read()
        out = []
        u = struct.unpack_from
        done, = u('<I', d, 0)
        pos = 4

        def blob(pos):
            n, = u('<i', d, pos)
            pos += 4
            if n < 0:
                return None, pos
            return d[pos:pos + n], pos + n
        for c in cases[:done]:
            r = Result()
            st, = u('<I', d, pos)
            pos += 4
            r.rc = -(st & 0x7f) if st & 0x7f else (st >> 8) & 0xff
            r.out, pos = blob(pos)
            r.err, pos = blob(pos)
            n, = u('<I', d, pos)
            pos += 4
            r.files = []
            for _ in range(n):
                b, pos = blob(pos)
                r.files.append(b)
            out.append(r)
        return out

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Pool:
    """The servers of one worker: one per program variant, started on demand."""

    def __init__(self, bins, root):
        self.bins = bins          # variant -> (binary, env)
        self.root = root
        self.srv = {}
        self.hung = False
        self.n = 0

    def get(self, prog):
        s = self.srv.get(prog)
        if s is None:
            b, env = self.bins[prog]
            self.n += 1
            s = self.srv[prog] = Server(b, os.path.join(self.root, 'w%d' % self.n), env)
        return s

    def restart(self, prog):
        self.srv.pop(prog).close()
        return self.get(prog)

    def run(self, cases, slow=1, partial=False):
        """The results; None for the rest of the cases behind one that does not end, or (partial) if the results are very large."""
        res = [None] * len(cases)
        by = {}
        for i, c in enumerate(cases):
            by.setdefault(c.prog, []).append(i)
        for prog, idx in by.items():
            s = self.get(prog)
            while idx:
                try:
                    rr = s.run([cases[i] for i in idx], [cases[i].cpu * slow for i in idx])
                except Dead:
                    s = self.restart(prog)
                    rr = s.run([cases[idx[0]]], [cases[idx[0]].cpu * slow])
                for i, r in zip(idx, rr):
                    if r.timeout() and not self.hung:
                        # alone, with ten times the CPU limit, before believing it
                        r = s.run([cases[i]], [cases[i].cpu * 10])[0]
                    res[i] = r
                    if r.timeout():
                        self.hung = True
                        return res
                idx = idx[len(rr):]
                if partial and sum(len(r.out) + sum(len(b or b'') for b in r.files) for r in rr) > 100 << 20:
                    break
        return res

    def close(self):
        for s in self.srv.values():
            s.close()
        shutil.rmtree(self.root, ignore_errors=True)


class Space:
    def __init__(self, name, bound, items, script, chunk=64, weight=1, key=None):
        self.name = name
        self.bound = bound
        self.items = items        # callable -> iterator
        self.script = script      # item -> generator
        self.chunk = chunk
        self.key = key or (lambda it: repr(it))


class Stats:
    def __init__(self):
        self.items = 0
        self.cases = 0
        self.lines = 0
        self.states = set()
        self.viol = []
        self.ok0 = 0              # cases with exit status 0
        self.samples = []


def digest(c, r):
    h = hashlib.blake2b(digest_size=8)
    h.update(repr(r.rc).encode())
    for b in r.files:
        h.update(b'-' if b is None else b'+%d:' % len(b))
        if b:
            h.update(b)
    if not r.files:
        h.update(r.out)
    return int.from_bytes(h.digest(), 'little')


def run_items(space, items, pool, st, slow=1):
    live = []
    for it in items:
        g = space.script(it)
        try:
            cases = next(g)
        except StopIteration as e:
            st.items += 1
            if e.value:
                st.viol.append((it, e.value, []))
            continue
        except Exception as e:
            raise RuntimeError('%s item %s' % (space.name, space.key(it))) from e
        live.append([it, g, cases, []])
    partial = True
    while live:
        allc = [c for l in live for c in l[2]]
        res = pool.run(allc, slow, partial)
        st.cases += len(allc)
        pos = 0
        nxt = []
        partial = False
        for l in live:
            it, g, cases, hist = l
            rr = res[pos:pos + len(cases)]
            pos += len(cases)
            ended = [r for r in rr if r and r.rc < 0]
            if ended:
                # no input may do this, whatever the property
                st.items += 1
                hist.append(tuple(zip(*[(c, r) for c, r in zip(cases, rr) if r])))
                st.viol.append((it, 'ended by signal %d%s: %s' % (-ended[0].rc, ' (time limit)' if ended[0].timeout() else '', ended[0].err[-600:].decode('latin-1')), hist))
                continue
            if None in rr:
                nxt.append(l)               # not run yet
                continue
            partial = True
            for c, r in zip(cases, rr):
                st.states.add(digest(c, r))
                if r.rc == 0:
                    st.ok0 += 1
                for n, d in c.files:
                    st.lines += d.count('\n' if isinstance(d, str) else b'\n')
            hist.append((cases, rr))
            try:
                l[2] = g.send(rr)
                nxt.append(l)
            except StopIteration as e:
                st.items += 1
                if e.value:
                    st.viol.append((it, e.value, hist))
            except Exception as e:
                # the unchanged tools never give a result the script cannot read
                st.items += 1
                st.viol.append((it, 'unexpected result: %s' % ' '.join(traceback.format_exception(e)[-2:]), hist))
        if pool.hung and st.viol:
            return
        live = nxt


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def worker(w, W, spaces, bins, root, stop, deadline, q):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    signal.signal(signal.SIGTERM, lambda *a: os._exit(1))
    try:
        pool = Pool(bins, os.path.join(root, 'p%d' % w))
        out = []
        for si, sp in enumerate(spaces):
            st = Stats()
            complete = True
            t0 = time.time()
            for n, ch in enumerate(chunks(sp.items(), sp.chunk)):
                if (n + si) % W != w:
                    continue
                if stop.is_set() or time.time() > deadline:
                    complete = False
                    break
                run_items(sp, ch, pool, st)
                if len(st.samples) < 1 and ch:
                    st.samples.append(repr(ch[0])[:300])
                if len(st.viol) >= 3 or pool.hung and st.viol:
                    stop.set()
                    complete = False
                    break
            out.append((st, complete, time.time() - t0))
        pool.close()
        q.put((w, [(s.items, s.cases, s.lines, s.ok0, list(s.states),
                    [(v[0], v[1]) for v in s.viol[:3]], s.samples, comp, dt)
                   for s, comp, dt in out], None))
    except BaseException:
        q.put((w, None, traceback.format_exc()))
        stop.set()


def show(b, limit=2000):
    if b is None:
        return '(missing)'
    s = b.decode('latin-1') if isinstance(b, bytes) else str(b)
    if all(32 <= ord(ch) < 127 or ch in '\n\t\r' for ch in s):
        return s[:limit]
    return 'hex ' + (b if isinstance(b, bytes) else enc(b))[:limit].hex(' ')


def write_replay(path, prop, space, item, msg, hist):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write('property %s\nspace    %s (%s)\nitem     %s\n\n%s\n' %
                (prop, space.name, space.bound, space.key(item), msg))
        n = 0
        for cases, results in hist:
            for c, r in zip(cases, results):
                n += 1
                f.write('\n=== run %d: %s\n' % (n, ' '.join([c.prog] + [repr(a) if ' ' in str(a) else str(a) for a in c.args])))
                if c.fsize != FSIZE:
                    f.write('file size limit %d\n' % c.fsize)
                for name, d in c.files:
                    f.write('--- input %s\n%s\n' % (name, show(d, 6000)))
                f.write('--- exit status %s\n' % (r.rc,))
                f.write('--- stdout\n%s\n' % show(r.out))
                if r.err:
                    f.write('--- stderr\n%s\n' % show(r.err))
                for name, d in zip(c.outs, r.files):
                    f.write('--- output %s\n%s\n' % (name, show(d)))


def known(path, prop):
    """Open findings of a property: {(space, key): text}."""
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            d = json.loads(line[len('finding:'):])
            if d['property'] == prop:
                out[(d['space'], d['item'])] = d['what']
    return out


def explore(prop, tier, spaces, kinds, variants, verif, level, notes=(), deadline_s=None, workers=8):
    """kinds: builds needed; variants: {variant: (kind, tool, env)}"""
    t0 = time.time()
    if deadline_s is None:
        deadline_s = 780 if tier == 'quick' else 3 * 3600
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir=base)
    os.chmod(scratch, 0o755)
    try:
        return _explore(prop, tier, spaces, kinds, variants, verif, level, notes, t0,
                        t0 + deadline_s, scratch, workers)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _explore(prop, tier, spaces, kinds, variants, verif, level, notes, t0, deadline, scratch, W):
    try:
        built = {k: buildmod.build(k, scratch) for k in kinds}
    except buildmod.BuildError as e:
        print('cannot build /repo:', e, file=sys.stderr)
        return 2
    bins = {v: (built[k][tool], env) for v, (k, tool, env) in variants.items()}
    tb = time.time() - t0
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(w, W, spaces, bins, scratch, stop, deadline, q)) for w in range(W)]
    for p in ps:
        p.start()
    got = {}
    err = None
    while len(got) < W:
        try:
            w, r, e = q.get(timeout=5)
        except Exception:
            dead = [i for i, p in enumerate(ps) if not p.is_alive() and i not in got]
            if dead and q.empty():
                err = 'worker %s died' % dead
                break
            continue
        got[w] = r
        if e:
            err = e
            break
    for p in ps:
        if err:
            p.kill()
        p.join()
    if err:
        print('internal error in the checking machinery:\n' + err, file=sys.stderr)
        return 2

    fnd = known(os.path.join(verif, 'KNOWN_FINDINGS.txt'), prop)
    seen_known = set()
    confirmed = []
    evdir = os.environ.get('VF_EVIDENCE') or os.path.join(verif, 'evidence')
    replaydir = os.path.join(evdir, 'replay', prop)
    shutil.rmtree(replaydir, ignore_errors=True)
    sp_ev = []
    states = set()
    tot = dict(items=0, cases=0, lines=0, ok0=0)
    exhaustive = True
    unrepro = 0
    nrep = 0
    for si, sp in enumerate(spaces):
        rows = [got[w][si] for w in range(W)]
        ss = set()
        for r in rows:
            ss.update(r[4])
        states |= ss
        items, cases, lines, ok0 = (sum(r[i] for r in rows) for i in range(4))
        tot['items'] += items
        tot['cases'] += cases
        tot['lines'] += lines
        tot['ok0'] += ok0
        comp = all(r[7] for r in rows)
        exhaustive = exhaustive and comp
        samples = [s for r in rows for s in r[6]][:2]
        sp_ev.append(dict(space=sp.name, bound=sp.bound, items=items, executions=cases,
                          end_states=len(ss), statements=lines, successes=ok0, complete=comp,
                          max_worker_s=round(max(r[8] for r in rows), 1), samples=samples))
        for it, msg in [v for r in rows for v in r[5]]:
            k = (sp.name, sp.key(it))
            if k in fnd:
                seen_known.add(k)
                continue
            if len(confirmed) >= 4:
                continue
            # replay alone, in fresh servers, with longer limits
            ok = None
            for attempt in range(3):
                nrep += 1
                pool = Pool(bins, os.path.join(scratch, 'r%d' % nrep))
                st = Stats()
                try:
                    run_items(sp, [it], pool, st, slow=4)
                finally:
                    pool.close()
                if st.viol:
                    ok = st.viol[0]
                    break
            if ok is None:
                unrepro += 1
                print('note: not reproducible, not reported: %s %s: %s' % (sp.name, sp.key(it)[:200], msg), file=sys.stderr)
                continue
            path = os.path.join(replaydir, '%s-%d.txt' % (sp.name, len(confirmed) + 1))
            write_replay(path, prop, sp, it, ok[1], ok[2])
            confirmed.append((path, sp.name, sp.key(it), ok[1]))
    wall = time.time() - t0
    samples = ['%s: %s' % (e['space'], s) for e in sp_ev for s in e['samples']][:12]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=dict(states=len(states), transitions=tot['lines'],
                            traces_validated_against_impl=tot['items'],
                            executions=tot['cases'], successful_assemblies=tot['ok0'],
                            exhaustive=exhaustive, spaces=sp_ev, samples=samples or ['-'],
                            build_s=round(tb, 1)),
              wall_s=round(wall, 1),
              assumptions=list(notes),
              violations=len(confirmed))
    if confirmed:
        ev['coverage']['violations'] = [dict(space=s, item=k[:500], message=m[:1000], replay=p)
                                        for p, s, k, m in confirmed]
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.rename(tmp, os.path.join(evdir, prop + '.json'))
    for k, what in fnd.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s %s: %d items, %d executions, %d end states, %d statements, %s, %.1f s' % (
        prop, tier, tot['items'], tot['cases'], len(states), tot['lines'],
        'complete' if exhaustive else 'INCOMPLETE', wall))
    if os.environ.get('VF_SHOW'):
        for e in sp_ev:
            print('   %-28s items %8d runs %8d ok %8d states %7d  %6.1f s%s' % (
                e['space'], e['items'], e['executions'], e['successes'], e['end_states'],
                e['max_worker_s'], '' if e['complete'] else ' incomplete'))
    for p, s, k, m in confirmed:
        print('%s/%s: %s' % (s, k[:300], m.split('\n')[0][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    return 1 if confirmed else 0
