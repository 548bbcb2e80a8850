"""The model against the repository's example sources and their reference binaries."""
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import refasm                                                     # noqa: E402


def norm(text):
    return [refasm.squeeze(l) for l in text.split('\n')]


def main(repo, dasm, verbose):
    bad = n = skipped = 0
    for root, _, names in sorted(os.walk(os.path.join(repo, 'test'))):
        for name in sorted(names):
            if not name.endswith('.asm') or os.path.basename(root) == 'selftest':
                continue
            path = os.path.join(root, name)
            rel = os.path.relpath(root, os.path.join(repo, 'test'))
            files = {}
            for r, _, ns in list(os.walk(root)) + list(os.walk(os.path.join(repo, 'machines'))):
                for x in ns:
                    full = os.path.join(r, x)
                    files[os.path.relpath(full, root)] = open(full, 'rb').read()
                    files[full] = files[os.path.relpath(full, root)]
            fmt = 3 if rel in ('atari2600', 'atari7800', 'channel-f') else 1
            inc = os.path.join(repo, 'machines', rel)
            args = ['-f%d' % fmt, '-DINEEPROM', '-I' + inc]
            defs = [('D', 'INEEPROM', '0')]
            if rel == 'cmdline_defs':
                args.append('-DRAM_START=0x60')
                defs.append(('D', 'RAM_START', '0x60'))
            with tempfile.TemporaryDirectory() as td:
                o, l, s = (os.path.join(td, x) for x in 'ols')
                r = subprocess.run([dasm, name] + args + ['-o' + o, '-l' + l, '-s' + s], cwd=root,
                                   stdout=subprocess.PIPE)
                rd = lambda x: open(x, 'rb').read() if os.path.exists(x) else None
                out, lst, sym = rd(o), rd(l), rd(s)
            n += 1
            try:
                m = refasm.assemble(files, name, fmt=fmt, defs=defs, incdirs=[inc], want_list=True)
            except refasm.Unsupported as e:
                skipped += 1
                print('%-40s unsupported: %s (real rc %d)' % (rel + '/' + name, e, r.returncode))
                continue
            msg = []
            if m.rc != r.returncode:
                msg.append('rc model %d real %d %s' % (m.rc, r.returncode, m.errors[:3]))
            if m.rc == 0 and r.returncode == 0:
                if m.out != out:
                    msg.append('output differs')
                a, b = norm(m.listing), norm(lst.decode('latin-1'))
                if a != b:
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    msg.append('listing line %d:\n  %r\n  %r' % (i, a[i:i + 1], b[i:i + 1]))
                a = sorted(refasm.squeeze(x[3]) for x in refasm.symbol_lines(m.syms))
                b = sorted(norm(sym.decode('latin-1'))[1:-2])
                if a != b:
                    msg.append('symbols: model only %r real only %r' % (sorted(set(a) - set(b))[:3], sorted(set(b) - set(a))[:3]))
            if m.rc == 0:
                want = '\n'.join(x for x in m.echo.split('\n'))
                if want not in r.stdout.decode('latin-1'):
                    msg.append('echo: %r / %r' % (want[:200], r.stdout[:200]))
            ref = os.path.join(root, name[:-4] + '.bin.ref')
            if os.path.exists(ref) and m.rc == 0 and rel != 'cmdline_defs':
                if open(ref, 'rb').read() != m.out:
                    msg.append('differs from the reference binary')
            if msg:
                bad += 1
                print('%-40s %s' % (rel + '/' + name, '; '.join(msg)))
            elif verbose:
                print('%-40s ok rc %d' % (rel + '/' + name, m.rc))
    print('%d sources, %d disagree, %d not modelled' % (n, bad, skipped))
    return 1 if bad else 0


def setup():
    """Build the tools once in a scratch directory and run the comparison."""
    import build
    with tempfile.TemporaryDirectory() as d:
        bins = build.build('plain', d)
        main('/repo', bins['dasm'], False)
    return 0


if __name__ == '__main__':
    if '--setup' in sys.argv:
        sys.exit(setup())
    sys.exit(main('/repo', sys.argv[1] if len(sys.argv) > 1 else '/repo/_build/tree/bin/dasm', '-v' in sys.argv))
