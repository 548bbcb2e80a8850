"""Build the tools under test from the current working tree of /repo.

The sources are copied to a scratch directory and built there with the
repository's own Makefile; nothing is written under /repo.
"""
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')

KINDS = {
    'plain': ('gcc', '-O1 -g0 -w', '-static'),
    'asan': ('clang', '-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,undefined '
             '-fno-sanitize-recover=undefined -fno-sanitize=function,pointer-overflow,signed-integer-overflow',
             '-fsanitize=address,undefined'),
    'msan': ('clang', '-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=memory', '-fsanitize=memory'),
}


WRAP = ' -Wl,--wrap=time -Wl,--wrap=gettimeofday -Wl,--wrap=clock_gettime -Wl,--wrap=getenv'


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('latin-1')[-4000:]))


def build(kind, scratch):
    """Returns {'dasm': path, 'ftohex': path}."""
    cc, cflags, ldflags = KINDS[kind]
    d = os.path.join(scratch, 'build-' + kind)
    os.makedirs(d)
    src = os.path.join(d, 'src')
    shutil.copytree(os.path.join(REPO, 'src'), src,
                    ignore=shutil.ignore_patterns('*.o', 'dasm', 'ftohex', '*.exe'))
    srv = os.path.join(d, 'forksrv.o')
    sh([cc, '-O2', '-w'] + (['-fsanitize=memory'] if kind == 'msan' else ['-DLIMIT_AS'] if kind == 'plain' else []) + ['-c', os.path.join(HERE, 'forksrv.c'), '-o', srv])
    sh(['make', '-C', src, '-j8', 'dasm', 'ftohex', 'CC=' + cc, 'CFLAGS=' + cflags,
        'LDFLAGS=%s %s -Wl,--wrap=main%s' % (srv, ldflags, WRAP if kind == 'plain' else '')])
    out = {}
    for n in ('dasm', 'ftohex'):
        os.rename(os.path.join(src, n), os.path.join(d, n))
        os.chmod(os.path.join(d, n), 0o755)
        out[n] = os.path.join(d, n)
    shutil.rmtree(src)
    return out
