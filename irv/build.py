"""Extraction of the code under verification: every run compiles /repo/src/*.c (unmodified) to LLVM IR."""
import os, re, subprocess, glob, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
DEFS = ['-std=gnu89', '-D_XOPEN_SOURCE=700', '-I%s/src' % REPO, '-I%s/units' % VERIF]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))


def sources():
    return sorted(glob.glob(REPO + '/src/*.c'))


def to_ir(src, out, std=None, extra=()):
    defs = list(DEFS)
    if std:
        defs[0] = std
    run(['clang-18'] + defs + ['-w', '-D__NO_CTYPE', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                              '-gline-tables-only', '-S', '-emit-llvm', src, '-o', out + '.0'] + list(extra))
    run([LLVM + 'opt', '-S', '-passes=mem2reg,sroa<preserve-cfg>', out + '.0', '-o', out])
    os.unlink(out + '.0')
    return out


def ir_all(bdir, only=None):
    os.makedirs(bdir, exist_ok=True)
    srcs = [s for s in sources() if only is None or os.path.basename(s) in only]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: to_ir(s, os.path.join(bdir, os.path.basename(s)[:-2] + '.ll')), srcs))
    return outs


def extract(bdir, unit):
    """types and macros the sources keep to themselves, copied mechanically into a header of the unit:
    //@ extract FILE.c NAME...   (struct NAME, typedef NAME, or #define NAME; NAME* takes all with that prefix)"""
    out = []
    for l in open('%s/units/%s.c' % (VERIF, unit)):
        m = re.match(r'//@\s+extract\s+(\S+)\s+(.*)', l)
        if not m:
            continue
        try:
            src = open('%s/src/%s' % (REPO, m.group(1))).read()
        except OSError as e:
            raise BuildError(str(e))
        src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
        src = re.sub(r'//[^\n]*', ' ', src)
        for nm in m.group(2).split():
            rx = re.escape(nm[:-1]) + r'\w*' if nm.endswith('*') else re.escape(nm)
            got = re.findall(r'^#[ \t]*define[ \t]+%s\b(?:\\\n|[^\n])*$' % rx, src, re.M)
            if not got:
                got = re.findall(r'^(?:struct[ \t]+%s\s*\{[^{}]*\}[^;{}]*;|typedef[^;{}]*\b%s;|typedef[ \t]+(?:struct|enum)\s*\w*\s*\{[^{}]*\}[^;{}]*\b%s;)' % (rx, rx, rx), src, re.M)
            if not got:
                raise BuildError('%s not found in %s' % (nm, m.group(1)))
            out += got
    os.makedirs(bdir, exist_ok=True)
    h = os.path.join(bdir, 'vp_extract_%s.h' % unit)
    with open(h, 'w') as f:
        f.write('\n'.join(out) + '\n')
    return ['-DVP_EXTRACT="%s"' % h]


def unit_ir(bdir, unit, extra=()):
    extra = list(extra) + extract(bdir, unit)
    return to_ir('%s/units/%s.c' % (VERIF, unit), os.path.join(bdir, 'unit_%s.ll' % unit), std='-std=gnu11', extra=extra)
