"""Builds a driver from /repo's working tree.

The set of sources is the closure of the driver's #includes (foo.h brings in
foo.cc); when that does not link, everything under /repo/iamf is compiled.
Output goes to /verif/build (ignored by git)."""
import glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SHIM = os.path.join(VERIF, 'shim')
GEN = os.path.join(BUILD, 'gen')

INC_RE = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def all_sources():
    res = []
    for p in glob.glob(f'{REPO}/iamf/**/*.cc', recursive=True):
        r = os.path.relpath(p, REPO)
        if re.search(r'/tests?/|_test\.cc$|_fuzz|_benchmark|_main\.cc$', r):
            continue
        res.append(p)
    return sorted(res)


def closure(driver_srcs):
    by_stem = {}
    for s in all_sources():
        by_stem.setdefault(os.path.basename(s)[:-3], []).append(s)
    dirs = [GEN + '/proto', SHIM, REPO, REPO + '/iamf/include', VERIF + '/drivers']
    seen, srcs, todo = set(), [], list(driver_srcs)
    protos = False
    text = {}
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f.endswith('.cc'):
            srcs.append(f)
        for inc in INC_RE.findall(open(f, errors='replace').read()):
            if inc.startswith('iamf/cli/proto/'):
                protos = True
                continue
            cands = [os.path.join(d, inc) for d in dirs] + [os.path.join(os.path.dirname(f), inc)]
            p = next((c for c in cands if os.path.isfile(c)), None)
            if p is None or not (p.startswith(REPO) or p.startswith(VERIF)):
                continue
            if p.startswith(SHIM):
                continue
            todo.append(os.path.normpath(p))
            if p.startswith(REPO) and inc.endswith('.h'):
                todo += by_stem.get(os.path.basename(inc)[:-2], [])
    return srcs, protos


LIBS = None


def libs():
    global LIBS
    if LIBS is None:
        a = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a')) or \
            sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))
        LIBS = ['-Wl,--start-group'] + [x for x in a if 'test' not in x and 'gmock' not in x] + \
               ['-Wl,--end-group', '-lprotobuf', '-lexpat', '-lpthread']
    return LIBS


PCH = '''#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/log/log.h"
#include "absl/log/check.h"
'''


def gen():
    rc, out = sh([sys.executable, f'{SHIM}/gen.py', REPO, GEN])
    if rc:
        raise BuildError('shim/gen.py: ' + out[-3000:])


def brief(out):
    return '\n'.join(x[:400] for x in out.splitlines() if not re.match(r'\[\d+/\d+\] |g\+\+ |FAILED: ', x))[:2500]


def build(name, srcs, defines=(), opt='-O0', san=False, everything=False):
    """Builds drivers/<srcs> with what they need; returns the binary's path."""
    os.makedirs(BUILD, exist_ok=True)
    gen()
    drv = [os.path.join(VERIF, 'drivers', s) for s in srcs]
    for full in ((True,) if everything else (False, True)):
        if full:
            files, protos = drv + all_sources(), True
        else:
            files, protos = closure(drv)
        if protos:
            files = files + sorted(glob.glob(f'{GEN}/proto/iamf/cli/proto/*.pb.cc'))
        files.append(f'{SHIM}/stubs/codec_stubs.cc')
        rc, out = ninja(name, files, drv, defines, opt, san)
        if rc == 0:
            return f'{BUILD}/{name}'
        print(f'build of {name} ({"everything" if full else "closure"}) failed:\n{brief(out)}', file=sys.stderr)
    raise BuildError(f'{name} does not build')


def ninja(name, files, drv, defines, opt, san):
    cxx = os.environ.get('VERIF_CXX', 'g++')
    ccache = 'ccache ' if os.environ.get('VERIF_CCACHE') and shutil.which('ccache') else ''
    flags = ['-std=c++20', opt, '-w', '-D_GLIBCXX_ASSERTIONS', '-fno-strict-aliasing'] + [f'-D{d}' for d in defines]
    if san:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-g1']
    flags += [f'-I{GEN}/absl', f'-I{GEN}/proto', f'-I{SHIM}', f'-I{REPO}', f'-I{REPO}/iamf/include',
              '-I/usr/include/eigen3', f'-I{VERIF}/drivers']
    tag = hashlib.sha1(' '.join(flags + [cxx]).encode()).hexdigest()[:10]
    odir = f'{BUILD}/obj-{tag}'
    os.makedirs(odir, exist_ok=True)
    pch = f'{odir}/verif_pch.h'
    if not os.path.exists(pch):
        open(pch, 'w').write(PCH)
    F = ' '.join(flags)
    use_pch = not ccache
    L = [f'rule pch\n  command = {cxx} {F} -x c++-header $in -o $out',
         f'rule cc\n  command = {ccache}{cxx} {F} {"-include " + pch if use_pch else ""} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
         f'rule link\n  command = {cxx} {"-fsanitize=address,undefined" if san else ""} @$out.rsp -o $out\n  rspfile = $out.rsp\n  rspfile_content = $in {" ".join(libs())}']
    if use_pch:
        L.append(f'build {pch}.gch: pch {pch}')
    objs = []
    for f in files:
        o = f'{odir}/' + os.path.relpath(f, '/').replace('/', '_') + '.o'
        objs.append(o)
        L.append(f'build {o}: cc {f}' + (f' | {pch}.gch' if use_pch else ''))
    L.append(f'build {BUILD}/{name}: link ' + ' '.join(objs))
    nf = f'{BUILD}/{name}.ninja'
    open(nf, 'w').write('\n'.join(L) + f'\nbuilddir = {odir}\n')
    return sh(['ninja', '-f', nf, f'{BUILD}/{name}'])


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2:]))
