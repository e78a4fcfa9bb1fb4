"""Compile /repo's current sources to LLVM IR (and, for replay, to an interpreter).

Nothing under /repo is written: the headers CMake generates from
configure/UnicodeData.txt and src/kernel/system.cpp are regenerated here, by the
same sed/grep/awk rules as CMakeLists.txt, into the build directory.
"""
import hashlib
import os
import re
import subprocess
import sys
import glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VF_BUILD', os.path.join(HERE, 'build'))
CLANG = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
if not os.path.exists(CLANG):
    CLANG = 'clang++-18'
if not os.path.exists(OPT):
    OPT = 'opt'
JOBS = os.cpu_count() or 4


def repo_files():
    out = []
    for d in ('src', 'include', 'library', 'configure', 'script'):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                rel = os.path.relpath(p, REPO)
                if rel.startswith('include/meevax/unicode/') or rel == 'src/kernel/system.cpp':
                    if subprocess_ignored(rel):
                        continue
                out.append(p)
    out.append(os.path.join(REPO, 'VERSION'))
    return out


def subprocess_ignored(rel):
    # generated (git-ignored) files; regenerated here
    return rel == 'src/kernel/system.cpp' or re.match(r'include/meevax/unicode/(property|digit_value|upcase|downcase)\.hpp$', rel)


def tree_hash():
    h = hashlib.sha256()
    for p in repo_files():
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    with open(os.path.abspath(__file__), 'rb') as f:
        h.update(f.read())
    for p in sorted(glob.glob(os.path.join(HERE, 'harness', '*'))):
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(s)


_dir = None


def build_dir():
    global _dir
    if _dir is None:
        _dir = os.path.join(BUILD, tree_hash())
        os.makedirs(_dir, exist_ok=True)
        prune()
    return _dir


def prune(keep=3):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch(r'[0-9a-f]{20}', d)]
    ds.sort(key=lambda d: os.stat(d).st_mtime, reverse=True)
    import shutil
    import time
    for d in ds[keep:]:
        if d != _dir and time.time() - os.stat(d).st_mtime > 3600:
            shutil.rmtree(d, ignore_errors=True)


def overlay():
    """regenerate the generated sources"""
    d = build_dir()
    ov = os.path.join(d, 'ov')
    done = os.path.join(ov, ".done")
    if os.path.exists(done):
        return ov
    uni = open(os.path.join(REPO, 'configure/UnicodeData.txt')).read().splitlines()

    def field(n, fmt):
        out = []
        for ln in uni:
            f = ln.split(';')
            s = fmt % (f[0], f[n])
            if n != 2 and not re.search(r'case 0x.+: return (0x)?.+;' if n == 6 else r'case 0x.+: return 0x.+;', s):
                continue
            if n == 6 and not re.search(r'case 0x.+: return .+;', s):
                continue
            out.append(s)
        return '\n'.join(out) + '\n'
    # {01}/{06}/{11}/{12} further fields after the first -> index 2, 7, 12, 13
    def sed(n, hexv):
        out = []
        for ln in uni:
            f = ln.split(';')
            v = f[n + 1]
            if n != 1 and v == '':
                continue
            out.append('case 0x%s: return %s%s;' % (f[0], '0x' if hexv else '', v))
        return '\n'.join(out) + '\n'
    U = os.path.join(ov, 'include/meevax/unicode')
    write_if_changed(U + '/property.hpp', sed(1, False))
    write_if_changed(U + '/digit_value.hpp', sed(6, False))
    write_if_changed(U + '/upcase.hpp', sed(11, True))
    write_if_changed(U + '/downcase.hpp', sed(12, True))
    # system.cpp
    src = open(os.path.join(REPO, 'configure/system.cpp')).read()
    ver = open(os.path.join(REPO, 'VERSION')).read().replace('\n', '')

    def lib(name):
        p = os.path.join(REPO, 'library', name)
        a = subprocess.run(['awk', '-f', os.path.join(REPO, 'script/format.awk')], stdin=open(p), capture_output=True, text=True)
        return a.stdout
    vals = {
        'PROJECT_NAME': 'meevax', 'CMAKE_SYSTEM_PROCESSOR': os.uname().machine,
        'meevax_SYSTEM_NAME': 'linux', 'PROJECT_VERSION': ver, 'CMAKE_BUILD_TYPE': 'Release',
        'PROJECT_VERSION_MAJOR': ver.split('.')[0], 'PROJECT_VERSION_MINOR': (ver.split('.') + ['0'])[1], 'PROJECT_VERSION_PATCH': (ver.split('.') + ['0', '0'])[2],
        'CMAKE_INSTALL_PREFIX': '/usr/local', 'CMAKE_INSTALL_DATADIR': 'share', 'CMAKE_SHARED_LIBRARY_PREFIX': 'lib', 'CMAKE_SHARED_LIBRARY_SUFFIX': '.so',
        'CMAKE_CXX_COMPILER': 'g++', 'CMAKE_CXX_FLAGS': '', 'CMAKE_CXX_FLAGS_RELEASE': '',
    }

    def sub(s):
        prev = None
        while prev != s:
            prev = s
            def r(m):
                k = m.group(1)
                if k.endswith('.ss'):
                    return lib(k)
                return vals.get(k, '')
            s = re.sub(r'\$\{([A-Za-z_0-9.\-]+)\}', r, s)
        return s
    # first inner ${..} then outer
    src = re.sub(r'\$\{\$\{PROJECT_NAME\}_SYSTEM_NAME\}', 'linux', src)
    src = re.sub(r'\$\{([^${}]*)\}', lambda m: lib(m.group(1)) if m.group(1).endswith('.ss') else vals.get(m.group(1), ''), src)
    src = re.sub(r'@([A-Za-z_0-9.\-]+)@', lambda m: vals.get(m.group(1), m.group(0)), src)
    write_if_changed(os.path.join(ov, 'system.cpp'), src)
    open(done, 'w').close()
    return ov


def sources():
    out = sorted(glob.glob(os.path.join(REPO, 'src/*/*.cpp')) + glob.glob(os.path.join(REPO, 'src/*/*/*.cpp')))
    return [s for s in out if os.path.relpath(s, REPO) != 'src/kernel/system.cpp']


def flags():
    ov = overlay()
    return ['-std=c++20', '-DNDEBUG', '-fPIC', '-w', '-I' + ov + '/include', '-I' + REPO + '/include']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r.stdout


def ll_of(src):
    d = build_dir()
    rel = os.path.relpath(src, REPO) if src.startswith(REPO + '/') else os.path.basename(src)
    key = rel.replace('/', '__')
    return key, os.path.join(d, key + '.ll')


def compile_ll(src):
    key, out = ll_of(src)
    if os.path.exists(out):
        return key, out
    raw = out + '.%d.raw' % os.getpid()
    run([CLANG] + flags() + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm', src, '-o', raw])
    passes = 'function(sroa,simplifycfg,sroa)'
    if os.path.basename(src) == 'boot.cpp':
        passes = 'function(simplifycfg,sroa)'   # one huge function makes simplifycfg after sroa quadratic
    tmp = out + '.%d.tmp' % os.getpid()
    run([OPT, '-S', '-passes=' + passes, raw, '-o', tmp])
    os.unlink(raw)
    os.rename(tmp, out)
    return key, out


def names_of(paths):
    """[(key, path)] for repo-relative source names"""
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(compile_ll, paths))


def all_sources():
    return sources() + [os.path.join(overlay(), 'system.cpp')]


def load_program(srcs):
    """srcs: repo-relative paths or absolute harness paths"""
    from . import ir
    paths = [s if s.startswith('/') else os.path.join(REPO, s) for s in srcs]
    overlay()
    lst = names_of(paths)
    mods = [ir.Module(p, k) for k, p in lst]
    prog = ir.Program(mods)
    demangle_all(prog)
    return prog


def demangle_all(prog):
    names = sorted({nm for m in prog.modules for nm in m.funcs})
    r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt' if os.path.exists('/usr/lib/llvm-18/bin/llvm-cxxfilt') else 'c++filt'],
                       input='\n'.join(names) + '\n', capture_output=True, text=True)
    dem = r.stdout.split('\n')
    prog.dem = {n: clean(d) for n, d in zip(names, dem)}
    prog.bydem = {}
    for n, d in prog.dem.items():
        prog.bydem.setdefault(d, []).append(n)


def clean(d):
    d = d.replace('meevax::kernel::', 'meevax::').replace('meevax::memory::', 'meevax::')
    d = d.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
    d = re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string', d)
    return d


# ---------------------------------------------------------------- interpreter for replay
def interpreter():
    """Build the meevax shell from the current sources (g++, as the project's build does) and return its path."""
    d = build_dir()
    exe = os.path.join(d, 'meevax')
    if os.path.exists(exe):
        return exe
    ov = overlay()
    srcs = sources() + [os.path.join(ov, 'system.cpp'), os.path.join(REPO, 'src/main.cpp')]
    od = os.path.join(d, 'obj')
    os.makedirs(od, exist_ok=True)

    def one(s):
        key, _ = ll_of(s)
        o = os.path.join(od, key + '.o')
        if not os.path.exists(o):
            tmp = o + '.%d' % os.getpid()
            run(['g++'] + flags() + ['-O0' if s.endswith(('boot.cpp', 'system.cpp')) else '-O1', '-c', s, '-o', tmp])
            os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, srcs))
    tmp = exe + '.%d' % os.getpid()
    run(['g++', '-rdynamic', '-o', tmp] + objs + ['-lgmp', '-ldl'])
    os.rename(tmp, exe)
    return exe


if __name__ == '__main__':
    import time
    t = time.time()
    names_of(all_sources())
    print('ll', time.time() - t)
    t = time.time()
    print(interpreter(), time.time() - t)
