"""Builds the instrumented (symbolic) and the native replay binaries from /repo's current sources."""
import threading, hashlib, os, subprocess, glob, sys, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.environ.get('SX_BUILD', os.path.join(V, 'build'))
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else '/usr/lib/llvm-18/bin/clang++'
LLVM = '/usr/lib/llvm-18'
CXX = '/usr/bin/g++'
NPROC = os.cpu_count() or 8
INC = ['-I' + REPO + '/wicked', '-I' + V + '/engine', '-I' + V + '/harness', '-I' + V + '/harness/pyshim']
DEF = ['-DUSE_BOOST_1024_INT']
SYMFLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-fno-pie', '-include', V + '/engine/sxstd.h',
            '-D_GLIBCXX_ASSERTIONS', '-fno-vectorize', '-w']
RT = ['-include', V + '/engine/sxstd.h']

LOCK = threading.Lock(); LOCKS = {}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd)[-150:], '\n'.join([l for l in p.stdout.split('\n') if 'error' in l or 'undefined' in l][:12] or p.stdout.split('\n')[-20:])[:3000]))
    return p.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b'\0')
    return m.hexdigest()[:20]

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def once(out, make):
    """run make(tmp) unless out exists; atomic."""
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with LOCK: l = LOCKS.setdefault(out, threading.Lock())
        with l:
            if not os.path.exists(out):
                tmp = '%s.%d.tmp' % (out, os.getpid())
                make(tmp)
                os.rename(tmp, out)
    return out

def repo_sources():
    r = []
    for d in ('', 'helpers', 'algebra', 'diagrams'):
        r += sorted(glob.glob(os.path.join(REPO, 'wicked', d, '*.cc')))
    return r

def repo_headers_hash():
    hs = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'wicked'))):
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp')) or d.endswith('/api'): # harnesses include the binding files
                hs.append(os.path.relpath(os.path.join(d, f), REPO)); hs.append(rd(os.path.join(d, f)))
    return h(*hs)

def harness_hash():
    fs = sorted(glob.glob(V + '/harness/*.h') + glob.glob(V + '/engine/sx.h') + glob.glob(V + '/harness/shim/**/*.hpp', recursive=True) + glob.glob(V + '/harness/pyshim/pybind11/*.h'))
    return h(*[rd(f) for f in fs])

def tool_sxcc():
    src = V + '/engine/sxcc.cpp'
    out = '%s/sxcc-%s' % (BUILD, h(rd(src)))
    return once(out, lambda t: sh([CXX, '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18',
        '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', '-D_GNU_SOURCE', src, '-o', t, '-L' + LLVM + '/lib', '-lLLVM-18']))

def native_obj(src, flags, extra=''):
    out = '%s/o/%s-%s.o' % (BUILD, os.path.basename(src), h(rd(src), ' '.join(flags), extra))
    return once(out, lambda t: sh([CXX, '-std=c++20', '-w'] + flags + ['-c', src, '-o', t]))

def bitcode(src, flags, extra):
    out = '%s/bc/%s-%s.bc' % (BUILD, os.path.basename(src), h(rd(src), ' '.join(SYMFLAGS + flags), rd(V + '/engine/sxstd.h'), extra))
    return once(out, lambda t: sh([CLANG] + SYMFLAGS + flags + [src, '-o', t]))

def defined(bc):
    out = sh([LLVM + '/bin/llvm-nm', '--defined-only', '--format=just-symbols', bc])
    return out

def build(name, harness, defs=(), shim=False, only=None, native=False, tsan=False):
    """harness: source file in /verif/harness. only: list of repo source basenames (default all).
    returns (symbolic binary)"""
    pool = ThreadPoolExecutor(NPROC)
    hh = repo_headers_hash()
    inc = (['-I' + V + '/harness/shim'] if shim else []) + INC
    srcs = [s for s in repo_sources() if only is None or os.path.basename(s) in only]
    fl = inc + DEF + (['-DSX_SHIM'] if shim else [])
    sx = pool.submit(tool_sxcc)
    rts = [pool.submit(native_obj, V + '/engine/rt.cpp', RT + ['-O2', '-fno-pie'], h(rd(V + '/engine/rt.h')))]
    if not shim:
        rts += [pool.submit(native_obj, V + '/engine/rt_rational.cpp', RT + ['-O1', '-fno-pie'] + INC + DEF, hh + h(rd(V + '/engine/rt.h'))),
                pool.submit(native_obj, REPO + '/wicked/helpers/rational.cc', RT + ['-O1', '-fno-pie', '-Drational=nrational',
                    '-Dmake_rational_from_str=n_make_rational_from_str', '-Duse_boost_1024_int=n_use_boost_1024_int'] + INC + DEF, hh)]
    else:
        rts += [pool.submit(native_obj, V + '/engine/rt_shim.cpp', RT + ['-O1', '-fno-pie'] + ['-I' + V + '/engine'], h(rd(V + '/engine/rt.h')))]
    ht = V + '/harness/' + harness
    jobs = [pool.submit(bitcode, ht, fl + list(defs), hh + harness_hash())]
    jobs += [pool.submit(bitcode, s, fl, hh + (harness_hash() if shim else '')) for s in srcs]
    jobs += [pool.submit(bitcode, V + '/engine/sxlib.cpp', [], '')]
    bcs = [j.result() for j in jobs]
    sxcc = sx.result()
    syms = sorted(set(''.join(pool.map(defined, bcs)).split()))
    dh = h('\n'.join(syms))
    dfile = once('%s/def-%s' % (BUILD, dh), lambda t: open(t, 'w').write('\n'.join(syms) + '\n'))
    def inst(bc):
        out = '%s/so/%s.o' % (BUILD, h(bc, sxcc, dh, 'nohooks' if shim else ''))
        return once(out, lambda t: sh([sxcc, bc, t, dfile] + (['nohooks'] if shim else [])))
    objs = list(pool.map(inst, bcs))
    rto = [r.result() for r in rts]
    out = '%s/bin/%s-%s' % (BUILD, name, h(*(objs + rto)))
    once(out, lambda t: sh([CXX, '-no-pie', '-o', t] + objs + [runtime(rto)] + ['-lz3', '-lpthread']))
    pool.shutdown()
    return out

def runtime(objs):
    """One relocatable object whose template instantiations are local: the runtime must never call an instrumented copy."""
    out = '%s/o/runtime-%s.o' % (BUILD, h(*objs))
    def make(t):
        sh([CXX, '-r', '-nostdlib', '-Wl,--force-group-allocation', '-o', t + '.r'] + objs)
        nm = sh(['nm', '--defined-only', t + '.r'])
        weak = [l.split()[2] for l in nm.split('\n') if len(l.split()) == 3 and l.split()[1] in 'WVuw']
        open(t + '.l', 'w').write('\n'.join(weak) + '\n')
        sh(['objcopy', '--localize-symbols=' + t + '.l', t + '.r', t])
        os.unlink(t + '.r'); os.unlink(t + '.l')
    return once(out, make)

def build_native(name, harness, defs=(), only=None, flags=('-O1',), san=(), rational=True):
    pool = ThreadPoolExecutor(NPROC)
    hh = repo_headers_hash()
    srcs = [s for s in repo_sources() if only is None or os.path.basename(s) in only]
    fl = list(flags) + list(san) + INC + DEF
    jobs = [pool.submit(native_obj, s, fl, hh) for s in srcs]
    jobs.append(pool.submit(native_obj, V + '/harness/' + harness, fl + list(defs), hh + harness_hash()))
    jobs.append(pool.submit(native_obj, V + '/engine/sx_native.cpp', fl + (['-DSX_RATIONAL_HDR="helpers/rational.h"'] if rational else []), hh))
    objs = [j.result() for j in jobs]
    out = '%s/bin/%s-native-%s' % (BUILD, name, h(*objs))
    once(out, lambda t: sh([CXX] + list(san) + ['-o', t] + objs + ['-lpthread']))
    pool.shutdown()
    return out

def build_native_bc(name, harness, defs=(), only=None, shim=False):
    """Uninstrumented native build of the same bitcode (clang back end), for replaying witnesses quickly."""
    if shim: return build_native(name, harness, defs, only=only, flags=('-O1',))
    pool = ThreadPoolExecutor(NPROC)
    hh = repo_headers_hash(); fl = INC + DEF
    srcs = [s for s in repo_sources() if only is None or os.path.basename(s) in only]
    jobs = [pool.submit(bitcode, V + '/harness/' + harness, fl + list(defs), hh + harness_hash())]
    jobs += [pool.submit(bitcode, s, fl, hh) for s in srcs]
    bcs = [j.result() for j in jobs]
    def cg(bc):
        return once('%s/no/%s.o' % (BUILD, h(bc)), lambda t: sh([CLANG, '-O1', '-fno-pie', '-w', '-c', bc, '-o', t]))
    objs = list(pool.map(cg, bcs)) + [native_obj(V + '/engine/sx_native.cpp', ['-O1', '-fno-pie', '-DSX_RATIONAL_HDR="helpers/rational.h"'] + fl, hh)]
    out = '%s/bin/%s-nbc-%s' % (BUILD, name, h(*objs))
    once(out, lambda t: sh([CXX, '-no-pie', '-o', t] + objs + ['-lpthread']))
    pool.shutdown()
    return out

def native(j, san=False):
    only = j.get('native_only', j.get('only')) if j.get('shim') else j.get('only')
    return build_native(j['name'], j['harness'], j.get('defs', []), only=only, flags=('-O2',) if not san else ('-O1', '-g'),
                        san=('-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS') if san else ())

def build_jobs(jobs):
    """All symbolic and native binaries of a check (in parallel); returns the symbolic ones."""
    def sym(j): return build(j['name'], j['harness'], j.get('defs', []), shim=j.get('shim', False), only=j.get('only'))
    with ThreadPoolExecutor(6) as p:
        fs = [p.submit(sym, j) for j in jobs]
        fn = [p.submit(native, j) for j in jobs if j.get('wit', 1)]
        return [f.result() for f in fs]

if __name__ == '__main__':
    t = time.time()
    print(build(sys.argv[1], sys.argv[2], sys.argv[3:]), time.time() - t)
    t = time.time()
    if os.environ.get('NATIVE'):
        print(build_native(sys.argv[1], sys.argv[2], sys.argv[3:]), time.time() - t)
