#!/usr/bin/env python3
"""Content-hash build driver: compiles /repo's libspu sources (as they are now)
against the stand-in third-party headers of /verif/shim, and links harnesses.

usage: build.py [-q] TARGET...      (targets: see TARGETS; 'all')
Objects are reused only if the command line and the *contents* of every file
they were made from are unchanged, so a stale object can never hide a change.
"""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, fcntl, glob

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('SPU_REPO', '/repo')
B = os.environ.get('SPU_BUILD_DIR', os.path.join(V, 'build'))
SRC = R + '/src'
GEN = B + '/gen'
CXX = 'g++'
BASE = ['-std=gnu++17', '-O1', '-w', '-DSPU_BUILD', '-DSPU_VERIF_HOOKS', '-DSPDLOG_FMT_EXTERNAL',
        '-DSPDLOG_COMPILED_LIB', '-fopenmp', '-mavx2', '-maes', '-mpclmul', '-msse4.1',
        '-I' + V + '/shim/include', '-I' + SRC, '-I' + GEN, '-I' + V + '/harness',
        '-isystem', '/usr/include/llvm-18', '-isystem', '/usr/include/llvm-c-18', '-isystem', '/usr/include/eigen3']
LIBS = ['-lprotobuf', '-lspdlog', '-lfmt', '-lcrypto', '-lgmp', '-lgomp', '-lpthread',
        '-l:libLLVM.so.18.1', '-labsl_throw_delegate']

_h = {}
def fhash(p):
    if p not in _h:
        try:
            with open(p, 'rb') as f:
                _h[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _h[p] = 'missing'
    return _h[p]

_stable = ('/usr/',)

def up_to_date(stamp, cmd):
    try:
        s = json.load(open(stamp))
    except Exception:
        return False
    return s['cmd'] == cmd and all(fhash(d) == h for d, h in s['deps'])

def parse_d(path):
    t = open(path).read().replace('\\\n', ' ')
    return [x for x in t.split(':', 1)[1].split() if not x.startswith(_stable)]

class Fail(Exception):
    pass

def objname(src, tag):
    rel = src.replace(R + '/', 'repo/').replace(V + '/', 'verif/').replace(B + '/', 'b/').strip('/').replace('/', '__')
    return f'{B}/obj/{tag}/{rel}.o'

def compile_one(src, flags, tag):
    o = objname(src, tag)
    cmd = [CXX] + BASE + flags + ['-c', src, '-o', o]
    st = o + '.json'
    if os.path.exists(o) and up_to_date(st, cmd):
        return o, False
    os.makedirs(os.path.dirname(o), exist_ok=True)
    p = subprocess.run(cmd + ['-MMD', '-MF', o + '.d'], capture_output=True, text=True)
    if p.returncode != 0:
        raise Fail(f'compile failed: {src}\n{p.stderr[:6000]}')
    deps = sorted(set(parse_d(o + '.d')))
    os.unlink(o + '.d')
    json.dump({'cmd': cmd, 'deps': [[d, fhash(d)] for d in deps]}, open(st, 'w'))
    return o, True

def ls(pattern, exclude=()):
    r = []
    for p in sorted(glob.glob(SRC + '/libspu/' + pattern)):
        b = os.path.basename(p)
        if b.endswith('_test.cc') or b.endswith('_bench.cc') or 'benchmark' in b: continue
        if any(x in p for x in exclude): continue
        r.append(p)
    return r

# --- source groups --------------------------------------------------------
def g_core():
    return ls('core/*.cc') + ls('spu.cc')
def g_mpc():
    r = ls('mpc/*.cc', ('io_test', 'api_test'))
    for d in ('common', 'utils', 'ref2k', 'standard_shape', 'aby3', 'securenn', 'semi2k',
              'semi2k/beaver', 'semi2k/beaver/beaver_impl', 'semi2k/beaver/beaver_impl/trusted_party', 'semi2k/beaver/beaver_impl/ttp_server',
              'experimental/swift', 'spdz2k', 'spdz2k/beaver', 'spdz2k/ot', 'tools'):
        r += ls(f'mpc/{d}/*.cc', ('_main.cc', 'tools/complexity'))
    r += ls('mpc/cheetah/*.cc') + ls('mpc/cheetah/nonlinear/*.cc')
    r += ls('mpc/cheetah/ot/*.cc') + ls('mpc/cheetah/ot/yacl/*.cc')
    return r
def g_kernel():
    return ls('kernel/hal/*.cc') + ls('kernel/hlo/*.cc')
def g_device():
    return ls('device/io.cc') + ls('device/symbol_table.cc') + ls('device/utils/*.cc', ('pphlo_executor',))
SHIM = [V + '/shim/src/' + x for x in sorted(os.listdir(V + '/shim/src')) if x.endswith('.cc')]
GROUPS = {
    'core': g_core, 'mpc': g_mpc, 'kernel': g_kernel, 'device': g_device,
    'shim': lambda: SHIM,
    'proto': lambda: [GEN + '/' + p[:-6] + '.pb.cc' for p in PROTOS],
}

PROTOS = ['libspu/spu.proto',
          'libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto']

def gen_proto():
    os.makedirs(GEN, exist_ok=True)
    for pr in PROTOS:
        gen_one(pr)

def gen_one(pr):
    import re
    src = SRC + '/' + pr
    st = GEN + '/' + pr.replace('/', '__') + '.json'
    cmd = ['protoc', '-I' + SRC, '--cpp_out=' + GEN, pr]
    h = GEN + '/' + pr[:-6] + '.pb.h'
    if os.path.exists(h) and up_to_date(st, cmd): return
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise Fail('protoc failed\n' + p.stderr)
    # newer protobuf parses from string_view
    t = re.sub(r'(class \w+ final :\s+public ::PROTOBUF_NAMESPACE_ID::Message [^{]*\{\s*public:)',
               r'\1\n  bool ParseFromString(std::string_view v) { return ParseFromArray(v.data(), (int)v.size()); }\n',
               open(h).read())
    open(h, 'w').write(t.replace('#include <string>', '#include <string>\n#include <string_view>', 1))
    json.dump({'cmd': cmd, 'deps': [[src, fhash(src)]]}, open(st, 'w'))

def build_objs(jobs):
    """jobs: list of (src, flags, tag) -> list of objects (same order)"""
    gen_proto()
    uniq = list(dict.fromkeys((s, tuple(f), t) for s, f, t in jobs))
    out, fails = {}, []
    n = int(os.environ.get('SPU_JOBS', '0')) or os.cpu_count() or 8
    with cf.ThreadPoolExecutor(n) as ex:
        fs = {ex.submit(compile_one, s, list(f), t): (s, f, t) for s, f, t in uniq}
        for f in cf.as_completed(fs):
            try:
                out[fs[f]], _ = f.result()
            except Fail as e:
                fails.append(str(e))
    if fails:
        raise Fail('\n'.join(fails))
    return [out[(s, tuple(f), t)] for s, f, t in jobs]

def link(name, objs, libobjs, extra_libs=()):
    # libobjs are offered like the members of an archive: only what is used is linked
    exe = f'{B}/bin/{name}'
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = [CXX, '-fuse-ld=lld', '-o', exe] + objs + ['-Wl,--start-lib'] + libobjs + ['-Wl,--end-lib'] + list(extra_libs) + LIBS
    st = exe + '.json'
    if os.path.exists(exe) and up_to_date(st, cmd): return exe
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise Fail(f'link failed: {name}\n' + p.stderr[-6000:])
    json.dump({'cmd': cmd, 'deps': [[o, fhash(o)] for o in objs + libobjs]}, open(st, 'w'))
    return exe

sys.path.insert(0, V)
def targets():
    import targets as T
    return T.TARGETS

def build(name):
    t = targets()[name]
    flags = t.get('flags', [])
    tag = t.get('tag', 'std')
    jobs = []
    for g in t['groups']:
        jobs += [(s, flags, tag) for s in GROUPS[g]()]
    for s in t.get('repo', []):
        jobs.append((SRC + '/' + s, flags, tag))
    for s in t['harness']:
        jobs.append((V + '/harness/' + s, flags + t.get('hflags', []), tag))
    nh = len(t['harness'])
    objs = build_objs(jobs)
    return link(name, objs[-nh:], objs[:-nh], t.get('libs', []) + (['-fsanitize=' + t['san']] if 'san' in t else []))

def main():
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--objs' in sys.argv:
        ok = True
        for g in names:
            try:
                build_objs([(s, [], 'std') for s in GROUPS[g]()])
            except Fail as e:
                print(e); ok = False
        sys.exit(0 if ok else 2)
    if names == ['all']: names = list(targets())
    rc = 0
    for n in names:
        try:
            print(build(n), flush=True)
        except Fail as e:
            print(f'BUILD-FAILED {n}\n{e}', file=sys.stderr)
            rc = 2
    sys.exit(rc)

if __name__ == '__main__':
    main()
