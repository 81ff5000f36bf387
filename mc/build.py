#!/usr/bin/env python3
"""Builds one explorer binary from /repo's current working tree and /verif/mc, with a content
addressed object cache in /verif/.build (git ignored).  Usage: build.py NAME [--san]  -> prints path."""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
MC = os.path.join(VERIF, 'mc')
B = os.path.join(VERIF, '.build')

def sh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def main():
    name = sys.argv[1]
    san = '--san' in sys.argv
    os.makedirs(B + '/obj', exist_ok=True)
    os.makedirs(B + '/gen', exist_ok=True)
    lock = open(B + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    # configuration header
    hin = rd(REPO + '/include/capypdf.h.in').decode()
    m = re.search(r"version\s*:\s*'([0-9.]+)'", rd(REPO + '/meson.build').decode())
    ver = m.group(1)
    va = (ver.split('.') + ['0', '0'])[:3]
    vals = {'CAPYPDF_VERSION_STR': '"%s"' % ver, 'CAPYPDF_VERSION_MAJOR': va[0], 'CAPYPDF_VERSION_MINOR': va[1],
            'CAPYPDF_VERSION_MICRO': va[2]}
    def sub(mm):
        k = mm.group(1)
        return '#define %s %s' % (k, vals[k]) if k in vals else '/* #undef %s */' % k
    hout = re.sub(r'#mesondefine (\w+)', sub, hin)
    hh = sh(hout, rd(MC + '/gen_api.py'))
    gd = f'{B}/gen/{hh}'
    if not os.path.exists(gd + '/api_gen.inc'):
        os.makedirs(gd, exist_ok=True)
        with open(gd + '/capypdf.h', 'w') as f:
            f.write(hout)
        subprocess.run([sys.executable, MC + '/gen_api.py', REPO + '/include/capypdf.h.in', gd + '/api_gen.tmp'], check=True)
        os.rename(gd + '/api_gen.tmp', gd + '/api_gen.inc')
    cxx = 'g++'
    common = ['-std=c++23', '-g1', '-fPIC', '-w', '-D_GLIBCXX_ASSERTIONS', f'-I{gd}', f'-I{REPO}/include']
    opt = ['-O1']
    if san:
        opt = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=enum', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    pc = subprocess.run(['pkg-config', '--cflags', 'libpng', 'zlib', 'lcms2', 'libjpeg', 'freetype2', 'libtiff-4'],
                        capture_output=True, text=True).stdout.split()
    pl = subprocess.run(['pkg-config', '--libs', 'libpng', 'zlib', 'lcms2', 'libjpeg', 'freetype2', 'libtiff-4'],
                        capture_output=True, text=True).stdout.split()
    libhdr = b''.join(f.encode() + rd(f) for f in sorted(glob.glob(REPO + '/src/**/*.h*', recursive=True) +
                                                         glob.glob(REPO + '/include/*.hpp'))) + hout.encode()
    mchdr = b''.join(rd(f) for f in sorted(glob.glob(MC + '/*.hpp'))) + hh.encode()
    # the sources of the library, as listed by its own build file
    srcs = []
    listed = set(re.findall(r"'([\w/]+\.cpp)'", rd(REPO + '/src/meson.build').decode()))
    for f in sorted(glob.glob(REPO + '/src/*.cpp')):
        bn = os.path.basename(f)
        if bn in listed and not bn.endswith('_fuzz.cpp'):
            srcs.append(f)
    jobs = []  # (object, command)
    objs = []
    libobjs = []
    for f in srcs:
        fl = common + opt + ['-DBUILDING_CAPYPDF', f'-I{REPO}/src'] + pc
        o = f'{B}/obj/{sh(rd(f), f, libhdr, " ".join(fl))}.o'
        objs.append(o)
        libobjs.append(o)
        jobs.append((o, [cxx] + fl + ['-c', f], os.path.getsize(f)))
    checksrc = f'{MC}/checks/{name}.cpp'
    mine = [MC + '/pdf.cpp', MC + '/exec.cpp', MC + '/explore.cpp', MC + '/lint.cpp'] + \
           [MC + '/' + x for x in re.findall(r'^// uses: (\S+\.cpp)', rd(checksrc).decode(), flags=re.M)] + [checksrc]
    for f in mine:
        # the harness itself is never instrumented by the undefined behaviour sanitizer of interest
        fl = common + opt + [f'-I{MC}'] + pc
        o = f'{B}/obj/{sh(rd(f), f, mchdr, " ".join(fl))}.o'
        objs.append(o)
        jobs.append((o, [cxx] + fl + ['-c', f], os.path.getsize(f) * 3))
    todo = sorted([j for j in jobs if not os.path.exists(j[0])], key=lambda j: -j[2])
    def cc(j):
        tmp = j[0] + '.tmp.o'
        r = subprocess.run(j[1] + ['-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return ' '.join(j[1]) + '\n' + r.stderr
        os.rename(tmp, j[0])
        return None
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(cc, todo) if e]
    if errs:
        sys.stderr.write('\n'.join(errs))
        sys.exit(2)
    bind = ''
    if re.search(r'^// bindings', rd(checksrc).decode(), flags=re.M):
        bind = bindings(gd, libobjs, [o for o, f in zip(objs[len(libobjs):], mine) if not f.startswith(MC + '/checks/')],
                        [cxx] + common + opt + [f'-I{MC}'] + pc, pl + ['-ldl', '-lpthread'])
    exe = f'{B}/{name}{"-san" if san else ""}-{sh(bind, *objs)}'
    if not os.path.exists(exe):
        for old in glob.glob(f'{B}/{name}{"-san" if san else ""}-' + '?' * 32 + '*'):
            os.unlink(old)
        r = subprocess.run([cxx] + opt + objs + ['-o', exe + '.tmp'] + pl + ['-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr)
            sys.exit(2)
        os.rename(exe + '.tmp', exe)
        if bind:
            os.symlink(bind, exe + '.bind')
    print(exe)

def bindings(gd, libobjs, mcobjs, cc, libs):
    """The library behind a recording layer, and the server that drives the C++ interface through it."""
    cpp = [MC + '/bind/cppbind.cpp', REPO + '/include/capypdf.hpp', MC + '/mc.hpp', MC + '/pdf.hpp']
    h = sh(gd, *libobjs, *mcobjs, ' '.join(cc), *[rd(f) for f in cpp], rd(MC + '/bind/gen_shim.py'), rd(MC + '/gen_api.py'))
    d = f'{B}/bind-{h}'
    if os.path.exists(d + '/done'):
        return d
    import shutil
    for old in glob.glob(B + '/bind-' + '?' * 32):
        shutil.rmtree(old)
    os.makedirs(d)
    def go(c, **k):
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode != 0 and not k.get('may_fail'):
            sys.stderr.write(' '.join(c) + '\n' + r.stderr)
            sys.exit(2)
        return r
    cxx = cc[0]
    # the two compilations in parallel
    with ThreadPoolExecutor(2) as ex:
        c = ex.submit(go, cc + ['-c', cpp[0], '-o', d + '/cppbind.o'], may_fail=True)
        go([sys.executable, MC + '/bind/gen_shim.py', gd + '/capypdf.h', d + '/shim.cpp'])
        go(cc + ['-c', d + '/shim.cpp', '-o', d + '/shim.o'])
        c = c.result()
    go(['ld', '-r'] + libobjs + ['-o', d + '/lib.o'])
    names = re.findall(r'real_(capy_\w+)\(', rd(d + '/shim.cpp').decode())
    go(['objcopy'] + [f'--redefine-sym={n}=real_{n}' for n in sorted(set(names))] + [d + '/lib.o', d + '/real.o'])
    go([cxx, '-shared', d + '/shim.o', d + '/real.o', '-o', d + '/libcapypdf.so'] + libs)
    for x in ('lib.o', 'real.o', 'shim.o'):
        os.unlink(d + '/' + x)
    if c.returncode == 0:
        c = go([cxx, d + '/cppbind.o'] + mcobjs + ['-L' + d, '-lcapypdf', '-Wl,-rpath,' + d, '-o', d + '/cppbind'] + libs, may_fail=True)
    if c.returncode != 0:
        with open(d + '/cppbind.err', 'w') as f:
            f.write(c.stderr)
    open(d + '/done', 'w').close()
    return d

main()
