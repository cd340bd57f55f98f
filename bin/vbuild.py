#!/usr/bin/env python3
"""Build driver: compiles /repo's current working tree (never a copy) and the
harnesses of /verif/harness, into /verif/build, with a cache keyed on the
*content* of every source and header (not on time stamps).

usage: vbuild.py lib | vbuild.py harness NAME | vbuild.py all
"""
import hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CM = os.path.join(BUILD, 'cm')
CACHE = os.path.join(BUILD, 'cache')
OUT = os.path.join(BUILD, 'out')
LIBT = ['libfimex', 'libfimex-io-netcdf', 'libfimex-io-felt', 'libfimex-io-grib']
HAVE_PYBIND = True

ENV = dict(os.environ)
ENV.update(HOME='/root', LC_ALL='C.UTF-8', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           CC='/usr/bin/gcc', CXX='/usr/bin/g++', FC='/usr/bin/gfortran')
for k in ('PYTHONPATH', 'CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS'):
    ENV.pop(k, None)

# variants of the library: 'asan' is what the harnesses link
VARIANTS = {
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address'],
    'plain': ['-O1', '-g1'],
}
LINKV = {'asan': ['-fsanitize=address'], 'plain': []}


def log(*a):
    print('[vbuild]', *a, file=sys.stderr, flush=True)


_hash = {}


def fhash(path):
    if path not in _hash:
        try:
            with open(path, 'rb') as f:
                _hash[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _hash[path] = 'missing'
    return _hash[path]


def run(cmd, **kw):
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0:
        sys.stderr.write('FAILED: %s\n%s\n' % (' '.join(map(str, cmd)), p.stdout[-6000:]))
        raise SystemExit(3)
    return p.stdout


def cmake_inputs():
    r = []
    for top, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ('.git', '_build', 'share', 'debian_files')]
        for f in fs:
            if f == 'CMakeLists.txt' or f.endswith(('.cmake', '.in', '.proto')):
                r.append(os.path.join(top, f))
    return sorted(r)


def configure():
    """cmake configure + generated sources; redone whenever an input changed"""
    key = hashlib.sha1(('v1' + REPO + ''.join(p + fhash(p) for p in cmake_inputs())).encode()).hexdigest()
    stamp = os.path.join(CM, 'vp.stamp')
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    log('cmake configure')
    if os.path.isdir(CM):
        shutil.rmtree(CM)
    os.makedirs(CM)
    mi = os.path.join(VERIF, 'bin', 'skip-mi.cmake')
    run(['cmake', '-S', REPO, '-B', CM, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBUILD_TESTING=ON',
         '-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=' + mi, '-DCMAKE_MAKE_PROGRAM=/usr/bin/ninja',
         '-DPython_EXECUTABLE=/usr/bin/python3.12', '-DPYTHON_EXECUTABLE=/usr/bin/python3.12',
         '-DENABLE_NETCDF=ON', '-DENABLE_FELT=ON', '-DENABLE_PROTOBUF=ON', '-DENABLE_ECCODES=ON',
         '-DENABLE_LOG4CPP=ON', '-DENABLE_FIMEX_OMP=ON', '-DENABLE_FORTRAN=ON', '-DENABLE_PYTHON=ON'])
    t = open(os.path.join(CM, 'build.ninja')).read()
    for m in re.finditer(r'^build ([^\n]*\.pb\.cc\b[^\n]*): CUSTOM_COMMAND[^\n]*\n((?:  .*\n)*)', t, re.M):
        c = re.search(r'^  COMMAND = (.*)$', m.group(2), re.M).group(1)
        run(['sh', '-c', c.replace('$$', '$')], cwd=CM)
    with open(stamp, 'w') as f:
        f.write(key)


def parse_targets():
    t = open(os.path.join(CM, 'build.ninja')).read().replace('$\n', ' ')
    comp, link = {}, {}
    for m in re.finditer(r'^build ([^\n]*?): (\w+)_COMPILER__(\S+?)_unscanned_\w+ (\S+)[^\n]*\n((?:  .*\n)*)', t, re.M):
        tgt = m.group(3)
        v = dict(re.findall(r'^  (\w+) = (.*)$', m.group(5), re.M))
        comp.setdefault(tgt, []).append((m.group(2), m.group(4), v))
    for m in re.finditer(r'^build ([^\n]*?): (\w+)_(SHARED|MODULE)_LIBRARY_LINKER__(\S+?)_RelWithDebInfo [^\n]*\n((?:  .*\n)*)', t, re.M):
        v = dict(re.findall(r'^  (\w+) = (.*)$', m.group(5), re.M))
        link[m.group(4)] = v
    # C++ rules may not carry "_unscanned_"
    if not comp:
        for m in re.finditer(r'^build ([^\n]*?): (\w+)_COMPILER__(\S+?)_RelWithDebInfo (\S+)[^\n]*\n((?:  .*\n)*)', t, re.M):
            v = dict(re.findall(r'^  (\w+) = (.*)$', m.group(5), re.M))
            comp.setdefault(m.group(3), []).append((m.group(2), m.group(4), v))
    for tgt in LIBT:  # C sources have rules without "_unscanned_"
        for m in re.finditer(r'^build ([^\n]*?): (C)_COMPILER__%s_RelWithDebInfo (\S+)[^\n]*\n((?:  .*\n)*)' % re.escape(tgt), t, re.M):
            v = dict(re.findall(r'^  (\w+) = (.*)$', m.group(4), re.M))
            e = (m.group(2), m.group(3), v)
            if e not in comp.get(tgt, []):
                comp.setdefault(tgt, []).append(e)
    return comp, link


def compile_one(src, cmd, out):
    """cmd: list without -c/-o; object content cached by content of source and deps"""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    base = hashlib.sha1(('v2\0' + '\0'.join(cmd) + '\0' + src).encode()).hexdigest()
    man = os.path.join(CACHE, base[:2], base + '.json')
    ents = []
    if os.path.exists(man):
        try:
            ents = json.load(open(man))
        except ValueError:
            ents = []
        for e in ents:
            if os.path.exists(e['obj']) and all(fhash(p) == h for p, h in e['deps']):
                return e['obj'], False
    os.makedirs(os.path.dirname(man), exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix='.o', dir=os.path.dirname(man))
    os.close(fd)
    dep = tmp + '.d'
    run(cmd + ['-MD', '-MF', dep, '-c', src, '-o', tmp])
    d = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
    os.unlink(dep)
    deps = sorted(set(os.path.realpath(x) for x in d if os.path.realpath(x).startswith((REPO + '/', VERIF + '/', BUILD + '/'))))
    deps = [(p, fhash(p)) for p in deps]
    k = hashlib.sha1((base + json.dumps(deps)).encode()).hexdigest()
    obj = os.path.join(os.path.dirname(man), k + '.o')
    os.replace(tmp, obj)
    ents = [e for e in ents if os.path.exists(e['obj'])][-3:] + [{'obj': obj, 'deps': deps}]
    with open(man + '.tmp%d' % os.getpid(), 'w') as f:
        json.dump(ents, f)
    os.replace(man + '.tmp%d' % os.getpid(), man)
    return obj, True


def link_one(cmd, objs, out, extra):
    key = hashlib.sha1(('\0'.join(cmd + extra) + '\0' + '\0'.join(o + fhash(o) for o in objs)).encode()).hexdigest()
    st = out + '.key'
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == key:
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rsp = out + '.rsp'
    with open(rsp, 'w') as f:
        f.write('\n'.join(objs))
    run(cmd + ['-o', out + '.tmp', '@' + rsp] + extra)
    os.replace(out + '.tmp', out)
    _hash.pop(out, None)
    with open(st, 'w') as f:
        f.write(key)


def build_lib(variant='asan', targets=LIBT):
    configure()
    comp, link = parse_targets()
    outdir = os.path.join(OUT, variant)
    jobs = []
    for tgt in targets:
        for kind, src, v in comp[tgt]:
            if not os.path.isabs(src):
                src = os.path.join(CM, src)
            fl = shlex.split(v.get('FLAGS', ''))
            fl = [f for f in fl if not re.match(r'-O|-g|-flto|-fno-fat-lto', f)]
            cmd = ['/usr/bin/g++' if kind == 'CXX' else '/usr/bin/gcc', '-w'] + shlex.split(v.get('DEFINES', '')) + \
                shlex.split(v.get('INCLUDES', '')) + fl + VARIANTS[variant]
            jobs.append((tgt, src, cmd))
    t0 = time.time()
    # biggest sources first
    jobs.sort(key=lambda j: -os.path.getsize(j[1]) if os.path.exists(j[1]) else 0)
    res, n = {}, 0
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for (tgt, src, cmd), (obj, new) in zip(jobs, ex.map(lambda j: compile_one(j[1], j[2], os.path.join(outdir, 'x')), jobs)):
            res.setdefault(tgt, []).append(obj)
            n += new
    if n:
        log('%s: compiled %d of %d sources in %.1f s' % (variant, n, len(jobs), time.time() - t0))
    libs = {}
    for tgt in targets:
        base = tgt if tgt.startswith('lib') else tgt
        if tgt.startswith('libfimex'):
            out = os.path.join(outdir, tgt + '-2.4.so')
        else:
            out = os.path.join(outdir, 'pyfimex0.cpython-312-x86_64-linux-gnu.so')
        ll = shlex.split(link[tgt].get('LINK_LIBRARIES', ''))
        ll2 = []
        for x in ll:
            if x.startswith('-Wl,-rpath'):
                continue
            if 'libfimex' in x:
                x = os.path.join(outdir, 'libfimex-2.4.so')
            ll2.append(x)
        link_one(['/usr/bin/g++', '-shared', '-fPIC', '-fopenmp', '-Wl,-rpath,' + outdir] + LINKV[variant] +
                 ['-Wl,-soname,' + os.path.basename(out)], sorted(res[tgt]), out, ll2)
        libs[tgt] = out
    return outdir, libs


def wants_python(name):
    """harnesses with a line '// PYTHON' embed Python and import pyfimex0"""
    return re.search(r'^// PYTHON', open(os.path.join(VERIF, 'harness', name + '.cc')).read(), re.M)


def fortran_objects(name, variant):
    """harnesses with a line '// FORTRAN' call the Fortran modules through wrappers in NAME.f90"""
    d = os.path.join(REPO, 'modules', 'F90')
    m = re.search(r'libfimexf_SOURCES([^)]*)\)', open(os.path.join(d, 'CMakeLists.txt')).read())
    srcs = [os.path.join(d, x) for x in m.group(1).split()] + [os.path.join(VERIF, 'harness', name + '.f90')]
    cmd = ['/usr/bin/gfortran', '-w', '-fPIC', '-fopenmp', '-fexceptions', '-ffree-line-length-none'] + VARIANTS[variant]
    key = hashlib.sha1('\0'.join(cmd + [s + fhash(s) for s in srcs]).encode()).hexdigest()
    work = os.path.join(CACHE, 'f' + key)
    objs = [os.path.join(work, os.path.basename(s) + '.o') for s in srcs]
    if not all(os.path.exists(o) for o in objs):
        tmp = work + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        for s in srcs:
            run(cmd + ['-J' + tmp, '-c', s, '-o', os.path.join(tmp, os.path.basename(s) + '.o')])
        shutil.rmtree(work, ignore_errors=True)
        os.replace(tmp, work)
    return objs


def build_harness(names, variant='asan'):
    outdir, libs = build_lib(variant, LIBT + (['pyfimex0'] if any(wants_python(n) for n in names) else []))
    inc = ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
           '-I' + os.path.join(REPO, 'src/io/grib'), '-I' + os.path.join(REPO, 'src/io/felt'), '-I' + os.path.join(REPO, 'src/io/netcdf'),
           '-I' + os.path.join(CM, 'src'), '-I' + os.path.join(CM, 'src/io/grib'), '-I' + os.path.join(CM, 'src/io/felt'),
           '-I' + os.path.join(CM, 'src/io/netcdf'),
           '-isystem', '/usr/include/libxml2']
    cmd = ['/usr/bin/g++', '-w', '-std=gnu++20', '-fopenmp'] + inc + VARIANTS[variant]

    def one(n):
        ccmd = cmd + ['-isystem', '/usr/include/python3.12'] if wants_python(n) else cmd
        objs = [compile_one(os.path.join(VERIF, 'harness', n + '.cc'), ccmd, os.path.join(outdir, 'x'))[0],
                compile_one(os.path.join(VERIF, 'harness', 'pbt.cc'), cmd, os.path.join(outdir, 'x'))[0]]
        src = open(os.path.join(VERIF, 'harness', n + '.cc')).read()
        if re.search(r'^// FORTRAN', src, re.M):
            objs += fortran_objects(n, variant)
        extra_libs = re.findall(r'^// LINK: (.*)$', src, re.M)
        el = []
        for e in extra_libs:
            for x in e.split():
                el.append(libs[x] if x in libs else x)
        exe = os.path.join(outdir, n)
        link_one(['/usr/bin/g++', '-fopenmp', '-rdynamic', '-Wl,-rpath,' + outdir] + LINKV[variant], objs, exe,
                 [libs['libfimex']] + el + ['-lxml2', '-lpthread'])
        return exe
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        return list(ex.map(one, names))


def harness_names():
    return sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'harness')) if re.match(r'C\d+\.cc$', f))


if __name__ == '__main__':
    a = sys.argv[1:]
    t0 = time.time()
    if a[0] == 'lib':
        build_lib('asan')
    elif a[0] == 'harness':
        print('\n'.join(build_harness(a[1:])))
    elif a[0] == 'all':
        build_harness(harness_names())
    log('done in %.1f s' % (time.time() - t0))
