#!/usr/bin/env python3
"""Builds the simulator from /repo's current sources.  Objects are cached by content."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
DIRS = ['CglCommon', 'CglAllDifferent', 'CglClique', 'CglDuplicateRow', 'CglKnapsackCover', 'CglLiftAndProject',
        'CglMixedIntegerRounding', 'CglOddHole', 'CglRedSplit', 'CglSimpleRounding', 'CglZeroHalf']
VARIANTS = {
    'plain': dict(lib=['-fsanitize-coverage=trace-pc-guard'], all=[], link=[]),
    'thread': dict(lib=['-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores'], all=[], link=[]),
    'asan': dict(lib=['-fsanitize-coverage=trace-pc-guard', '-fsanitize=address'], all=['-DSIM_ASAN', '-fsanitize=address'], link=['-fsanitize=address', '-shared-libasan'][:1]),
}

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def sources():
    """(library sources, include flags): every directory's own non-test sources, as in the build here."""
    lib, inc = [], []
    for d in sorted(glob.glob(os.path.join(REPO, 'src', 'Cgl*'))):
        if os.path.isdir(d):
            inc += ['-I', d]
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, 'src', d, '*.cpp'))):
            if not f.endswith('Test.cpp'):
                lib.append(f)
    return lib, inc

def build(variant, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, 'lock-' + variant), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    v = VARIANTS[variant]
    lib, inc = sources()
    pc = subprocess.check_output(['pkg-config', '--cflags', 'osi-clp'], text=True).split()
    libs = subprocess.check_output(['pkg-config', '--libs', 'osi-clp'], text=True).split()
    hd = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, 'src', 'Cgl*', '*.h*')) + glob.glob(os.path.join(HERE, 'sim', '*.h')) + glob.glob(os.path.join(HERE, 'sim', 'cfg', '*'))):
        hd.update(f.encode()); hd.update(open(f, 'rb').read())
    base = ['clang++', '-std=gnu++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-DNDEBUG', '-DHAVE_CONFIG_H', '-ffunction-sections', '-fdata-sections', '-w',
            '-I', os.path.join(HERE, 'sim', 'cfg')] + inc + pc + v['all']
    jobs = []
    # .cpp files may be included by other .cpp files: every object depends on all library sources of its directory
    bydir = {}
    for f in lib:
        bydir.setdefault(os.path.dirname(f), hashlib.sha256()).update(open(f, 'rb').read())
    for f in lib:
        jobs.append((f, base + v['lib'], bydir[os.path.dirname(f)].hexdigest()))
    for f in sorted(glob.glob(os.path.join(HERE, 'sim', '*.cpp'))):
        jobs.append((f, base + ['-I', os.path.join(HERE, 'sim')], hashlib.sha256(open(f, 'rb').read()).hexdigest()))
    odir = os.path.join(OUT, variant)
    os.makedirs(odir, exist_ok=True)
    objs, todo = [], []
    for f, flags, h in jobs:
        key = hashlib.sha256(('\0'.join([f, h, hd.hexdigest()] + flags)).encode()).hexdigest()[:24]
        o = os.path.join(odir, os.path.basename(f)[:-4] + '-' + key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            todo.append((f, flags, o))
    def comp(t):
        f, flags, o = t
        r = sh(flags + ['-c', f, '-o', o + '.tmp'])
        if r.returncode == 0:
            os.rename(o + '.tmp', o)
        return (f, r)
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    with ThreadPoolExecutor(8) as ex:
        for f, r in ex.map(comp, todo):
            if r.returncode:
                sys.stderr.write('BUILD FAILED %s\n%s\n' % (f, r.stdout[-3000:]))
                raise SystemExit(3)
    exe = os.path.join(odir, 'sim-' + hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        r = sh(['clang++', '-o', exe + '.tmp'] + objs + v['link'] + ['-Wl,--gc-sections', '-Wl,--gc-keep-exported', '-rdynamic', '-no-pie', '-Wl,--unresolved-symbols=ignore-in-object-files'] + libs + ['-lpthread', '-ldl'])
        if r.returncode:
            sys.stderr.write('LINK FAILED\n%s\n' % r.stdout[-3000:])
            raise SystemExit(3)
        os.rename(exe + '.tmp', exe)
    keep = set(objs) | {exe}
    olds = [p for p in glob.glob(os.path.join(odir, '*')) if p not in keep]
    for p in olds:
        if os.path.getmtime(p) < os.path.getmtime(exe) - 3600:
            os.remove(p)
    return exe

if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        print(build(v))
