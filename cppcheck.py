"""Second half of the C15 check: compiles the C++ texts the generators wrote during the simulated runs
and runs the same scenarios again with the rebuilt objects."""
import glob, os, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))

def parse(text):
    """notes -> {seed: [(kind, name, id, body lines)]}"""
    out, cur, seed = {}, None, None
    for l in text.split('\n'):
        if l.startswith('@@ '): seed = int(l[3:]); out[seed] = []; cur = None
        elif l.startswith('%% '): f = l.split(); cur = (f[1], f[2], f[3], []); out[seed].append(cur)
        elif cur is not None and l: cur[3].append(l)
    return out

def source(ems):
    inc, fn = set(), []
    for k, name, i, lines in ems:
        bad = [l for l in lines if l[0] not in '0123456789']
        inc.update(l[1:] for l in lines if l[0] == '0')
        for suffix, take in (('min', '3'), ('all', '34')):
            fn.append('extern "C" CglCutGenerator *emitted_%s_%s() {\n%s\n  return %s.clone();\n}' % (i, suffix, '\n'.join([l[1:] for l in lines if l[0] in take] + bad), name))
    return '#include "CglCutGenerator.hpp"\n' + '\n'.join(sorted(inc)) + '\n' + '\n'.join(fn) + '\n'

def flags(B):
    lib, inc = B.sources()
    pc = subprocess.check_output(['pkg-config', '--cflags', 'osi-clp'], text=True).split()
    return ['clang++', '-std=gnu++17', '-O0', '-w', '-fPIC', '-DNDEBUG', '-DHAVE_CONFIG_H', '-ferror-limit=0', '-I', os.path.join(HERE, 'sim', 'cfg')] + inc + pc

def compile_so(ems, tmp, B, tag):
    """-> (path of shared object, {id: error text})"""
    fl, bad = flags(B), {}
    parts = [ems[i::8] for i in range(8)]
    def one(n):
        part = parts[n]; o = os.path.join(tmp, 'em-%s-%d.o' % (tag, n))
        src = os.path.join(tmp, 'em-%s-%d.cpp' % (tag, n))
        errs = {}
        while part:
            open(src, 'w').write(source(part))
            r = subprocess.run(fl + ['-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0: return o, errs
            text = open(src).read().split('\n'); hit = set()
            for m in re.finditer(r'%s:(\d+):\d+: (?:fatal )?error: (.*)' % re.escape(src), r.stdout):
                for q in range(int(m.group(1)) - 1, -1, -1):
                    g = re.match(r'extern "C" CglCutGenerator \*emitted_(\w+)_(min|all)', text[q])
                    if g: hit.add(g.group(1)); errs.setdefault(g.group(1), '%s in: %s' % (m.group(2), text[int(m.group(1)) - 1].strip())); break
                else: hit.update(e[2] for e in part[:1]); errs.setdefault(part[0][2], m.group(2))
            if not hit: hit = {part[0][2]}; errs[part[0][2]] = r.stdout[-400:]
            part = [e for e in part if e[2] not in hit]
        return None, errs
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for o, errs in ex.map(one, range(8)):
            bad.update(errs)
            if o: objs.append(o)
    so = os.path.join(tmp, 'em-%s.so' % tag)
    if objs:
        r = subprocess.run(['clang++', '-shared', '-o', so] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise SystemExit('C15: linking the generated code failed\n' + r.stdout[-2000:])
    return (so if objs else None), bad

def withlib(text, so):
    ls = text.split('\n'); i = next((n for n, l in enumerate(ls) if l.startswith('op ')), len(ls))
    return '\n'.join(ls[:i] + ['op lib :' + so] + ls[i:])

def emissions(exe, path, tmp):
    """texts written by one scenario"""
    out = subprocess.run([exe, 'notes', path], stdout=subprocess.PIPE, text=True).stdout
    return parse('@@ 0\n' + out).get(0, [])

def decide(exe, text, tmp, B, tag):
    """-> (class, detail) of the violation shown by one scenario, or None"""
    p = os.path.join(tmp, 'one-%s.txt' % tag); open(p, 'w').write(text)
    ems = {e[2]: e for e in emissions(exe, p, tmp)}
    if not ems: return None
    so, bad = compile_so(list(ems.values()), tmp, B, tag)
    if bad:
        i, e = sorted(bad.items())[0]; return 'generated code does not compile ' + ems[i][0], e
    q = os.path.join(tmp, 'two-%s.txt' % tag); open(q, 'w').write(withlib(text, so))
    o = subprocess.run([exe, 'run', q], stdout=subprocess.PIPE, text=True).stdout.rstrip('\n').split('\t')
    return (o[2], ' / '.join(o[3:])) if o[0] == 'VIOLATION' else None

def verify(tmp, B, exe, seed):
    by, ems = {}, {}
    for f in glob.glob(os.path.join(tmp, 'notes-*')):
        for s, l in parse(open(f).read()).items():
            by[s] = l
            for e in l: ems.setdefault(e[2], e)
    counts = {'emitted-texts-compiled': len(ems)}
    so, bad = compile_so(sorted(ems.values(), key=lambda e: e[2]), tmp, B, 'all')
    found = [] # (seed, class, detail)
    for s in sorted(by):
        for e in by[s]:
            if e[2] in bad: found.append((s, 'generated code does not compile ' + e[0], bad[e[2]])); break
    seeds = sorted(by)
    def chunk(w):
        res, cnt = [], 0
        p = subprocess.Popen([exe, 'serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        for s in seeds[w::8]:
            text = subprocess.run([exe, 'gen', 'C15', str(s)], stdout=subprocess.PIPE, text=True).stdout
            q = os.path.join(tmp, 'lib-%d.txt' % w); open(q, 'w').write(withlib(text, so))
            p.stdin.write(q + '\n'); p.stdin.flush()
            o = p.stdout.readline().rstrip('\n').split('\t'); cnt += 1
            while len(o) < 4: o.append('')
            if o[0] == 'VIOLATION': res.append((s, o[2], ' / '.join(o[3:])))
        p.stdin.close(); p.wait()
        return res, cnt
    if so:
        with ThreadPoolExecutor(8) as ex:
            for res, cnt in ex.map(chunk, range(8)):
                found += res; counts['scenarios-rerun-with-rebuilt-objects'] = counts.get('scenarios-rerun-with-rebuilt-objects', 0) + cnt
    out, done = [], set()
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    for s, cls, what in sorted(found):
        if cls in done or len(done) >= 4: continue
        text = subprocess.run([exe, 'gen', 'C15', str(s)], stdout=subprocess.PIPE, text=True).stdout
        d = decide(exe, text, tmp, B, 'c')
        if d is None or d[0] != cls: continue
        done.add(cls)
        lines = text.rstrip('\n').split('\n'); changed, n = True, 0
        while changed and n < 25: # drop operations while the same violation remains
            changed = False
            for i in [i for i, l in enumerate(lines) if l.startswith('op ')]:
                n += 1; c = lines[:i] + lines[i + 1:]; e = decide(exe, '\n'.join(c) + '\n', tmp, B, 'm')
                if e and e[0] == cls: lines, changed, d = c, True, e; break
                if n >= 25: break
        name = os.path.join(rdir, 'C15-%d-%s.txt' % (s, hashlib.sha256(cls.encode()).hexdigest()[:6]))
        open(name, 'w').write('#variant plain\n#seed %d\n#class %s\n#compile\n' % (s, cls) + '\n'.join(lines) + '\n')
        out.append((name, '%s: %s' % (cls, d[1])))
    return out, counts
