#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : explore seeded simulated runs of the real library and decide the property.
check.py --replay FILE             : run one replay file and print the verdict.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2/3: the machinery itself could not decide."""
import json, os, re, subprocess, sys, time, hashlib, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

# runs per worker (8 workers) and wall cap in seconds: quick, thorough
BUDGET = {
    'C01': (40000, 90, 400000, 3000), 'C02': (40000, 90, 400000, 3000), 'C03': (40000, 80, 400000, 3000),
    'C04': (40000, 80, 300000, 2400), 'C05': (40000, 80, 300000, 2400), 'C06': (20000, 80, 80000, 2400),
    'C07': (10000, 90, 60000, 3000), 'C08': (20000, 80, 200000, 2400), 'C09': (20000, 80, 200000, 2400),
    'C10': (20000, 90, 100000, 1800), 'C11': (20000, 50, 200000, 1200), 'C12': (20000, 50, 200000, 1200),
    'C13': (20000, 60, 200000, 1200), 'C14': (20000, 90, 100000, 2400), 'C15': (150, 60, 3000, 1800),
    'C16': (20000, 60, 200000, 1500), 'C17': (20000, 90, 100000, 3000), 'C18': (40000, 50, 400000, 1200),
}
VARIANTS = {'C07': ['thread'], 'C14': ['plain', 'asan']}
RULES = json.load(open(os.path.join(HERE, 'rules.json'))) if os.path.exists(os.path.join(HERE, 'rules.json')) else {}

class Sim:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, 'serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    def run(self, path):
        self.p.stdin.write(path + '\n'); self.p.stdin.flush()
        f = self.p.stdout.readline().rstrip('\n').split('\t')
        while len(f) < 4: f.append('')
        return f[0], f[1], f[2], ' / '.join(f[3:])
    def close(self):
        self.p.stdin.close(); self.p.wait()

def once(exe, path):
    o = subprocess.run([exe, 'run', path], stdout=subprocess.PIPE, text=True).stdout.rstrip('\n').split('\t')
    while len(o) < 4: o.append('')
    return o[0], o[1], o[2], ' / '.join(o[3:])

def clskey(c):
    return re.sub(r'\s*\(.*', '', c).strip()

def minimise(exe, text, cls, tmp, limit):
    """Delete operations, generators, rows while the same kind of violation remains (deletions keep scenarios valid)."""
    t0 = time.time(); sim = Sim(exe); path = os.path.join(tmp, 'min.txt'); tries = 0
    lines = text.rstrip('\n').split('\n')
    want = clskey(cls)
    def bad(ls):
        nonlocal tries
        tries += 1
        open(path, 'w').write('\n'.join(ls) + '\n')
        v = sim.run(path)
        return v[0] == 'VIOLATION' and clskey(v[2]) == want
    for kind in ('op ', 'gen ', 'alldiff', 'row ', 'op '):
        n = 2
        while time.time() - t0 < limit:
            idx = [i for i, l in enumerate(lines) if l.startswith(kind)]
            if not idx: break
            size = max(1, len(idx) // n); changed = False
            for s in range(0, len(idx), size):
                if time.time() - t0 > limit: break
                drop = set(idx[s:s + size]); cand = [l for i, l in enumerate(lines) if i not in drop]
                if bad(cand):
                    lines = cand; changed = True; break
            if changed: n = max(2, n - 1)
            elif size == 1: break
            else: n = min(len(idx), n * 2)
    sim.close()
    return '\n'.join(lines) + '\n', tries

def known(prop):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]

def main():
    t0 = time.time()
    if sys.argv[1] == '--replay':
        txt = open(sys.argv[2]).read()
        m = re.search(r'^#variant (\w+)', txt, re.M)
        exe = B.build(m.group(1) if m else 'plain')
        r = once(exe, sys.argv[2])
        if re.search(r'^#compile', txt, re.M) and r[0] == 'OK':
            import cppcheck
            tmp = tempfile.mkdtemp(prefix='sim-replay-')
            try: d = cppcheck.decide(exe, txt, tmp, B, 'r')
            finally: shutil.rmtree(tmp, ignore_errors=True)
            if d: r = ('VIOLATION', hashlib.sha256(d[0].encode()).hexdigest()[:16], d[0], d[1])
        print('\t'.join(r)); sys.exit(1 if r[0] == 'VIOLATION' else 0)
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    qn, qt, tn, tt = BUDGET[prop]
    runs, secs = (qn, qt) if tier == 'quick' else (tn, tt)
    if '--runs' in sys.argv: runs = int(sys.argv[sys.argv.index('--runs') + 1])
    if '--secs' in sys.argv: secs = float(sys.argv[sys.argv.index('--secs') + 1])
    variants = VARIANTS.get(prop, ['plain'])
    exes = {v: B.build(v) for v in variants}
    tb = time.time() - t0
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='sim-%s-' % prop)
    viols, count, stat, classes, nondet = [], {}, {}, {}, []
    states, scens, cov = set(), set(), None
    simtime = 0.0
    try:
        procs = []
        for w in range(8):
            v = variants[w * len(variants) // 8]
            start = seed * 100000000 + w
            tag = '%s%d' % (v, w)
            log = open(os.path.join(tmp, 'log-' + tag), 'w')
            procs.append((v, tag, subprocess.Popen([exes[v], 'batch', prop, str(start), '8', str(secs), str(runs), tmp, tag], stdout=log)))
        covs = {}
        for v, tag, p in procs:
            p.wait()
            text = open(os.path.join(tmp, 'log-' + tag)).read()
            if not text.rstrip().endswith('END'):
                sys.stderr.write('batch worker %s ended early (status %s)\n' % (tag, p.returncode)); sys.exit(2)
            for l in text.split('\n'):
                f = l.split('\t')
                if f[0] == 'VIOL': viols.append((int(f[1]), f[2], f[3], f[4], ' / '.join(f[5:]), v))
                elif f[0] == 'COUNT': count[f[1]] = count.get(f[1], 0) + int(f[2])
                elif f[0] == 'CLASS': classes[f[2]] = classes.get(f[2], 0) + int(f[1])
                elif f[0] == 'STAT':
                    if f[1] in ('maxcall', 'covtotal'): stat[f[1]] = max(stat.get(f[1], 0), int(f[2]))
                    else: stat[f[1]] = stat.get(f[1], 0) + int(f[2])
                elif f[0] == 'FSTAT' and f[1] == 'simtime': simtime += float(f[2])
                elif l.startswith('NONDET'): nondet.append(l)
            d = open(os.path.join(tmp, 'states-' + tag), 'rb').read()
            states.update(d[i:i + 8] for i in range(0, len(d), 8))
            d = open(os.path.join(tmp, 'scen-' + tag), 'rb').read()
            scens.update(d[i:i + 8] for i in range(0, len(d), 8))
            c = open(os.path.join(tmp, 'cov-' + tag), 'rb').read()
            if v == variants[0]:
                cov = bytes(a | b for a, b in zip(cov, c)) if cov else c
        explored = time.time() - t0 - tb
        extra = []
        if prop == 'C15':
            import cppcheck
            extra, more = cppcheck.verify(tmp, B, exes['plain'], seed)
            count.update(more)
        out, kf, broken = [], [], False
        kn = known(prop)
        for k in kn:
            r = once(exes[k.get('variant', variants[0])], os.path.join(HERE, k['replay']))
            if r[0] == 'VIOLATION' and re.search(k['match'], r[2] + ' ' + r[3]):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); kf.append(k['what'])
        if nondet:
            sys.stderr.write('simulation not repeatable: %s\n' % nondet[:3]); broken = True
        done = set()
        viols.sort(key=lambda x: (x[3], x[0]))
        for sd, path, h, cls, detail, v in viols:
            if cls in done or len(done) >= 6: continue
            if any(re.search(k['match'], cls + ' ' + detail) for k in kn): continue
            a, b = once(exes[v], path), once(exes[v], path)
            if not (a[0] == b[0] == 'VIOLATION' and a[1] == b[1] == h):
                sys.stderr.write('violation of seed %d does not reproduce exactly: %s %s %s\n' % (sd, h, a[:3], b[:3])); broken = True; continue
            done.add(cls)
            text, tries = minimise(exes[v], open(path).read(), cls, tmp, 25)
            name = os.path.join(rdir, '%s-%d-%s.txt' % (prop, sd, hashlib.sha256(cls.encode()).hexdigest()[:6]))
            body = '#variant %s\n#seed %d\n#class %s\n' % (v, sd, cls) + text
            open(name, 'w').write(body)
            a, b = once(exes[v], name), once(exes[v], name)
            if not (a == b and a[0] == 'VIOLATION'):
                sys.stderr.write('minimised replay %s does not reproduce\n' % name); broken = True; continue
            out.append((name, sd, cls, a[3], tries))
        for name, what in extra:
            out.append((name, 0, 'generated code', what, 0))
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'wall_s': round(time.time() - t0, 2), 'violations': len(out),
            'coverage': {
                'evaluations': stat.get('runs', 0), 'distinct_nontrivial': len(states),
                'rule': RULES.get(prop, 'distinct hashes of (generator, node bounds, reported point, cuts returned) over calls that returned something'),
                'samples': [],
                'distinct_scenarios': len(scens), 'runs_reaching_a_nontrivial_state': stat.get('nontrivial', 0), 'fault_free_runs': stat.get('faultfree', 0),
                'inconclusive_runs': stat.get('inconclusive', 0),
                'runs_per_hour': int(stat.get('runs', 0) / max(explored, 0.1) * 3600), 'first_seed': seed * 100000000,
                'simulated_seconds': round(simtime, 3), 'library_basic_blocks_executed': stat.get('steps', 0), 'longest_call_in_blocks': stat.get('maxcall', 0),
                'faults_fired': {k[6:]: c for k, c in sorted(count.items()) if k.startswith('fault-')},
                'probes': {k: c for k, c in sorted(count.items()) if not k.startswith('fault-')},
                'determinism_reruns': stat.get('determinism', 0), 'determinism_mismatches': len(nondet),
                'library_blocks_covered': sum(1 for x in (cov or b'') if x), 'library_blocks_total': stat.get('covtotal', 0),
                'violation_classes': classes, 'known_findings_seen': kf,
                'real_code': 'all Cgl generators and helpers of the built directories, CoinUtils, Osi, Clp',
                'stubs': 'clock, file streams under /sim/, allocator wrapper, message channel, worker scheduling',
            },
            'assumptions': ['models are small enough for exhaustive enumeration of their feasible points', 'Clp, Osi and CoinUtils are trusted'],
        }
        # a few concrete scenarios explored
        for q in range(3):
            t = subprocess.run([exes[variants[0]], 'gen', prop, str(seed * 100000000 + q)], stdout=subprocess.PIPE, text=True).stdout
            ev['coverage']['samples'].append(t[:1500])
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s %s: %d runs (%d fault-free), %d distinct non-trivial states, %d inconclusive, %.1fs (build %.1fs)' % (prop, tier, stat.get('runs', 0), stat.get('faultfree', 0), len(states), stat.get('inconclusive', 0), time.time() - t0, tb))
        for name, sd, cls, detail, tries in out:
            print('  seed %d: %s: %s' % (sd, cls, detail[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, name))
        if out: sys.exit(1)
        if broken: sys.exit(2)
        if stat.get('runs', 0) == 0 or not states:
            sys.stderr.write('nothing explored\n'); sys.exit(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    main()
