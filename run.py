#!/usr/bin/env python3
"""Driver: build /repo's current tree into simulation harnesses, run a property's
seeded search, gate and report violations, write evidence.

  run.py check <property>            quick or thorough by VERIF_TIER
  run.py replay <file>               rebuild and replay one minimised file
  run.py determinism <property>...   same seeds in separate processes, diff the hashes
  run.py build [harness...]
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VITAL_REPO', '/repo')
BUILD = os.environ.get('VITAL_SIM_BUILD', os.path.join(VERIF, '.build'))
sys.path.insert(0, VERIF)
from props import HARNESS, PROPS  # noqa: E402

NCPU = min(8, os.cpu_count() or 4)


def die(msg):
    print('ERROR: ' + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, log, **kw):
    with open(log, 'a') as f:
        f.write('+ ' + ' '.join(cmd) + '\n')
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    return r.returncode


def write_if_changed(path, text, mode=None):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)
    if mode:
        os.chmod(path, mode)


WRAP = '''#!/bin/bash
# compile {repo} sources with memory-access instrumentation (own runtime, no libtsan at link)
i=0; for a in "$@"; do case "$a" in {repo}/*.c|{repo}/*.cxx|{repo}/*.cpp|{repo}/*.cc) i=1;; *cmTC_*) i=2; break;; esac; done
if [ $i = 1 ]; then exec {cc} "$@" -fsanitize=thread -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -O1 -g1 -w {guard} -include {verif}/sim/instr_string.h; else exec {cc} "$@"; fi
'''
GUARD = ''
CXX = 'g++'
CC = 'gcc'


def configure():
    os.makedirs(BUILD, exist_ok=True)
    log = os.path.join(BUILD, 'configure.log')
    for n, cc in (('simcc', '/usr/bin/gcc'), ('simcxx', '/usr/bin/g++')):
        write_if_changed(os.path.join(BUILD, n), WRAP.format(repo=REPO, cc=cc, guard=GUARD, verif=VERIF), 0o755)
    open(log, 'w').close()
    env = dict(os.environ)
    for v in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS', 'CC', 'CXX'):
        env.pop(v, None)
    env['LC_ALL'] = 'C.UTF-8'
    b = os.path.join(BUILD, 'repo')
    rc = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja',
             '-DCMAKE_C_COMPILER=' + os.path.join(BUILD, 'simcc'), '-DCMAKE_CXX_COMPILER=' + os.path.join(BUILD, 'simcxx'),
             '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DVITAL_ENABLE_TESTS=OFF', '-DBUILD_TESTING=OFF', '-DVITAL_ENABLE_TOOLS=ON',
             '-DVITAL_ENABLE_C_LIB=ON', '-DVITAL_ENABLE_PYTHON=OFF', '-DVITAL_ENABLE_LOG4CXX=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
             '-DKWSYS_USE_Process=1', '-DKWSYS_USE_Glob=1', '-DKWSYS_USE_FStream=1', '-DKWSYS_USE_MD5=1', '-DKWSYS_USE_Base64=1'], log, env=env)
    if rc:
        print(open(log).read()[-3000:], file=sys.stderr)
        die('cmake configure of /repo failed')
    return json.load(open(os.path.join(b, 'compile_commands.json')))


def build(names):
    """build the named harness executables; returns {name: path}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    cc = configure()
    rb = os.path.join(BUILD, 'repo')
    outs = [c['output'] for c in cc]
    log = os.path.join(BUILD, 'build.log')
    open(log, 'w').close()
    need, links = set(), {}
    for n in names:
        h = HARNESS[n]
        objs = [o for o in outs if re.search(h['objs'], o) and not re.search(h.get('noobjs', r'^$'), o)]
        if not objs:
            die('no objects of /repo match harness ' + n)
        links[n] = objs
        need.update(objs)
    p = subprocess.Popen(['ninja', '-C', rb, '-j%d' % NCPU] + sorted(need), stdout=open(log + '.repo', 'w'), stderr=subprocess.STDOUT)
    inc = '-I%s -I%s -I%s/repo -isystem /usr/include/eigen3 -isystem %s/repo/vital/kwiversys' % (os.path.join(VERIF, 'sim'), REPO, BUILD, BUILD)
    t = ['ninja_required_version = 1.5', 'builddir = ' + BUILD,
         'rule eng', '  command = %s -std=c++17 -O2 -g1 -w -fno-pie -MD -MF $out.d -c $in -o $out %s $x' % (CXX, inc), '  depfile = $out.d',
         'rule har', '  command = %s -std=c++11 -O1 -g1 -w -fno-pie -fsanitize=thread -MD -MF $out.d -c $in -o $out %s $x' % (CXX, inc), '  depfile = $out.d',
         'rule nat', '  command = %s -O2 -g1 -w -fno-pie -MD -MF $out.d -c $in -o $out %s $x' % (CC, inc), '  depfile = $out.d',
         'rule lnk', '  command = %s -no-pie -rdynamic -o $out $in $x -ldl -lpthread' % CXX,
         'rule cmd', '  command = $c']
    done = set()
    exes = {}
    for n in names:
        h = HARNESS[n]
        objs = []
        for s in h['harness']:
            o = os.path.join(BUILD, 'h_' + s.replace('/', '_') + '.o')
            if o not in done:
                t.append('build %s: %s %s' % (o, 'nat' if s.endswith('.c') else 'eng' if s in h.get('plain', []) else 'har', os.path.join(VERIF, 'harness', s)))
                done.add(o)
            objs.append(o)
        for s in h['engine']:
            o = os.path.join(BUILD, 'e_' + s + '.o')
            if o not in done:
                t.append('build %s: eng %s' % (o, os.path.join(VERIF, 'sim', s)))
                done.add(o)
            objs.append(o)
        links[n] = (links[n], objs)
    write_if_changed(os.path.join(BUILD, 'build.ninja'), '\n'.join(t) + '\n')
    # generated export headers come from configure, so harness objects can be compiled right away
    rc2 = sh(['ninja', '-C', BUILD, '-f', 'build.ninja', '-j%d' % NCPU] + sorted(done), log)
    rc1 = p.wait()
    if rc1:
        print(open(log + '.repo').read()[-4000:], file=sys.stderr)
        die('building /repo objects failed')
    if rc2:
        print(open(log).read()[-4000:], file=sys.stderr)
        die('building harness failed')
    t2 = list(t)
    for n in names:
        h = HARNESS[n]
        robj = [os.path.join(rb, o) for o in links[n][0]]
        if h.get('redefine'):
            newr = []
            for o in robj:
                if re.search(h['redefine'][0], o):
                    q = os.path.join(BUILD, 'r_%s_%s' % (n, os.path.basename(o)))
                    t2.append('build %s: cmd %s | %s' % (q, o, os.path.join(VERIF, 'sim', h['redefine'][1])))
                    t2.append('  c = objcopy --redefine-syms=%s %s %s %s' % (os.path.join(VERIF, 'sim', h['redefine'][1]), ' '.join(h.get('objcopy', [])), o, q))
                    newr.append(q)
                else:
                    newr.append(o)
            robj = newr
        exe = os.path.join(BUILD, 'sim_' + n)
        t2.append('build %s: lnk %s' % (exe, ' '.join(robj + links[n][1])))
        t2.append('  x = ' + h.get('ldflags', ''))
        exes[n] = exe
    write_if_changed(os.path.join(BUILD, 'link.ninja'), '\n'.join(t2) + '\n')
    if sh(['ninja', '-C', BUILD, '-f', 'link.ninja', '-j%d' % NCPU] + sorted(exes.values()), log):
        print(open(log).read()[-4000:], file=sys.stderr)
        die('linking harness failed')
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exes


def symbolize(exe, text):
    pcs = re.findall(r'\[pc (0x[0-9a-f]+)\]', text)
    if not pcs:
        return ''
    try:
        o = subprocess.run(['addr2line', '-Cfe', exe] + pcs, capture_output=True, text=True, timeout=60).stdout.split('\n')
    except Exception:
        return ''
    return '; '.join('%s = %s at %s' % (pc, o[2 * i], os.path.relpath(o[2 * i + 1], REPO) if o[2 * i + 1].startswith(REPO) else o[2 * i + 1]) for i, pc in enumerate(pcs) if 2 * i + 1 < len(o))


def known_findings(prop):
    sigs = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                sigs[m.group(2)] = m.group(3)
    return sigs


def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    print('VERIF_SEED=%d tier=%s property=%s' % (seed, tier, prop), flush=True)
    P = PROPS[prop]
    t0 = time.time()
    exe = build([P['harness']])[P['harness']]
    tb = time.time() - t0
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(prop)
    runs = P['runs'] if tier == 'quick' else P.get('runs_thorough', P['runs'] * 12)
    wall = P.get('wall', 150) if tier == 'quick' else P.get('wall_thorough', 700)
    procs = []
    wd = os.path.join(BUILD, 'work.%d' % os.getpid())
    os.makedirs(wd, exist_ok=True)
    t1 = time.time()
    for w in range(NCPU):
        out = os.path.join(wd, 'w%d.json' % w)
        cmd = [exe, '--prop', prop, '--seed', str(seed), '--runs', str(runs), '--worker', str(w), '--workers', str(NCPU), '--out', out,
               '--wall', str(wall), '--replay-out', rdir]
        for k in known:
            cmd += ['--known', k]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))
    # stop everyone shortly after a violation was minimised
    viol_at, pending = None, list(procs)
    while pending:
        for p in list(pending):
            if p[0].poll() is not None:
                pending.remove(p)
                if p[0].returncode in (1, 3) and viol_at is None:
                    viol_at = time.time()
        if viol_at and time.time() - viol_at > 25:
            for p in pending:
                p[0].kill()
            break
        time.sleep(0.05)
    simwall = time.time() - t1
    agg = dict(done=0, nontrivial=0, steps=0, switches=0, simtime_s=0.0, overflow=0, max_choices=0)
    hashes, counters, samples, kn, viols, errs, capped = set(), {}, [], {}, [], [], False
    for p, out in procs:
        txt = p.stdout.read()
        p.wait()
        if p.returncode not in (0, 1) and p.returncode != -9:
            errs.append('worker exit %s: %s' % (p.returncode, txt[-600:]))
        if not os.path.exists(out):
            continue
        try:
            d = json.load(open(out))
        except ValueError as e:
            errs.append('worker output unreadable: %s' % e)
            continue
        for k in agg:
            agg[k] = max(agg[k], d[k]) if k == 'max_choices' else agg[k] + d[k]
        hashes.update(d['hashes'])
        capped |= d['capped']
        for k, v in d['counters'].items():
            counters[k] = counters.get(k, 0) + v
        samples += d['samples']
        for k, v in d['known'].items():
            o = kn.get(k, [0, v[1]])
            kn[k] = [o[0] + v[0], o[1]]
        if d['violation']['sig']:
            viols.append(d['violation'])
    subprocess.run(['rm', '-rf', wd])
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('fault.')}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('probe.')}
    other = {k: v for k, v in sorted(counters.items()) if not k.startswith(('fault.', 'probe.'))}
    hrs = max(simwall, 1e-3) / 3600.0
    # gate: the minimised file must reproduce in fresh processes
    confirmed = []
    for v in viols:
        ok = True
        for _ in range(2):
            r = subprocess.run([exe, '--replay', v['path']], capture_output=True, text=True)
            if r.returncode != 1:
                ok = False
                errs.append('replay of %s in a fresh process: exit %d\n%s' % (v['path'], r.returncode, r.stdout[-500:]))
                break
        if ok:
            confirmed.append(v)
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'exploration'),
              coverage=dict(evaluations=agg['done'], distinct_nontrivial=len(hashes), rule=P['rule'], samples=[s[:2500] for s in samples[:3]],
                            simulated_runs_per_hour=int(agg['done'] / hrs), seeds_per_hour=int(agg['done'] / hrs), simulated_time_s=round(agg['simtime_s'], 6),
                            nontrivial_runs=agg['nontrivial'], injected_faults=faults, fault_injections_total=sum(faults.values()), rare_condition_probes=probes, workload_counters=other,
                            scheduler_switches=agg['switches'], instrumented_accesses=agg['steps'],
                            distinct_measure='distinct 64-bit hashes of the full event log (operations, schedule switches, faults, observed results) among non-trivial runs',
                            longest_choice_sequence=agg['max_choices'], runs_truncated_by_choice_cap=agg['overflow'], wall_cap_reached=capped,
                            real_components=P['real'], stub_components=P['stub'], exhaustive=False, known_findings_hit={k: v[0] for k, v in kn.items()}),
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in known:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s (%d runs; e.g. %s)' % (prop, known[k], kn[k][0], kn[k][1][:200]))
    print('%d runs (%d distinct non-trivial), %.1fs simulated, %d faults injected, build %.1fs, search %.1fs' %
          (agg['done'], len(hashes), agg['simtime_s'], sum(faults.values()), tb, simwall))
    if confirmed:
        for v in sorted(confirmed, key=lambda v: v['choices']):
            print('VIOLATION property=%s replay=%s' % (prop, v['path']))
            print('  %s: %s' % (v['sig'], v['msg']))
            s = symbolize(exe, v['msg'])
            if s:
                print('  ' + s)
            print('  seed=%d run=%d minimised to %d choices' % (seed, v['run'], v['choices']))
        sys.exit(1)
    if viols:
        # found, but the fresh process behaved differently: the code under test reads something outside the simulation
        print('\n'.join(errs))
        for v in sorted(viols, key=lambda v: v['choices']):
            print('VIOLATION property=%s replay=%s' % (prop, v['path']))
            print('  %s: %s' % (v['sig'], v['msg']))
            print('  seed=%d run=%d; the replay differs between processes (uninitialised memory?)' % (seed, v['run']))
        sys.exit(1)
    if errs:
        die('\n'.join(errs))
    if agg['done'] == 0 or len(hashes) < P.get('min_distinct', 50):
        die('the search did not reach its minimum coverage: %d runs, %d distinct' % (agg['done'], len(hashes)))
    missing = [p for p in P.get('require_probes', []) if not counters.get('probe.' + p)]
    if missing:
        print('note: probes never hit in this run: ' + ', '.join(missing))
    print('OK property=%s held on everything explored' % prop)


def determinism(props, runs=600):
    bad = 0
    exes = build(sorted({PROPS[p]['harness'] for p in props}))
    for p in props:
        outs = []
        jobs = []
        for rep in range(3):
            nw = (1, 3, 8)[rep]
            for w in range(nw):
                o = os.path.join(BUILD, 'det_%s_%d_%d' % (p, rep, w))
                jobs.append(subprocess.Popen([exes[PROPS[p]['harness']], '--prop', p, '--seed', '77', '--runs', str(runs), '--worker', str(w), '--workers', str(nw), '--hashes', o, '--wall', '600'] + sum([['--known', k] for k in known_findings(p)], []), stdout=subprocess.DEVNULL))
                outs.append((rep, o))
        for j in jobs:
            j.wait()
        res = [dict(), dict(), dict()]
        for rep, o in outs:
            for l in open(o):
                k, rest = l.split(' ', 1)
                res[rep][k] = rest
            os.unlink(o)
        same = res[0] == res[1] == res[2]
        print('%-34s %s (%d runs x3 in 12 processes, %d distinct)' % (p, 'deterministic' if same else 'DIVERGES', len(res[0]), len(set(res[0].values()))))
        if not same:
            bad = 1
            d = [k for k in res[0] if not (res[0].get(k) == res[1].get(k) == res[2].get(k))]
            print('   first diverging runs: ' + ' '.join(sorted(d, key=int)[:8]))
    sys.exit(bad)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == 'check':
        check(a[1])
    elif a[0] == 'build':
        print(build(a[1:] or sorted(HARNESS)))
    elif a[0] == 'replay':
        prop = [l.split()[1] for l in open(a[1]) if l.startswith('property ')][0]
        exe = build([PROPS[prop]['harness']])[PROPS[prop]['harness']]
        r = subprocess.run([exe, '--replay', a[1]])
        sys.exit(r.returncode)
    elif a[0] == 'determinism':
        determinism(a[1:] or sorted(PROPS))
    else:
        die(__doc__)


if __name__ == '__main__':
    main()
