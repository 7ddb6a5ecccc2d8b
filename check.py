#!/usr/bin/env python3
"""Runs the check of one property: check.py <property id>   (tier from VERIF_TIER, seed from VERIF_SEED)

1. builds the driver of the property against the working tree of /repo,
2. lets TLC check the laws of the specification and generate behaviours,
3. runs the driver: spec-generated and seeded random call sequences on the real library, every call recorded,
4. lets TLC validate every recorded trace against the specification.
Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402

JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NSHARD = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    with open(out, 'w') if out else open(os.devnull, 'w') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return 'timeout'


def tlc(work, name, module, cfg, timeout, env=None, workers=1, extra=(), heap='3g'):
    """Run TLC in the specification directory; returns (exit status, output text)."""
    cfgf = os.path.join(work, name + '.cfg')
    open(cfgf, 'w').write(cfg)
    outf = os.path.join(work, name + '.out')
    meta = os.path.join(work, name + '.meta')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Djava.io.tmpdir=' + work, '-cp', JAVA_CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfgf, *extra, module + '.tla']
    rc = run(cmd, timeout, env=env, cwd=SPEC, out=outf)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, open(outf, errors='replace').read()


def counts(text):
    m = re.findall(r'^([\d,]+) states generated, ([\d,]+) distinct states found', text, re.M)
    if not m:
        return 0, 0
    return int(m[-1][1].replace(',', '')), int(m[-1][0].replace(',', ''))


def build(bins, work):
    cmd = ['cargo', 'build', '--offline', '--quiet'] + [x for b in bins for x in ('--bin', b)]
    outf = os.path.join(work, 'build.out')
    rc = run(cmd, 700, cwd=os.path.join(ROOT, 'harness'), out=outf)
    if rc != 0:
        raise ToolError('build of the driver failed (%s):\n%s' % (rc, open(outf, errors='replace').read()[-4000:]))


def law(work, i, L, tier):
    consts = L.get('consts', {})
    cfg = 'SPECIFICATION %s\nCONSTANTS\n' % L.get('spec', 'Spec')
    cfg += ''.join(' %s %s\n' % (k, v if str(v).startswith('<-') else '= %s' % v) for k, v in consts.items())
    cfg += 'INVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % ' '.join(L['inv'])
    if not consts:
        cfg = cfg.replace('CONSTANTS\n', '')
    rc, text = tlc(work, 'law%d' % i, L['module'], cfg, 800, workers=L.get('workers', 2), heap='4g')
    if rc != 0 or 'No error has been found' not in text:
        raise ToolError('the specification violates its own laws (%s):\n%s' % (L, text[-3000:]))
    return counts(text)


def behaviours(work, G, tier, seed):
    """Call sequences generated by TLC from the specification."""
    n = G['num'] * (G.get('thorough', 8) if tier == 'thorough' else 1)
    cfg = ('SPECIFICATION GenSpec\nCONSTANTS\n Ops = {%s}\n GenRings = {%s}\n MaxDim = %d\n Family = "%s"\n Depth = %d\n Limit = %d\n'
           'INVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n') % (
        ','.join('"%s"' % o for o in G['ops']), ','.join('"%s"' % o for o in G['rings']),
        G.get('maxdim', 4), G.get('family', 'all'), G.get('depth', 10), G.get('limit', 1000))
    rc, text = tlc(work, 'gen', 'Gen', cfg, 300,
                   extra=['-simulate', 'num=%d' % n, '-depth', str(G.get('depth', 10) + 2), '-seed', str(seed)])
    rows = re.findall(r'^"BEHAVIOUR(.*)"$', text, re.M)
    if rc != 0 or not rows:
        raise ToolError('no behaviours generated:\n' + text[-2000:])
    f = os.path.join(work, 'behaviours.txt')
    open(f, 'w').write(''.join(r.replace('\\"', '"') + '\n' for r in rows))
    m = re.search(r'The number of states generated: ([\d,]+)', text)
    return f, len(rows), int(m.group(1).replace(',', '')) if m else 0


def validate(work, name, path, timeout=800):
    """TLC decides whether the trace is a behaviour of the specification. Returns (accepted, depth, length, counts)."""
    rc, text = tlc(work, name, 'Trace', open(os.path.join(SPEC, 'Trace.cfg')).read(), timeout, env={'TRACE': path})
    m = re.search(r'<<"TRACE", (\d+), (\d+)>>', text)
    if not m:
        raise ToolError('trace validation failed (%s) on %s:\n%s' % (rc, path, text[-3000:]))
    d, n = int(m.group(1)), int(m.group(2))
    if d < n and 'Accepted' not in text and 'ostcondition' not in text.lower():
        raise ToolError('trace validation stopped unexpectedly on %s:\n%s' % (path, text[-3000:]))
    return d == n, d, n, counts(text)


def replay_dir(pid):
    d = os.path.join(ROOT, 'replays', pid)
    os.makedirs(d, exist_ok=True)
    return d


def main():
    pid = sys.argv[1]
    C = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = os.path.join(ROOT, 'work', pid + '-' + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    scale = C.get('thorough_scale', 8) if tier == 'thorough' else C.get('quick_scale', 1)
    laws = list(C.get('laws', [])) + (list(C.get('laws_thorough', [])) if tier == 'thorough' else [])
    pool = concurrent.futures.ThreadPoolExecutor(NSHARD)
    viol = []
    states = trans = 0

    fb = pool.submit(build, C['bins'], work)
    fg = pool.submit(behaviours, work, C['gen'], tier, seed) if 'gen' in C else None
    flaws = [pool.submit(law, work, i, L, tier) for i, L in enumerate(laws)]

    fb.result()
    tb = time.time() - t0
    beh, nbeh, gstates = (fg.result() if fg else ('-', 0, 0))
    # run the drivers on the code under test
    sessions = events = 0
    ops = {}
    full = {}
    shards = [[] for _ in range(NSHARD)]
    # (a driver may be split into parts that run at the same time)
    jobs = []
    for b in C['bins']:
        n = C.get('parts', 1)
        for i in range(n):
            d = os.path.join(work, '%s.%d' % (b, i))
            os.makedirs(d)
            jobs.append((b, d, pool.submit(
                run, [os.path.join(ROOT, 'harness', 'target', 'debug', b), d, str(seed), str(scale), beh],
                C.get('driver_timeout', 500), env={'VERIF_PART': '%d/%d' % (i, n)}, out=os.path.join(d, 'driver.out'))))
    for b, d, fut in jobs:
        rc = fut.result()
        if rc in (3, 101):
            raise ToolError('driver failed:\n' + open(os.path.join(d, 'driver.out')).read()[-2000:])
        if rc != 0:
            # the process died or hung inside a call of the library
            cur = open(os.path.join(d, 'current.txt')).readline()
            r = os.path.join(replay_dir(pid), '%s-%d-%s.txt' % (tier, seed, b))
            open(r, 'w').write('driver %s ended with %s during call\n%s\n' % (b, rc, cur))
            viol.append((r, 'driver ended with %s during call %s' % (rc, cur.strip()[:300])))
            continue
        s = json.load(open(os.path.join(d, 'stats.json')))
        sessions += s['sessions']
        events += s['events']
        for k, v in s['ops'].items():
            ops[k] = ops.get(k, 0) + v
        for k, v in s['full'].items():
            full[k] = full.get(k, 0) + v
        for i in range(NSHARD):
            shards[i].append(os.path.join(d, 'trace%d.ndjson' % i))
    td = time.time() - t0
    # validate the recorded traces
    paths = []
    for i, fs in enumerate(shards):
        p = os.path.join(work, 'trace%d.ndjson' % i)
        with open(p, 'w') as out:
            for f in fs:
                shutil.copyfileobj(open(f), out)
        if os.path.getsize(p) > 0:
            paths.append(p)
    futs = {pool.submit(validate, work, 'v%d' % i, p): (i, p) for i, p in enumerate(paths)}
    ok_events = 0
    samples = []
    for fu in concurrent.futures.as_completed(futs):
        i, p = futs[fu]
        acc, d, n, (st, tr) = fu.result()
        states += st
        trans += tr
        ok_events += d
        lines = None
        if not samples:
            lines = open(p).read().splitlines()
            samples = [x[:400] for x in lines[:3] + lines[len(lines) // 2:len(lines) // 2 + 2]]
        if acc:
            continue
        lines = lines or open(p).read().splitlines()
        bad = d  # index of the first line that no action explains
        start = max(k for k in range(bad + 1) if '"op":"begin"' in lines[k])
        end = bad + 1
        r = os.path.join(replay_dir(pid), '%s-%d-%d.ndjson' % (tier, seed, i))
        open(r, 'w').write('\n'.join(lines[start:end]) + '\n')
        acc2, d2, n2, _ = validate(work, 'r%d' % i, r)
        if acc2:
            raise ToolError('violation at %s:%d does not reproduce from its session' % (p, bad + 1))
        viol.append((r, lines[start][:200] + ' ... ' + lines[bad][:600]))
    for f in flaws:
        st, tr = f.result()
        states += st
        trans += tr
    wall = time.time() - t0
    extra = {}
    if 'post' in C:
        pv, extra = C['post'](work, tier, seed)
        viol += pv
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': dict({
            'states': states, 'transitions': trans, 'traces_validated_against_impl': sessions,
            'calls_recorded': events, 'calls_explained': ok_events,
            'behaviours_generated_by_model': nbeh, 'calls_by_operation': ops, 'calls_with_nonzero_result': full,
            'laws_checked': sorted({x for L in laws for x in L['inv']}),
            'samples': samples}, **extra),
        'assumptions': ['TLC evaluates the specification correctly',
                        'floating point results are compared with exact ones within 1e-6 (f32: 1e-2)'],
        'wall_s': round(wall, 1), 'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s %s seed=%d: %d sessions, %d calls, %d states; build %.0fs, driver at %.0fs, total %.0fs' %
        (pid, tier, seed, sessions, events, states, tb, td, wall))
    if viol:
        for r, what in viol:
            log('  ' + what)
        log('VIOLATION property=%s replay=%s' % (pid, viol[0][0]))
        return 1
    shutil.rmtree(work, ignore_errors=True)
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except ToolError as e:
        log('ERROR', e)
        rc = 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
