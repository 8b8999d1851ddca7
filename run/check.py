#!/usr/bin/env python3
"""Decide one property: check.py <PROPERTY>.

Builds the harness against the working tree of the library, records what the library does on the
call sequences of the property, and has TLC judge every recorded call with the specification.
Model-checking jobs explore the specification itself; walk jobs turn its state graph into call
sequences.  Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed.
"""
import collections, concurrent.futures, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'run'))
import jobs as J

T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
TIER = TIER if TIER in ('quick', 'thorough') else 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
WORK = os.path.join(ROOT, 'work', PROP)
REPLAY = os.path.join(ROOT, 'work', 'replay', PROP)
BIN = {'std': os.path.join(ROOT, 'harness/target/debug/harness'),
       'nostd': os.path.join(ROOT, 'harness/target-nostd/debug/harness')}
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None, stdout=subprocess.PIPE):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=stdout, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise CheckError('timeout: %s' % ' '.join(cmd[:6]))
    return p.returncode, (p.stdout or b'').decode('utf8', 'replace')


def build(kinds):
    for k in sorted(kinds):
        args = ['bash', os.path.join(ROOT, 'tools/cargo.sh'), 'build', '--offline', '--locked', '-q']
        if k == 'nostd':
            args += ['--no-default-features', '--features', 'nostd',
                     '--target-dir', os.path.join(ROOT, 'harness/target-nostd')]
        rc, out = sh(args, 600)
        if rc != 0:
            raise CheckError('harness build (%s) failed:\n%s' % (k, out[-4000:]))


def tlc(meta, module, cfg, workers, env, timeout, heap='3g', extra=()):
    args = ['bash', os.path.join(ROOT, 'tools/tlc.sh'), meta, module, '-config', cfg,
            '-workers', str(workers)] + list(extra)
    e = {'TLC_HEAP': heap}
    e.update(env)
    rc, out = sh(args, timeout, e)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\}', re.S)
# calls of a trace that may be left undecided
UNJUDGED = 12
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


class Result:
    def __init__(self, name):
        self.name, self.rejects, self.events, self.lines = name, [], 0, set()
        self.states = self.transitions = self.traces = self.undecided = 0
        self.sample = None
        self.wall = 0


def run_mc(k, job):
    r = Result('mc:' + job['cfg'])
    rc, out = tlc(os.path.join(WORK, 'mc%d' % k), job['module'], job['cfg'], job.get('workers', 2),
                  {'PROP': PROP}, job.get('timeout', 600), job.get('heap', '3g'))
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('model checking %s failed:\n%s' % (job['cfg'], out[-3000:]))
    m = STATES.findall(out)[-1]
    r.transitions, r.states = int(m[0]), int(m[1])
    return r


def validate(r, k, name, module, prop, trace):
    """Judge one recorded trace with the specification."""
    script = open(trace + '.script').read().split('\n')
    n = sum(1 for _ in open(trace))
    if n == 0:
        return
    for attempt in range(UNJUDGED + 1):
        rc, out = tlc(os.path.join(WORK, 'tv%s' % k), module, module + '.cfg', 1,
                      {'PROP': prop, 'TRACE': trace}, 800)
        if rc == 0 and 'No error has been found' in out:
            break
        # A call whose numbers leave the range of the specification is left undecided, and counted.
        m = STATES.findall(out)
        at = int(m[-1][1]) if m else 0
        if not 1 <= at <= n or attempt == UNJUDGED:
            if not REJ.search(out):
                raise CheckError('trace %s could not be judged:\n%s' % (name, out[-3000:]))
            break
        r.undecided += 1
        events = open(trace).read().split('\n')
        events[at - 1] = re.sub(r'\}\s*$', ',"undecided":1}', events[at - 1])
        open(trace, 'w').write('\n'.join(events))
    r.traces += 1
    r.events += n
    r.lines.update(hash(x) for x in script if x)
    if r.sample is None:
        r.sample = script[min(len(script) - 1, n // 2)]
    for m in REJ.finditer(out):
        faults = re.findall(r'"([^"]*)"', m.group(3))
        r.rejects.append((int(m.group(1)), m.group(2), faults, trace, module, prop, name))


def run_trace(k, job):
    name = job.get('name') or '-'.join(str(a) for a in job['args'])
    r = Result('trace:' + name)
    trace = os.path.join(WORK, 't%s.ndjson' % k)
    args = [str(a) for a in job['args']]
    args = [args[0], trace] + args[1:]
    with open(os.devnull, 'w') as null:
        rc, _ = sh([BIN[job.get('bin', 'std')]] + args, 700, stdout=null)
    if rc == 3 and os.path.exists(trace + '.hang'):
        what = open(trace + '.hang').read()
        r.rejects.append((0, 'hang', ['does not return: ' + what], trace, None, None, name))
        return r
    if rc != 0:
        # the process died: abort, stack overflow, ... inside the library
        r.rejects.append((0, 'abort', ['process ended with status %d' % rc], trace, None, None, name))
        return r
    validate(r, k, name, job['module'], job.get('prop', PROP), trace)
    if not job.get('keep') and not r.rejects:
        os.remove(trace)
        os.remove(trace + '.script')
    return r


def float_text(tok):
    return {0: 'q%d' % tok[1], 2: 'x7fc00000', 3: 'x7f800000', 4: 'xff800000'}[tok[0]]


def walk_scripts(job, meta, nchunks):
    """Call sequences that together take every transition of the state graph of a small model."""
    rc, out = tlc(meta, job['module'], job['cfg'], 1, {'PROP': PROP}, 600)
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('model checking %s failed:\n%s' % (job['cfg'], out[-3000:]))
    gen = STATES.findall(out)[-1]
    edges = collections.OrderedDict()
    pat = re.compile(r'<<\s*"EDGE",\s*<<([^>]*)>>,\s*"(\w+)",\s*<<([^>]*)>>,\s*<<(.*?)>>,\s*<<([^<>]*)>>\s*>>(?!\s*,)', re.S)
    pair = re.compile(r'<<\s*(-?\d+),\s*(-?\d+)\s*>>')
    for m in pat.finditer(out):
        src = tuple(int(x) for x in m.group(1).split(','))
        dst = tuple(int(x) for x in m.group(5).split(','))
        fl = [float_text((int(a), int(b))) for a, b in pair.findall('<<' + m.group(4) + '>>' if m.group(4) else '')]
        line = '%s %s | %s' % (m.group(2), m.group(3).replace(',', ' '), ' '.join(fl))
        edges[(src, line)] = dst
    succ = collections.defaultdict(list)
    for (s, line), d in edges.items():
        succ[s].append((line, d))
    start = tuple(job.get('start') or (0 for _ in next(iter(edges))[0]))
    # shortest path to every state
    path, queue = {start: []}, collections.deque([start])
    while queue:
        s = queue.popleft()
        for line, d in succ[s]:
            if d not in path:
                path[d] = path[s] + [line]
                queue.append(d)
    todo = {s: {'loop': [l for l, d in v if d == s], 'out': [(l, d) for l, d in v if d != s]}
            for s, v in succ.items()}
    total = len(edges)
    seqs, cur, at = [], [], None
    limit = total // nchunks + 1

    def nearest(s):
        seen, q = {s}, collections.deque([(s, [])])
        while q:
            t, p = q.popleft()
            if t in todo and (todo[t]['loop'] or todo[t]['out']):
                return t, p
            for line, d in succ[t]:
                if d not in seen:
                    seen.add(d)
                    q.append((d, p + [line]))
        return None
    left = total
    while left:
        if at is None or len(cur) > limit:
            if cur:
                seqs.append(cur)
            cur = []
            at = next(s for s in path if s in todo and (todo[s]['loop'] or todo[s]['out']))
            cur += job['reset'] + path[at]
        t = todo[at]
        left -= len(t['loop'])
        cur += t['loop']
        t['loop'] = []
        if t['out']:
            line, d = t['out'].pop()
            left -= 1
            cur.append(line)
            at = d
            continue
        if left == 0:
            break
        n = nearest(at)
        if n is None:
            at = next(s for s in path if s in todo and (todo[s]['loop'] or todo[s]['out']))
            cur += job['reset'] + path[at]
        else:
            cur += n[1]
            at = n[0]
    if cur:
        seqs.append(cur)
    return int(gen[1]), int(gen[0]), total, seqs


def run_walk(k, job, pool_run):
    r = Result('walk:' + job['cfg'])
    states, trans, total, seqs = walk_scripts(job, os.path.join(WORK, 'wk%d' % k), job.get('chunks', 6))
    r.states, r.transitions = states, trans
    sub = []
    for c, lines in enumerate(seqs):
        path = os.path.join(WORK, 'walk%d_%d.txt' % (k, c))
        open(path, 'w').write('\n'.join(lines) + '\n')
        sub.append(('%d_%d' % (k, c), {'args': [job.get('mode', 'exec'), path], 'module': job['trace'],
                                       'prop': job.get('prop', PROP), 'name': 'walk %s part %d' % (job['cfg'], c)}))
    with concurrent.futures.ThreadPoolExecutor(job.get('chunks', 6)) as ex:
        for x in ex.map(lambda a: run_trace(*a), sub):
            r.rejects += x.rejects
            r.events += x.events
            r.traces += x.traces
            r.undecided += x.undecided
            r.lines |= x.lines
            r.sample = r.sample or x.sample
    return r


def known():
    """Lines `known: property=<id> op=<call> fault=<fault> <what fails>` of the findings file."""
    res = []
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) op=(\S+) fault="([^"]*)" (.*)', line.strip())
        if m:
            res.append(m.groups())
    return res


def write_replay(rej, idx):
    l, op, faults, trace, module, prop, name = rej
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, '%s_%d.txt' % (re.sub(r'\W+', '_', op) or 'x', idx))
    out = ['property %s, call %s: %s' % (PROP, op, '; '.join(faults)), 'source: %s' % name]
    if module:
        events = open(trace).read().split('\n')
        script = open(trace + '.script').read().split('\n')
        out += ['recorded: ' + events[l - 1]]
        seq = script[:l] if module in J.SEQUENTIAL else script[l - 1:l]
        out += ['replay with: harness %s OUT.ndjson SCRIPT, then TRACE=OUT.ndjson PROP=%s tools/tlc.sh META %s'
                % (J.REPLAY_MODE.get(module, 'exec'), prop, module),
                'script (%d calls):' % len(seq)] + seq
    open(path, 'w').write('\n'.join(out) + '\n')
    return path


def main():
    table = J.table(PROP, TIER, SEED)
    shutil.rmtree(WORK, ignore_errors=True)
    shutil.rmtree(REPLAY, ignore_errors=True)
    os.makedirs(WORK)
    build({j.get('bin', 'std') for j in table if j['kind'] != 'mc'} or {'std'})
    results = []

    def go(item):
        k, job = item
        t = time.time()
        r = {'mc': run_mc, 'trace': run_trace}[job['kind']](k, job) if job['kind'] != 'walk' else run_walk(k, job, None)
        r.wall = time.time() - t
        return r
    errors = []
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(go, x) for x in enumerate(table)]
        for f in futs:
            try:
                results.append(f.result())
            except CheckError as e:
                errors.append(str(e))
    if os.environ.get('VERIF_VERBOSE'):
        for r in results:
            print('%6.1fs %8d events %3d rejects %8d states  %s' % (r.wall, r.events, len(r.rejects), r.states, r.name))
    rejects = [x for r in results for x in r.rejects]
    kn, fresh, hits = known(), [], {}
    for x in rejects:
        rest = [f for f in x[2] if not any(p == PROP and o == x[1] and q == f for p, o, q, _ in kn)]
        for p, o, q, text in kn:
            if p == PROP and o == x[1] and q in x[2]:
                hits[(o, q)] = text
        if rest or not x[2]:
            fresh.append(x)
    for (o, q), text in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (PROP, text))
    mc = [r for r in results if r.states]
    lines = set()
    for r in results:
        lines |= r.lines
    ops = collections.Counter()
    cov = {
        'states': sum(r.states for r in results),
        'transitions': sum(r.transitions for r in results),
        'traces_validated_against_impl': sum(r.traces for r in results),
        'events_judged': sum(r.events for r in results),
        'distinct_calls': len(lines),
        'undecided_calls': sum(r.undecided for r in results),
        'models': [{'model': r.name, 'states': r.states, 'transitions': r.transitions} for r in mc],
        'samples': [{'from': r.name, 'call': r.sample} for r in results if r.sample][:8],
    }
    if J.LEVEL.get(PROP, 'model_checking') == 'exploration':
        cov['evaluations'] = cov.pop('events_judged')
        cov['distinct_nontrivial'] = cov.pop('distinct_calls')
        cov['rule'] = 'distinct recorded calls (arguments and call) each judged by the specification'
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': J.LEVEL.get(PROP, 'model_checking'),
          'coverage': cov, 'assumptions': J.ASSUMPTIONS.get(PROP, []) + J.COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - T0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        groups = collections.OrderedDict()
        for x in sorted(fresh, key=lambda x: (x[0] or 1 << 30)):
            groups.setdefault((x[1], tuple(x[2])), []).append(x)
        for k, ((op, faults), xs) in enumerate(groups.items()):
            if k >= 12:
                break
            path = write_replay(xs[0], k)
            print('%s: %s (%d times, first in %s call %d)' % (op, '; '.join(faults), len(xs), xs[0][6], xs[0][0]))
            print('VIOLATION property=%s replay=%s' % (PROP, path))
        for e in errors:
            print('also: ' + e)
        return 1
    if errors:
        for e in errors:
            print('CHECK ERROR: ' + e)
        return 2
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(WORK, ignore_errors=True)
    print('%s held: %d events in %d traces judged, %d model states, %.1f s' % (
        PROP, cov.get('events_judged', cov.get('evaluations')), cov['traces_validated_against_impl'], cov['states'], time.time() - T0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        sys.exit(2)
