"""The stages of the checks and the plan of each property."""
import glob, json, os, random, re
from vlib import Result, CheckError, sample_lines, SPEC, findings

PARALLEL = 7
ASSUMPTIONS = {'*': ['TLC and the CommunityModules evaluate the specification correctly',
                     'the driver records calls, results and file contents as they are',
                     'what was not explored by the stated seeds and bounds is not covered']}

def count(out, word):
    m = re.search(r'\b%s (\d+)' % word, out or '')
    return int(m.group(1)) if m else 0

def sessions(prof, n, salt=0, secs=0, ids=False):
    """random sessions of calls on the real library, checked against Speed"""
    def job(ctx):
        res = Result('sessions-%s-%d' % (prof, salt))
        d = ctx.dir('s')
        tr = os.path.join(d, 'trace.ndjson')
        seed = ctx.seed * 1000003 + salt * 7919 + sum(map(ord, prof))
        args = ['sessions', '-out', tr, '-n', n, '-seed', seed, '-prof', prof, '-secs', secs]
        pairs = [k[len('pair='):].split(':') for k, _ in findings('P18') if k.startswith('pair=')] if ids else []
        if ids:
            f = os.path.join(d, 'known.txt')
            open(f, 'w').write(''.join('\t'.join(p) + '\n' for p in pairs))
            args += ['-ids', f]
        _, out = ctx.drive(res, args, name=prof)
        if out is not None:
            res.traces, res.events = count(out, 'sessions'), count(out, 'events')
            ctx.tlc(res, 'SpeedTrace.tla', 'SpeedTrace.cfg', env={'TRACE': tr}, replay=tr)
            res.samples = sample_lines(tr, 2)
            if ids:
                # the symbols of a pair, back to its names
                strs = json.loads(open(tr).readline())['strs']
                names = {i + 1: bytes(b).decode('utf-8', 'replace') for i, b in enumerate(strs)}
                seen = {frozenset(names[int(x)] for x in re.findall(r'\d+', k)) for k in res.known}
                res.known = {'pair=' + ':'.join(p) for p in pairs if frozenset(p[1:]) in seen}
        return res
    return job

def enumerated(prof, parts, part=0):
    """sessions that go through all of something, a part of them, checked against Speed"""
    def job(ctx):
        res = Result('%s-%d-of-%d' % (prof, part + 1, parts))
        tr = os.path.join(ctx.dir('s'), 'trace.ndjson')
        _, out = ctx.drive(res, ['sessions', '-out', tr, '-seed', ctx.seed, '-prof', prof, '-from', part, '-step', parts], name=prof)
        if out is not None:
            res.traces, res.events = count(out, 'sessions'), count(out, 'events')
            ctx.tlc(res, 'SpeedTrace.tla', 'SpeedTrace.cfg', env={'TRACE': tr}, replay=tr)
            res.samples = sample_lines(tr, 2)
        return res
    return job

def traced(cmd, module, n, salt=0, args=(), word='sessions', race=False, timeout=300):
    """a driver command that writes a trace, checked against a specification of its own"""
    def job(ctx):
        res = Result('%s-%d' % (cmd, salt))
        d = ctx.dir('s')
        tr = os.path.join(d, 'trace.ndjson')
        _, out = ctx.drive(res, [cmd, '-out', tr, '-n', n, '-seed', ctx.seed * 1000003 + salt * 7919, *args], race=race, timeout=timeout)
        if out is not None:
            res.traces, res.events = count(out, word), count(out, 'events')
            ctx.tlc(res, module + '.tla', module + '.cfg', env={'TRACE': tr}, replay=tr)
            res.samples = sample_lines(tr, 2)
        return res
    return job

def reader(n, salt=0):
    """files read by the dump package, against Reader"""
    def job(ctx):
        res = Result('reader-%d' % salt)
        d = ctx.dir('s')
        tr = os.path.join(d, 'trace.ndjson')
        _, out = ctx.drive(res, ['reader', '-out', tr, '-n', n, '-seed', ctx.seed * 1000003 + salt * 7919], env={'VERIF_CLI': ctx.cli()}, timeout=800)
        if out is not None:
            res.traces = res.events = count(out, 'events')
            o = ctx.tlc(res, 'ReaderTrace.tla', 'ReaderTrace.cfg', env={'TRACE': tr}, replay=tr, timeout=850)
            for k in ('reject', 'wellformed', 'other'):
                res.extra['files_' + k] = len(re.findall('^<<"CLASS", "%s"' % k, o, re.M))
            if not res.bads and min(res.extra['files_reject'], res.extra['files_wellformed']) < n / 2:
                raise CheckError('the files are not what they should be: %s' % res.extra)
        return res
    return job

FAMILIES = ('counter', 'metrics', 'hist', 'timer', 'start', 'reg', 'multi')

def conc(fams, n, salt=0):
    """histories of concurrent calls on the real library: is there an order in which Speed explains them"""
    def job(ctx):
        res = Result('conc-%s-%d' % (fams.replace(',', '_'), salt))
        d = ctx.dir('s')
        tr = os.path.join(d, 'trace.ndjson')
        _, out = ctx.drive(res, ['conc', '-out', tr, '-n', n, '-seed', ctx.seed * 1000003 + salt * 7919 + sum(map(ord, fams)), '-prof', fams], timeout=600)
        if out is None:
            return res
        res.traces, res.events = count(out, 'sessions'), count(out, 'events')
        o = ctx.tlc(res, 'Lin.tla', 'Lin.cfg', env={'TRACE': tr}, replay=tr, timeout=800, need_done=False)
        ok = set(map(int, re.findall(r'^<<"LIN", (\d+)>>', o, re.M)))
        at = {}
        for h, l in re.findall(r'^<<"AT", (\d+), (\d+)>>', o, re.M):
            at[int(h)] = max(at.get(int(h), 0), int(l))
        seen, nops, nblocks = {b[2] for b in res.bads}, 0, 0
        with open(tr) as f:
            f.readline()
            for i, line in enumerate(f, 2):
                e = json.loads(line)
                if e['op'] == 'begin' and i not in ok and e['sid'] not in seen:
                    res.bads.append(('lin-' + e['fam'], at.get(i, i), e['sid'], tr, 'no order of the calls explains what follows'))
                elif e['op'] == 'conc':
                    nops, nblocks = nops + len(e['ops']), nblocks + 1
        res.extra.update(histories=res.traces, concurrent_blocks=nblocks, concurrent_calls=nops, histories_explained=len(ok))
        res.samples = sample_lines(tr, 2)
        return res
    return job

def model(module, cfg=None, workers=2, heap='4g', timeout=800, label='model'):
    """a bounded model: the specification itself, explored whole"""
    def job(ctx):
        res = Result('model-' + (cfg or module))
        ctx.tlc(res, module + '.tla', (cfg or module) + '.cfg', workers=workers, heap=heap, timeout=timeout, need_done=False)
        return res
    return job

def mutants(module, const, values, heap='2g', cfg_=None):
    """a wrong variant of a model has to break an invariant, or the invariant says nothing"""
    def job(ctx):
        res = Result('mutants-' + (cfg_ or module))
        cfg = open(os.path.join(SPEC, (cfg_ or module) + '.cfg')).read()
        for k, v in enumerate(values):
            f = os.path.join(ctx.dir('mut'), 'm.cfg')
            pairs = v if isinstance(v, dict) else {const: '"%s"' % v}
            c2, n = cfg, 1
            for c, x in pairs.items():
                c2, k2 = re.subn(r'(?m)^(\s*%s = ).*$' % c, lambda m: m.group(1) + x, c2)
                n = min(n, k2)
            open(f, 'w').write(c2)
            r = Result('m')
            ctx.tlc(r, module + '.tla', f, heap=heap, need_done=False, invert=True)
            if n != 1:
                raise CheckError('no constant %s' % const)
        res.extra['wrong_models_rejected'] = len(values)
        return res
    return job

def walks(edges, root, rnd, length=40, limit=None):
    """paths from the root that take every edge, the nearest one not taken first"""
    from collections import deque
    succ = {}
    for a, k, b in edges:
        succ.setdefault(a, []).append((k, b))
    left = {a: {k for k, _ in s} for a, s in succ.items()}
    for s in succ.values():
        rnd.shuffle(s)
    out, taken, total = [], 0, sum(map(len, left.values()))
    want = min(total, limit or total)
    while taken < want:
        at, path = root, []
        while len(path) < length and taken < want:
            # to the nearest state with an edge not taken
            seen, q, goal = {at: None}, deque([at]), None
            while q:
                x = q.popleft()
                if left.get(x):
                    goal = x
                    break
                for k, b in succ.get(x, ()):
                    if b not in seen:
                        seen[b] = (x, k)
                        q.append(b)
            if goal is None:
                break
            way = []
            while seen[goal] is not None:
                x, k = seen[goal]
                way.append(k)
                goal = x
            way.reverse()
            path += way
            for k in way:
                at = next(b for k2, b in succ[at] if k2 == k)
            k = rnd.choice(sorted(left[at]))
            left[at].discard(k)
            taken += 1
            path.append(k)
            at = next(b for k2, b in succ[at] if k2 == k)
        out.append(path)
    return out, taken, total

def replay(u, limit, salt=0, parts=1):
    """paths through the bounded model of the API, walked on the library"""
    def job(ctx):
        res = Result('replay-%s-%d' % (u, salt))
        d = ctx.dir('s')
        cfg = os.path.join(d, 'm.cfg')
        open(cfg, 'w').write(re.sub(r'Log = FALSE', 'Log = TRUE', open(os.path.join(SPEC, 'SpeedMC_%s.cfg' % u)).read()))
        out = ctx.tlc(res, 'SpeedMC.tla', cfg, need_done=False)
        def line(w):
            m = re.search(r'^("%s .*")$' % w, out, re.M)
            return json.loads(m.group(1)).split(' ', 1)[1]
        edges = sorted({(int(a), int(k), int(b)) for a, k, b in re.findall(r'^"E (-?\d+) (\d+) (-?\d+)"$', out, re.M)})
        rnd = random.Random(ctx.seed * 1009 + salt)
        ws, taken, total = walks(edges, int(line('ROOT')), rnd, limit=limit)
        if total < 1000:
            raise CheckError('the model of %s has %d steps' % (u, total))
        f, tr = os.path.join(d, 'script.json'), os.path.join(d, 'trace.ndjson')
        json.dump({'Names': json.loads(line('NAMES')), 'Prefix': json.loads(line('PREFIX')), 'Calls': json.loads(line('CALLS')), 'Walks': ws}, open(f, 'w'))
        _, o = ctx.drive(res, ['script', '-in', f, '-out', tr], timeout=600)
        if o is not None:
            res.traces, res.events = count(o, 'sessions'), count(o, 'events')
            ctx.tlc(res, 'SpeedTrace.tla', 'SpeedTrace.cfg', env={'TRACE': tr}, replay=tr, timeout=800)
            res.samples = sample_lines(tr, 1)
        res.extra.update(model_steps_replayed=taken, model_steps=total, calls_replayed=sum(map(len, ws)))
        return res
    return job

# stores that are too small or not aligned
TORN_MUTANTS = [{'Chunk': '4'}, {'Chunk': '2'}, {'Chunk': '1'}, {'At': '20'}, {'At': '17'}, {'Load': '4'}, {'Width': '4', 'Chunk': '2'}, {'Width': '4', 'At': '22'}]

# by universe of SpeedMC
API_MUTANTS = {'reg': ['register while started', 'leaves a domain', 'other domain', 'same name'],
               'life': ['update lost', 'stray store', 'counter back', 'other instance', 'stop resets'],
               'two': ['stray store', 'stop of both'],
               'stats': ['stray store', 'shared recordings', 'started twice'],
               'names': ['domain by name', 'domain of both']}

def api_mutants(*us):
    return [mutants('SpeedMC', 'Mutant', API_MUTANTS[u], cfg_='SpeedMC_' + u) for u in us]

LOCK_MUTANTS = ['no client lock', 'late mark', 'mark stays', 'unmap first', 'no layout lock', 'bind unlocked', 'detach unlocked', 'unmap, then detach',
                'order', 'no metric lock', 'early check']
START_MUTANTS = ['dirty', 'tag first', 'g2 before data', 'g2 before toc', 'g2 before value', 'g2 before string', 'g2 with the header']

def publish(n, salt=0, orders=0):
    """starts whose stores are held back; what readers see, against Speed"""
    def job(ctx):
        res = Result('publish-%d' % salt)
        d = ctx.dir('s')
        tr = os.path.join(d, 'trace.ndjson')
        args = ['publish', '-out', tr, '-n', n, '-seed', ctx.seed * 1000003 + salt * 7919]
        if orders:
            # the orders of stores come from the model of a start
            out = ctx.tlc(res, 'StartProtocol.tla', 'StartOrders.cfg', need_done=False)
            os_ = re.findall(r'^"ORDER (.*)"$', out, re.M)
            if len(os_) < 100:
                raise CheckError('no orders')
            random.Random(ctx.seed * 31 + salt).shuffle(os_)
            f = os.path.join(d, 'orders.txt')
            open(f, 'w').write('\n'.join(os_[:orders]) + '\n')
            args += ['-in', f]
            res.extra['orders'] = min(orders, len(os_))
        _, out = ctx.drive(res, args, timeout=800)
        if out is not None:
            res.traces, res.events = count(out, 'sessions'), count(out, 'events')
            for w in ('starts', 'looks', 'incomplete', 'stores'):
                res.extra[w] = count(out, w)
            ctx.tlc(res, 'SpeedTrace.tla', 'SpeedTrace.cfg', env={'TRACE': tr}, replay=tr, timeout=850)
            res.samples = sample_lines(tr, 2)
        return res
    return job

def plan(*jobs_quick, thorough=()):
    def p(ctx):
        js = list(jobs_quick) + (list(thorough) if ctx.thorough else [])
        return [(lambda j=j: j(ctx)) for j in js]
    return p

def sess(*profs, n=120, k=1):
    return [sessions(p, n, salt=i) for p in profs for i in range(k)]

def both(profs, n=260, extra=(), textra=()):
    return plan(*sess(*profs, n=n), *extra, thorough=list(textra) + [sessions(p, 400, salt=100 + i) for p in profs for i in range(6)])

ALL = 10 ** 9
def shapes(*which):
    return [enumerated('shapes', 9, k) for k in which]

INSTANCES, DOMAINS, METRICS, MEDIUM, TEXTS, GROWM, GROWD, GROWT, GROWI = range(9)
def large(*which):
    return [enumerated('shapes-far', 9, k) for k in which] + [sessions('large', 30, salt=200 + i) for i in range(2)]
TECH, NOTES = {}, {}
MC = 'model_checking'
PLAN = {
    'P01': (MC, both(['content', 'mixed', 'long', 'life'], extra=shapes(METRICS, DOMAINS, GROWM, GROWD, GROWT) + [replay('texts', 4000), replay('reg', 3000), replay('names', 3000)],
                     textra=large(METRICS, DOMAINS, MEDIUM, GROWM, GROWD, GROWT) + [replay('texts', ALL), replay('reg', ALL), replay('two', ALL), replay('names', ALL)] + api_mutants('reg', 'life', 'names'))),
    'P02': (MC, both(['content', 'long', 'mixed', 'many'], extra=shapes(TEXTS, METRICS, GROWT) + [replay('texts', 5000), replay('reg', 4000)], textra=large(TEXTS, MEDIUM, GROWT) + [replay('texts', ALL), replay('reg', ALL)])),
    'P03': (MC, plan(model('StartProtocol'), *[publish(5, i, orders=110) for i in range(6)],
                     thorough=[mutants('StartProtocol', 'Mutant', START_MUTANTS), publish(12, 50, orders=4000), *[publish(60, 100 + i) for i in range(6)]])),
    'P04': (MC, both(['update', 'vector', 'mixed', 'counter'], extra=shapes(TEXTS, INSTANCES, GROWI) + [replay('vec', ALL), replay('two', 4000), replay('life', 4000)],
                     textra=large(TEXTS, INSTANCES, GROWM) + [replay('two', ALL), replay('life', ALL)] + api_mutants('life', 'two'))),
    'P05': (MC, both(['types', 'mixed', 'update', 'registry'], extra=[enumerated('values', 2, i) for i in range(2)])),
    'P06': (MC, both(['counter', 'vector', 'update'], extra=[replay('vec', ALL)] + [conc('counter', 200, i) for i in range(3)], textra=[conc('counter', 1200, 100 + i) for i in range(5)])),
    'P07': (MC, plan(model('Locks'), *[conc('counter,metrics,hist,timer', 240, i) for i in range(4)], *[conc(f, 150, 50) for f in ('metrics', 'hist', 'timer')], conc('heldupd', 110),
                     thorough=[conc(f, 1000, 100 + i) for i in range(3) for f in ('metrics', 'hist', 'timer', 'counter')] + [conc('heldupd', 500, 100 + i) for i in range(3)])),
    'P08': (MC, both(['registry', 'mixed', 'content', 'many'], extra=shapes(DOMAINS, GROWD) + [sessions('large', 3), replay('reg', ALL), replay('names', 3000)] + [conc('reg', 300, i) for i in range(2)] + [conc('rush', 40, 1)],
                     textra=[replay('names', ALL)] + api_mutants('reg', 'names') + [conc('reg', 1200, 100 + i) for i in range(4)])),
    'P09': (MC, both(['life', 'many', 'mixed'], extra=[replay('life', 10000), replay('reg', 4000), replay('stats', 1500)],
                     textra=[replay('life', ALL), replay('two', ALL), replay('stats', ALL)] + api_mutants('life', 'reg', 'stats'))),
    'P10': (MC, plan(model('Locks'), *[conc('start', 350, i) for i in range(4)], *[conc('reg,multi,start', 280, 50 + i) for i in range(3)], *[conc('held', 90, i) for i in range(2)], conc('rush', 50),
                     thorough=[conc(f, 1000, 100 + i) for i in range(4) for f in ('start', 'start', 'reg', 'multi')] + [conc('rush', 400, 100 + i) for i in range(2)] + [model('Locks', 'Locks2')] + [mutants('Locks', 'Mutant', LOCK_MUTANTS[i::3], cfg_='Locks2') for i in range(3)] + [conc('held', 500, 100 + i) for i in range(3)])),
    'P11': (MC, both(['grammar', 'registry'], extra=[enumerated('strings', 2, i) for i in range(2)], textra=[enumerated('strings-deep', 8, i) for i in range(8)])),
    'P12': (MC, both(['long', 'content', 'registry'], extra=[replay('texts', 4000)] + [sessions('border', 300, salt=i) for i in range(4)], textra=[sessions('border', 700, salt=100 + i) for i in range(4)])),
    'P13': (MC, plan(*[reader(280, i) for i in range(5)], thorough=[reader(1100, 100 + i) for i in range(8)])),
    'P14': (MC, plan(*[reader(280, 10 + i) for i in range(5)], thorough=[reader(1100, 200 + i) for i in range(8)])),
    'P15': (MC, both(['mixed'], extra=[replay('stats', ALL)] + [sessions('timer', 220, salt=i) for i in range(4)], textra=api_mutants('stats') + [sessions('timer', 400, salt=100 + i) for i in range(6)])),
    'P16': (MC, plan(*[sessions('hist', 60, salt=i) for i in range(6)], sessions('mixed', 80), replay('stats', ALL),
                     thorough=api_mutants('stats') + [sessions('hist', 330, salt=100 + i) for i in range(7)])),
    'P17': (MC, plan(model('UnitsMC'), traced('units', 'UnitsTrace', 2000), *sess('units', 'content', n=260),
                     thorough=[traced('units', 'UnitsTrace', 12000, salt=i) for i in range(1, 7)] + [sessions('units', 400, salt=100 + i) for i in range(4)])),
    'P18': (MC, plan(*[sessions('ids', 300, salt=i, ids=True) for i in range(4)], *sess('long', 'content', n=240), *shapes(METRICS, GROWM), sessions('large', 3),
                     thorough=[sessions('ids', 500, salt=100 + i, ids=True) for i in range(10)])),
    'P19': (MC, plan(traced('conf', 'ConfTrace', 600), *sess('life', n=260),
                     thorough=[traced('conf', 'ConfTrace', 3000, salt=i) for i in range(1, 5)])),
    'P20': (MC, plan(model('Torn'), model('Torn', 'Torn4'), mutants('Torn', None, TORN_MUTANTS), *[traced('torn', 'TornTrace', 250, salt=i) for i in range(3)],
                     *sess('update', n=200), thorough=[traced('torn', 'TornTrace', 3000, salt=i, timeout=800) for i in range(100, 103)])),
    'P21': (MC, plan(traced('bw', 'BWTrace', 700), traced('bw', 'BWTrace', 700, salt=1),
                     thorough=[traced('bw', 'BWTrace', 7000, salt=i) for i in range(2, 9)])),
    'P22': (MC, both(['vector', 'counter', 'update', 'mixed'], extra=shapes(GROWI, INSTANCES, GROWM) + [replay('vec', ALL), replay('life', 3000)], textra=large(GROWI, INSTANCES) + [replay('life', ALL)] + api_mutants('life'))),
    'P23': (MC, both(['many', 'life'], extra=[replay('two', 8000), replay('names', 4000), replay('stats', 1500)] + [conc('multi', 110, i) for i in range(3)],
                     textra=[replay('two', ALL), replay('names', ALL), replay('stats', ALL)] + api_mutants('two', 'names', 'stats') + [conc('multi', 600, 100 + i) for i in range(5)])),
}

def known(ctx, results):
    seen = set().union(*[r.known for r in results]) if results else set()
    return ['%s: %s' % (k[k.index('=') + 1:], t) for k, t in findings(ctx.prop) if k in seen]
