"""The explorer: enumerates the finite space a property module describes, shard by shard,
in worker processes, and turns every disagreement into a replayable artefact.

A property module defines

    LEVEL      'exploration' | 'model_checking' | 'fault_enumeration'
    RULE       how cases are made and what makes one non-trivial
    ASSUME     list of assumptions (optional)
    explore(ctx)  the enumeration itself

Inside explore, `for x in ctx.split(iterable)` deals the elements of an (outer) loop out to the
workers; each element is a *group*, the unit of replay.  Within a group every case is
executed and reported with ctx.ev(...) / ctx.fail(...).
Nothing is sampled: the loops are plain nested loops over finite alphabets.
"""
from __future__ import annotations
import importlib, json, mmap, os, pickle, resource, signal, struct, sys, time, traceback, fnmatch, hashlib, faulthandler

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out')
KNOWN = os.path.join(ROOT, 'known_findings.json')
MAX_STORED = 40
HANG_S = 200
ANSWER_S = 300


class StopGroup(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, shard=0, nshards=1, only=None, progress=None, trace=None):
        self.prop, self.tier, self.shard, self.nshards = prop, tier, shard, nshards
        self.only = only
        self.quick = tier == 'quick'
        self.t0 = time.monotonic()
        self.group = -1
        self.progress = progress
        self.trace = trace
        self.evaluations = 0
        self.transitions = 0
        self.states = set()
        self.traces = 0
        self.outcomes = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.pergroup = {}
        self.known_hits = {}
        self.nviol = 0
        self.known = load_known(prop)
        self.notes = {}

    # ---- enumeration -----------------------------------------------------
    def split(self, iterable):
        """Deal the elements of the iterable out to the workers; each is one replayable group."""
        for x in iterable:
            self.group += 1
            g = self.group
            if self.only is not None:
                if g != self.only:
                    continue
            elif g % self.nshards != self.shard:
                continue
            if self.nviol and time.monotonic() - self.t0 > ANSWER_S:
                # the verdict is known (a violation): answer rather than finish a run that the broken code slows down
                self.notes['stopped after a violation'] = 1
                return
            if self.progress is not None:
                self.progress(g)
            if self.trace is not None:
                self.trace(('group', g, rep(x)))
            yield x

    def case(self, *desc):
        """Announce a case before it runs (only recorded when tracing a crash)."""
        if self.trace is not None:
            self.trace(('case', self.group) + tuple(rep(d) for d in desc))

    def ev(self, outcome, nontrivial=None, n=1):
        """One evaluated case.  outcome: small label of the observed class.
        nontrivial: hashable identity of the case if it is non-trivial (None: trivial)."""
        self.evaluations += n
        self.outcomes[outcome] = self.outcomes.get(outcome, 0) + n
        if nontrivial is not None:
            self.distinct.add(h64(nontrivial))

    def sample(self, *desc):
        if len(self.samples) < 3:
            self.samples.append(' | '.join(rep(d) for d in desc))

    def state(self, canon):
        """An explicit state (canonical form); returns True when new."""
        k = h64(canon)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace_done(self, n=1):
        self.traces += n

    # ---- verdicts ----------------------------------------------------------
    def fail(self, key, **info):
        """A violation.  key: stable identification of the failing case."""
        key = f'{key}'
        for pat in self.known:
            if fnmatch.fnmatchcase(key, pat):
                self.known_hits[pat] = self.known_hits.get(pat, 0) + 1
                return
        self.nviol += 1
        self.pergroup[self.group] = self.pergroup.get(self.group, 0) + 1
        if len(self.violations) < MAX_STORED and self.pergroup[self.group] <= 3:
            self.violations.append({'key': key, 'group': self.group, 'info': {k: rep(v, 4000) for k, v in info.items()}})

    def check(self, cond, key, **info):
        if not cond:
            self.fail(key, **info)
        return cond

    def result(self):
        return {
            'evaluations': self.evaluations, 'transitions': self.transitions, 'states': self.states,
            'traces': self.traces, 'outcomes': self.outcomes, 'distinct': self.distinct,
            'samples': self.samples, 'violations': self.violations, 'known_hits': self.known_hits,
            'nviol': self.nviol, 'groups': self.group + 1, 'notes': self.notes,
        }


def h64(x):
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return struct.unpack('<Q', hashlib.blake2b(x, digest_size=8).digest())[0]


def rep(x, n=600):
    if isinstance(x, str):
        s = x
    else:
        try:
            s = repr(x)
        except BaseException as e:  # noqa
            s = f'<unrepresentable {type(x).__name__}: {type(e).__name__}>'
    return s if len(s) <= n else s[:n] + f'...({len(s)} chars)'


def load_known(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['match']: e for e in d.get('findings', []) if e['property'] == prop and e.get('status') == 'known'}


# ---------------------------------------------------------------------------
def _worker(modname, prop, tier, shard, n, outfile, prog_path, tracing):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    f = open(prog_path, 'r+b')
    mm = mmap.mmap(f.fileno(), 0)

    def progress(g):
        struct.pack_into('<qd', mm, shard * 16, g, time.time())

    trace = None
    if tracing:
        tf = os.open(outfile + '.trace', os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)

        def trace(t):
            b = json.dumps(t).encode()
            os.pwrite(tf, b, 0)
            os.ftruncate(tf, len(b))

    progress(-1)
    ctx = Ctx(prop, tier, shard, n, progress=progress, trace=trace)
    from mc import lib
    lib.set_ctx(ctx)
    mod = importlib.import_module(modname)
    try:
        mod.explore(ctx)
        r = ctx.result()
        r['ok'] = True
    except BaseException as e:  # harness error or PanicException outside of a guarded call
        r = ctx.result()
        r['ok'] = False
        r['error'] = ''.join(traceback.format_exception(e))[-6000:]
        r['panic'] = type(e).__name__ == 'PanicException'
    with open(outfile, 'wb') as f:
        pickle.dump(r, f)
    sys.stdout.flush()
    os._exit(0)


def run_shards(prop, tier, shards, n, tracing=False, hang=HANG_S):
    modname = f'mc.props.{prop.lower()}'
    importlib.import_module(modname)
    os.makedirs(OUT, exist_ok=True)
    base = os.path.join(OUT, f'{prop}.{os.getpid()}')
    prog_path = base + '.progress'
    with open(prog_path, 'wb') as f:
        f.write(b'\0' * (16 * max(n, 1)))
    pf = open(prog_path, 'r+b')
    mm = mmap.mmap(pf.fileno(), 0)
    for s in shards:
        struct.pack_into('<qd', mm, s * 16, -1, time.time())
    pids, outs, results = {}, {}, {}
    for s in shards:
        out = f'{base}.{s}.pkl'
        if os.path.exists(out):
            os.unlink(out)
        outs[s] = out
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _worker(modname, prop, tier, s, n, out, prog_path, tracing)
            finally:
                os._exit(70)
        pids[pid] = s
    hung = set()
    # seconds without progress, counted in small ticks: a jump of the clock or a pause of the machine is not a hang
    idle, last, prev = {}, {}, time.monotonic()
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            now = time.monotonic()
            tick, prev = min(now - prev, 0.1), now
            for p, s in list(pids.items()):
                stamp = struct.unpack_from('<qd', mm, s * 16)
                if last.get(s) != stamp:
                    last[s], idle[s] = stamp, 0.0
                else:
                    idle[s] += tick
                    if idle[s] > hang and s not in hung:
                        hung.add(s)
                        os.kill(p, signal.SIGKILL)
            continue
        s = pids.pop(pid)
        if os.path.exists(outs[s]):
            with open(outs[s], 'rb') as f:
                results[s] = pickle.load(f)
            os.unlink(outs[s])
        else:
            g, _ = struct.unpack_from('<qd', mm, s * 16)
            results[s] = {'ok': False, 'dead': True, 'signal': os.WTERMSIG(st) if os.WIFSIGNALED(st) else None,
                          'status': st, 'hung': s in hung, 'group': g}
        tr = outs[s] + '.trace'
        if os.path.exists(tr):
            with open(tr) as f:
                results[s]['last'] = f.read()
            os.unlink(tr)
    mm.close()
    pf.close()
    os.unlink(prog_path)
    return results


def run_one_group(prop, tier, n, group):
    mod = importlib.import_module(f'mc.props.{prop.lower()}')
    ctx = Ctx(prop, tier, 0, n, only=group)
    from mc import lib
    lib.set_ctx(ctx)
    mod.explore(ctx)
    return ctx


def main_run(prop, tier):
    t0 = time.time()
    n = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 8
    mod = importlib.import_module(f'mc.props.{prop.lower()}')
    res = run_shards(prop, tier, list(range(n)), n, hang=getattr(mod, 'HANG_S', HANG_S))
    violations, nviol, errors = [], 0, []
    for s, r in sorted(res.items()):
        if r.get('dead'):
            if any(v['key'].startswith('crash') for v in violations):
                continue        # one is confirmed already: answer in time
            # a worker was ended by a signal (or hung): confirm by re-running it with tracing on
            r2 = run_shards(prop, tier, [s], n, tracing=True, hang=getattr(mod, 'HANG_S', HANG_S))[s]
            if r2.get('dead') and (r2.get('signal') in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE) or r2.get('hung')):
                violations.append({'key': f'crash signal={r2.get("signal")} hung={r2.get("hung")}', 'group': r2.get('group', -1),
                                   'info': {'what': 'the process running the library was ended by a signal, or made no progress',
                                            'last_case': r2.get('last', '?')}})
                nviol += 1
            elif r2.get('dead'):
                errors.append(f'shard {s}: worker died: {r2}')
            else:
                res[s] = r = r2
        if not r.get('dead') and not r['ok']:
            if r.get('panic'):
                violations.append({'key': 'panic', 'group': r['groups'] - 1, 'info': {'what': r['error']}})
                nviol += 1
            else:
                errors.append(f'shard {s}: {r["error"]}')
    live = [r for r in res.values() if 'evaluations' in r]
    agg = {k: sum(r[k] for r in live) for k in ('evaluations', 'transitions', 'traces', 'nviol')}
    nviol += agg['nviol']
    states, distinct, outcomes, samples, known, notes = set(), set(), {}, [], {}, {}
    for r in live:
        states |= r['states']
        distinct |= r['distinct']
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r['known_hits'].items():
            known[k] = known.get(k, 0) + v
        samples += r['samples']
        violations += r['violations']
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v if isinstance(v, int) else v
    violations.sort(key=lambda v: (v['group'], v['key']))
    wall = time.time() - t0
    cov = {'evaluations': agg['evaluations'], 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
           'samples': samples[:8] or ['(none)'], 'exhaustive': not errors,
           'distinct_outcomes': len(outcomes),
           'outcomes': dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
           'groups': max([r['groups'] for r in live] or [0]), 'workers': n}
    if mod.LEVEL == 'model_checking' or states:
        cov['states'] = len(states)
        cov['transitions'] = agg['transitions']
        cov['traces_validated_against_impl'] = agg['traces']
    if notes:
        cov['notes'] = notes
    bounds = getattr(mod, 'BOUNDS', None)
    if bounds:
        cov['bounds'] = bounds[tier] if isinstance(bounds, dict) else bounds
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': mod.LEVEL,
          'coverage': cov, 'wall_s': round(wall, 3), 'assumptions': getattr(mod, 'ASSUME', []), 'violations': nviol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    kf = load_known(prop)
    for pat, c in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} {kf[pat]["what"]} ({c} cases)')
    print(f'{prop} {tier}: evaluations={agg["evaluations"]} distinct={len(distinct)} states={len(states)} '
          f'transitions={agg["transitions"]} outcomes={len(outcomes)} violations={nviol} wall={wall:.1f}s')
    if violations:
        d = os.path.join(OUT, 'violations')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}-{tier}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'nshards': n, 'violations': violations}, f, indent=1)
        for v in violations[:6]:
            print(f'  group={v["group"]} {v["key"]}')
            for k, x in v['info'].items():
                print(f'      {k}: {x[:700]}')
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR', e, file=sys.stderr)
        return 4
    if agg['evaluations'] == 0:
        print('ERROR nothing was explored', file=sys.stderr)
        return 4
    return 0


def main_replay(path):
    with open(path) as f:
        d = json.load(f)
    prop, tier, n = d['property'], d['tier'], d['nshards']
    seen, bad = set(), 0
    for v in d['violations'][:10]:
        g = v['group']
        if g in seen:
            continue
        seen.add(g)
        runs = []
        for _ in range(2):
            runs.append([x['key'] for x in run_one_group(prop, tier, n, g).violations])
        same = runs[0] == runs[1]
        print(f'group {g}: {len(runs[0])} violations, second run identical: {same}')
        for k in runs[0][:5]:
            print('   ', k)
        bad += bool(runs[0])
    if bad:
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('no violation on replay')
    return 0
