"""Runs a property: episodes under the monitors, coverage-guided corpus, verdict, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import target as T
from . import api, core, gen
from .core import MON, Violation, Hang

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPMODS = ['angles', 'vectors', 'lines', 'segments', 'circles', 'triangles', 'polygons',
            'hull', 'rects', 'sectors', 'matrices', 'soccer', 'semantics', 'relations']
OPS = {}
CUSTOM = {}        # property -> function(worker, nworkers, seed, tier) running its own workload
MAX_OPS = {}      # property -> longest history (default 8)


def load():
    for m in PROPMODS:
        try:
            mod = importlib.import_module('mon.props.' + m)
        except ModuleNotFoundError as ex:
            if ex.name and ex.name.startswith('mon.props'):
                continue
            raise
        OPS.update(getattr(mod, 'OPS', {}))
        CUSTOM.update(getattr(mod, 'CUSTOM', {}))
        MAX_OPS.update(getattr(mod, 'MAX_OPS', {}))


# ------------------------------------------------------------------ coverage of the code under test

class Cover:
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.branches = set()
        self.fresh = False
        self.src = T.PKG

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'mon')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.register_callback(self.TOOL, m.events.BRANCH, self._branch)
        m.set_events(self.TOOL, m.events.LINE | m.events.BRANCH)

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)

    def _line(self, code, line):
        if code.co_filename.startswith(self.src):
            self.lines.add((code.co_filename, line))
            self.fresh = True
        return sys.monitoring.DISABLE

    def _branch(self, code, off, dest):
        if not code.co_filename.startswith(self.src):
            return sys.monitoring.DISABLE
        k = (code, off)
        b = (k, dest)
        if b in self.branches:
            return None
        self.branches.add(b)
        self.fresh = True
        if len([1 for x in self.branches if x[0] == k]) >= 2:
            return sys.monitoring.DISABLE
        return None


CPU_LIMIT = 40


def _alarm(*_):
    raise Hang(f'operation did not return within {CPU_LIMIT} s of CPU time')


def in_repo(tb):
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(T.PKG):
            return True
        tb = tb.tb_next
    return False


def run_episode(prop, ops, draw):
    """one history; returns None or (label, message)"""
    c = gen.Ctx(draw)
    n0 = len(MON.violations)
    MON.calls.clear()
    MON.active = True
    try:
        for _ in range(draw.i(1, MAX_OPS.get(prop, 8))):
            op = ops[draw.i(0, len(ops) - 1)]
            op(c)
            if MON.calls and draw.chance(0.12):
                api.again(c, MON.calls[-8:])
    except Violation as v:
        if len(MON.violations) > n0:
            return MON.violations[n0]
        return ('scenario', str(v))
    except Hang as h:
        return ('progress', str(h))
    except Exception as ex:
        if in_repo(ex.__traceback__):
            where = traceback.extract_tb(ex.__traceback__)[-1]
            return ('raised', f'{type(ex).__name__}: {ex} (in {os.path.basename(where.filename)}:{where.name}) '
                              f'on inputs within the claimed domain')
        if isinstance(ex, (AttributeError, TypeError, IndexError)):
            # the workload went on with what the library had returned, as a caller would, and could not
            where = traceback.extract_tb(ex.__traceback__)[-1]
            return ('unusable result', f'{type(ex).__name__}: {ex} (at {os.path.basename(where.filename)}:{where.lineno})')
        raise
    finally:
        MON.active = False
        MON.depth = 0
    return None


def shrink(prop, ops, vals, label, budget=400, seconds=6):
    """make the recorded draws simpler while the same monitor still fires"""
    t0 = time.time()
    best = list(vals)

    def fails(v):
        d = gen.Draw(random.Random(0), list(v))
        r = quiet_episode(prop, ops, d)
        return d.vals if r is not None and r[0] == label else None
    tries = 0
    changed = True
    while changed and tries < budget and time.time() - t0 < seconds:
        changed = False
        for i in range(len(best)):
            cur = best[i]
            for cand in ([0, 1] if isinstance(cur, int) else [0.0, 1.0, float(round(cur)), round(cur, 2)]):
                if abs(cand) >= abs(cur) and not (isinstance(cur, float) and cur != int(cur)):
                    continue
                if cand == cur:
                    continue
                tries += 1
                if tries > budget or time.time() - t0 > seconds:
                    return best
                got = fails(best[:i] + [cand] + best[i + 1:])
                if got is not None and len(got) <= len(best):
                    best = got
                    changed = True
                    break
            if i >= len(best) - 1:
                break
    return best


def quiet_episode(prop, ops, d):
    saved = list(MON.violations)
    r = run_episode(prop, ops, d)
    MON.violations[:] = saved
    return r


def work(prop, worker, nworkers, seed, tier, episodes, deadline):
    """a worker process: deterministic in (seed, worker)"""
    sys.stdout.flush()
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    labels = core.install(prop)
    cov = Cover()
    cov.start()
    out = dict(episodes=0, labels=labels, violations=[], error=None, corpus=0)
    t0 = time.time()
    try:
        if prop in CUSTOM:
            out['custom'] = CUSTOM[prop](worker, nworkers, seed, tier, deadline, out, cov)
        if prop in OPS and not out['violations']:
            explore(prop, OPS[prop], worker, seed, episodes, deadline, out, cov)
    except Exception:
        out['error'] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        cov.stop()
    out['wall'] = time.time() - t0
    out['events'] = dict(MON.events)
    out['judged'] = dict(MON.judged)
    out['buckets'] = {f'{a} | {b}': n for (a, b), n in MON.buckets.items()}
    out['samples'] = {f'{a} | {b}': s for (a, b), s in MON.samples.items()}
    out['seen'] = MON.seen
    out['known'] = dict(MON.known)
    out['lines'] = {(os.path.basename(f), n) for f, n in cov.lines}
    out['branches'] = len(cov.branches)
    return out


STOP = None         # set by the first worker that has a violation


def explore(prop, ops, worker, seed, episodes, deadline, out, cov):
    corpus = []
    base = f'{seed}:{prop}:{worker}'
    for ep in range(episodes):
        if time.time() > deadline:
            out['cut'] = True
            break
        if STOP is not None and STOP.is_set():
            out['stopped'] = True
            break
        rng = random.Random(f'{base}:{ep}')
        if corpus and rng.random() < 0.4:
            src = corpus[rng.randrange(len(corpus))]
            oth = corpus[rng.randrange(len(corpus))]
            draw = gen.Draw(rng, gen.mutate(src, rng, oth))
        else:
            draw = gen.Draw(rng)
        cov.fresh = False
        MON.new_bucket = False
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        r = run_episode(prop, ops, draw)
        out['episodes'] += 1
        if r is not None:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            vals = draw.vals
            if r[0] != 'progress':
                signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
                try:
                    small = shrink(prop, ops, vals, r[0])
                    d = gen.Draw(random.Random(0), list(small))
                    r2 = quiet_episode(prop, ops, d)
                    if r2 is not None:
                        r, vals = r2, d.vals
                except Exception:
                    pass
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            out['violations'].append(dict(label=r[0], message=r[1][:4000], values=vals, kind='episode'))
            if STOP is not None:
                STOP.set()
            break
        if (cov.fresh or MON.new_bucket) and len(corpus) < 400:
            corpus.append(draw.vals)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    out['corpus'] = len(corpus)


# ------------------------------------------------------------------ tiers

TIERS = {
    'quick': dict(episodes=2500, cap=200),
    'thorough': dict(episodes=2500 * 30, cap=780),
}
# how many times the base number of histories a property gets: brings the quick tier to about 20 s
WEIGHT = dict(C01=9, C02=10, C03=14, C04=6, C05=12, C06=5, C07=7, C08=6, C09=3, C10=4, C11=4, C12=4, C13=4, C14=4,
              C15=6, C16=5, C17=5, C18=4, C19=2.4, C20=5, C21=1.6, C22=1.2, C23=3, C24=5, C25=4, C26=4, C27=3,
              C28=10, C29=3, C30=3, C31=1.6, C32=2, C33=3)


def child(conn, args):
    try:
        conn.send(work(*args))
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    conn.close()
    os._exit(0)


def run(prop, tier, seed, workers=None, episodes=None):
    load()
    if prop not in OPS:
        print(f'unknown property {prop}')
        return 2
    conf = TIERS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    episodes = episodes or int(conf['episodes'] * WEIGHT.get(prop, 1))
    t0 = time.time()
    deadline = t0 + conf['cap']
    ctx = mp.get_context('fork')
    global STOP
    STOP = ctx.Event()
    procs = []
    for w in range(workers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=child, args=(b, (prop, w, workers, seed, tier, episodes, deadline)))
        p.start()
        b.close()
        procs.append((p, a))
    outs = []
    for p, a in procs:
        try:
            outs.append(a.recv())
        except EOFError:
            outs.append(dict(error='worker died'))
        p.join()
    return report(prop, tier, seed, outs, time.time() - t0)


def merge(outs, key):
    m = {}
    for o in outs:
        for k, v in (o.get(key) or {}).items():
            m[k] = m.get(k, 0) + v
    return m


def report(prop, tier, seed, outs, wall):
    errors = [o['error'] for o in outs if o.get('error')]
    violations = [v for o in outs for v in o.get('violations', [])]
    events, judged, buckets = merge(outs, 'events'), merge(outs, 'judged'), merge(outs, 'buckets')
    known = merge(outs, 'known')
    seen = set()
    for o in outs:
        seen |= o.get('seen') or set()
    labels = sorted({l for o in outs for l in o.get('labels', [])} | set(core.REQUIRED.get(prop, [])))
    silent = [l for l in labels if judged.get(l, 0) == 0]
    samples = {}
    for o in outs:
        for k, s in (o.get('samples') or {}).items():
            samples.setdefault(k, s)
    lines = set()
    for o in outs:
        lines |= o.get('lines') or set()
    ex = sorted(samples)
    step = max(1, len(ex) // 12)
    cov = dict(
        evaluations=sum(events.values()),
        distinct_nontrivial=len(seen),
        rule='An evaluation is one observed call (or one relation over several observed calls) of the real '
             'code made by a generated history; it is non-trivial when the oracle judged it (inputs in the '
             'claimed domain and outside the tolerance bands) and distinct when receiver, arguments and '
             'operation differ from every other judged one.',
        samples=[dict(case=k, event=str(samples[k])[:600]) for k in ex[::step][:14]],
        episodes=sum(o.get('episodes', 0) for o in outs),
        events_observed=events, events_judged=judged, case_classes=buckets,
        case_class_count=len(buckets),
        repo_lines_executed=len(lines),
        repo_branch_outcomes_max_per_worker=max([o.get('branches', 0) for o in outs] or [0]),
        corpus=sum(o.get('corpus', 0) for o in outs),
        known_findings_observed=known,
        cut_by_time=any(o.get('cut') for o in outs),
        custom=[o['custom'] for o in outs if o.get('custom')][:3],
        workers=len(outs),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=['snapshots are taken through the public accessors',
                           'IEEE double arithmetic of CPython on this machine',
                           'held on the executions observed; nothing is claimed about unexercised inputs'],
              wall_s=round(wall, 3), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for k, n in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} {k} (observed {n} times)')
    print(f'{prop} {tier} seed={seed}: {cov["episodes"]} histories, {cov["evaluations"]} events, '
          f'{sum(judged.values())} judged, {len(seen)} distinct, {len(buckets)} case classes, '
          f'{wall:.1f} s')
    if violations:
        rp = os.path.join(VERIF, 'evidence', f'replay-{prop}.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, violations=violations), f, indent=1, default=str)
        for v in violations[:5]:
            print(f'  {v["label"]}: {v["message"][:1200]}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if errors:
        print('ERROR of the check (not a verdict):\n' + errors[0])
        return 3
    if silent:
        print('INCONCLUSIVE: monitors that never judged an event: ' + ', '.join(silent))
        return 4
    return 0


def replay(path):
    load()
    data = json.load(open(path))
    prop = data['property']
    core.install(prop)
    rc = 0
    for v in data['violations']:
        if v.get('kind') != 'episode':
            print('not an episode replay:', v['message'])
            rc = 1
            continue
        d = gen.Draw(random.Random(0), list(v['values']))
        so, sys.stdout = sys.stdout, open(os.devnull, 'w')
        r = run_episode(prop, OPS[prop], d)
        sys.stdout = so
        if r is None:
            print('replayed: no violation')
        else:
            print(f'replayed: {r[0]}: {r[1]}')
            rc = 1
    return rc
