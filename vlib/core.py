"""Runner of the monitored workloads.

A check is a module ``checks/cXX.py`` with

    ID      property id
    RULE    text: how cases are made and what makes one non-trivial
    REQUIRED  event counters that must be non-zero, else the run is inconclusive
    FAMILIES  list of Family(name, make, run, quick, thorough)
    CORPUS    optional list of (family name, case) always run first

``make(rng, tier)`` returns a JSON-able case, ``run(case, mon)`` drives the real
code and reports to the monitor: ``mon.ev`` (events observed), ``mon.sig`` (a
distinct non-trivial case), ``mon.check`` (the deciding assertions).

Verdict: exit 0 held on everything observed / 1 violated / 2 inconclusive or
error of the check itself.
"""
import collections
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'evidence', 'replay')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
WALL = time.monotonic          # the real clock, kept before any patching

Family = collections.namedtuple('Family', 'name make run quick thorough')


class NonTermination(BaseException):
    """the code under test exceeded its budget of loop iterations"""


class WatchDog(BaseException):
    """real-time limit: inconclusive, never a verdict"""


class Jumps:
    """counts the loop back-edges executed in the code under test; a budget on
    this logical clock is what decides 'does not terminate'"""
    TOOL = 3

    def __init__(self, repo):
        self.repo = repo
        self.n = 0
        self.total = 0
        self.budget = 20_000_000
        self.on = False
        self.who = None
        self.most = {}           # family -> most iterations in one case

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'vjumps')
        except ValueError:
            return
        repo = self.repo

        def cb(code, offset, dest):
            if dest > offset or not code.co_filename.startswith(repo):
                return mon.DISABLE
            self.n += 1
            if self.n > self.budget:
                self.n = 0
                raise NonTermination
        mon.register_callback(self.TOOL, mon.events.JUMP, cb)
        mon.set_events(self.TOOL, mon.events.JUMP)
        self.on = True

    def reset(self, budget, who=None):
        self.total += self.n
        if self.who is not None:
            self.most[self.who] = max(self.most.get(self.who, 0), self.n)
        self.who = who
        self.n = 0
        self.budget = budget


class CaseEnd(Exception):
    """raised to leave a case early (a precondition of it does not hold)"""


class Monitor:
    def __init__(self, pid):
        self.pid = pid
        self.events = collections.Counter()
        self.sigs = set()
        self.viol = {}           # mech -> [count, detail, family, case]
        self.samples = []
        self.first = []
        self.cases = 0
        self.errors = []
        self.endless = 0
        self.family = None
        self.case = None

    def ev(self, name, n=1):
        self.events[name] += int(n)

    def sig(self, *items):
        """registers a distinct non-trivial case"""
        h = hashlib.blake2b(repr(items).encode(), digest_size=8).digest()
        self.sigs.add(h)

    def sample(self, text):
        if len(self.samples) < 6:
            self.samples.append(text)

    def check(self, cond, mech, detail=''):
        """a deciding assertion; `mech` names what is broken (stable)"""
        self.events['assertions'] += 1
        if cond:
            return True
        self.report(mech, detail)
        return False

    def report(self, mech, detail=''):
        if callable(detail):
            detail = detail()
        rec = self.viol.get(mech)
        if rec is None:
            self.viol[mech] = [1, str(detail)[:3000], self.family, self.case]
        else:
            rec[0] += 1


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    return o


def from_repo(tb, repo):
    """deepest frame of the traceback that is inside the code under test"""
    found = None
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(repo):
            found = (os.path.relpath(name, repo), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return found


def run_case(fam, case, mon, repo, jumps, budget, limit):
    mon.family, mon.case = fam.name, case
    mon.cases += 1
    jumps.reset(budget, fam.name)

    def bark(*_):
        raise WatchDog
    signal.signal(signal.SIGALRM, bark)
    signal.alarm(limit)
    try:
        fam.run(case, mon)
    except CaseEnd:
        mon.ev('cases_discarded')
    except NonTermination as exc:
        where = from_repo(exc.__traceback__, repo)
        mon.endless += 1
        mon.report('nontermination:%s' % fam.name,
                   'more than %d loop iterations, in %s' % (budget, where))
    except WatchDog as exc:
        mon.errors.append('watchdog in family %s at %s case %s' % (
            fam.name, from_repo(exc.__traceback__, repo),
            json.dumps(jsonable(case))[:600]))
    except Exception as exc:          # noqa: BLE001
        where = from_repo(exc.__traceback__, repo)
        if where is None and isinstance(exc, (ImportError, MemoryError,
                                              OSError)):
            mon.errors.append('harness error in family %s: %s\n%s' % (
                fam.name, json.dumps(jsonable(case))[:600],
                traceback.format_exc()[-2500:]))
        elif where is None:
            # the oracle cannot make sense of what the code returned (missing
            # attribute, wrong shape or type): never on well-formed outputs
            mon.report('unreadable-output:%s:%s' % (
                fam.name, type(exc).__name__), traceback.format_exc()[-2500:])
        else:
            mon.report('exception:%s:%s' % (fam.name, type(exc).__name__),
                       'raised in %s.%s: %s\n%s' % (
                           where[0], where[1], exc,
                           traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
    return mon


def _worker(args):
    modname, tier, seed, shard, nshards, deadline, only = args
    from vlib import boot
    mod = importlib.import_module(modname)
    import numpy as np
    mon = Monitor(mod.ID)
    jumps = Jumps(boot.REPO)
    jumps.start()
    budget = getattr(mod, 'BUDGET', 5_000_000)
    if tier != 'quick':
        budget *= 5
    limit = getattr(mod, 'WATCHDOG', 240)
    setup = getattr(mod, 'setup', None)
    t0 = WALL()
    done = {}
    with boot.quiet():
        if setup:
            setup()
        fams = {f.name: f for f in mod.FAMILIES}
        for k, (name, case) in enumerate(getattr(mod, 'CORPUS', [])):
            if k % nshards == shard and (not only or name in only) \
                    and mon.endless < 3:
                random.seed(12345)
                np.random.seed(12345)
                run_case(fams[name], case, mon, boot.REPO, jumps, budget, limit)
        todo = [[f, f.quick if tier == 'quick' else f.thorough, 0]
                for f in mod.FAMILIES if not only or f.name in only]
        # interleave the families so that a soft deadline starves none of them
        rounds = 40
        for r in range(rounds):
            for item in todo:
                f, n, _ = item
                share = [i for i in range(n*r//rounds, n*(r + 1)//rounds)
                         if i % nshards == shard]
                for i in share:
                    if mon.endless > 2:
                        break
                    if WALL() - t0 > deadline:
                        mon.ev('stopped_at_deadline')
                        break
                    ss = np.random.SeedSequence(
                        [seed, int.from_bytes(hashlib.sha1(
                            (mod.ID + f.name).encode()).digest()[:4], 'big'), i])
                    rng = np.random.default_rng(ss)
                    case = f.make(rng, tier)
                    random.seed(int(rng.integers(1 << 30)))
                    np.random.seed(int(rng.integers(1 << 30)))
                    if i == 0:
                        mon.first.append('%s: %s' % (
                            f.name, json.dumps(jsonable(case))[:500]))
                    run_case(f, case, mon, boot.REPO, jumps, budget, limit)
                    item[2] += 1
            if len(mon.errors) > 5 or mon.endless > 2:
                break
        done = {it[0].name: it[2] for it in todo}
    if mon.endless > 2:
        mon.ev('stopped_at_deadline')
    jumps.reset(budget)
    mon.ev('loop_iterations_watched', jumps.total)
    return (dict(mon.events), mon.sigs, {
        m: [c, d, f, jsonable(k)] for m, (c, d, f, k) in mon.viol.items()},
        mon.first + mon.samples, mon.cases, mon.errors, done, jumps.most)


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as handle:
            for line in handle:
                line = line.strip()
                if line.startswith('known: '):
                    parts = line[7:].split(None, 2)
                    pid = parts[0].split('=', 1)[1]
                    mech = parts[1].split('=', 1)[1]
                    known[(pid, mech)] = parts[2] if len(parts) > 2 else ''
    return known


def main(argv):
    try:
        return _main(argv)
    except Exception:              # noqa: BLE001
        traceback.print_exc()
        print('ERROR: the check itself failed')
        return 2


def _main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = None
    replay = None
    rest = argv[1:]
    while rest:
        arg = rest.pop(0)
        if arg in ('quick', 'thorough'):
            tier = arg
        elif arg == '--replay':
            replay = rest.pop(0)
        elif arg == '--only':
            only = rest.pop(0).split(',')
        elif arg == '--seed':
            seed = int(rest.pop(0))
    modname = 'checks.' + pid.lower()
    t0 = WALL()
    if replay:
        return do_replay(modname, replay)
    mod = importlib.import_module(modname)
    for old in glob.glob(os.path.join(REPLAYS, pid + '-*.json')):
        os.unlink(old)
    nshards = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    deadline = getattr(mod, 'DEADLINE', {}).get(
        tier, 240 if tier == 'quick' else 3000)
    jobs = [(modname, tier, seed, s, nshards, deadline, only)
            for s in range(nshards)]
    if nshards == 1:
        res = [_worker(jobs[0])]
    else:
        with ProcessPoolExecutor(nshards, mp.get_context('spawn')) as pool:
            res = list(pool.map(_worker, jobs))
    events = collections.Counter()
    sigs = set()
    viol, samples, errors, cases = {}, [], [], 0
    done = collections.Counter()
    most = {}
    for ev, sg, vi, sa, ca, er, dn, mo in res:
        for m, c in mo.items():
            most[m] = max(most.get(m, 0), c)
        events.update(ev)
        sigs |= sg
        samples += sa[:16] if not samples else sa[:2]
        cases += ca
        errors += er
        done.update(dn)
        for m, (c, d, f, k) in vi.items():
            if m in viol:
                viol[m][0] += c
            else:
                viol[m] = [c, d, f, k]
    known = load_known()
    new = []
    for mech in sorted(viol):
        if (pid, mech) in known:
            print('KNOWN-FINDING: property=%s %s: %s (seen %d times)' % (
                pid, mech, known[(pid, mech)], viol[mech][0]))
        else:
            new.append(mech)
    missing = [] if only else [
        r for r in getattr(mod, 'REQUIRED', []) if not events.get(r)]
    if missing and not errors and not events.get('stopped_at_deadline'):
        # the workload is seeded: a behaviour that it always shows is gone
        for r in missing:
            mech = 'never-observed:%s' % r
            viol[mech] = [1, 'none of the %d cases showed it' % cases, None,
                          None]
            new.append(mech)
    wall = WALL() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:16] or ['none'],
            'events': dict(sorted(events.items())),
            'cases_per_family': dict(done),
            'most_loop_iterations_in_one_case': most,
            'known_findings_seen': {m: viol[m][0] for m in viol
                                    if (pid, m) in known},
            'errors': errors[:5],
            'monitors_not_reached': missing},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(new),
        'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as handle:
            json.dump(evidence, handle, indent=1, sort_keys=True)
            handle.write('\n')
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d assertions, '
          '%.1f s' % (pid, tier, seed, cases, len(sigs),
                      events.get('assertions', 0), wall))
    if only or os.environ.get('VERIF_VERBOSE'):
        for k, v in sorted(events.items()):
            print('   ', k, v)
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        for k, mech in enumerate(new):
            count, detail, fam, case = viol[mech]
            path = os.path.join(REPLAYS, '%s-%d.json' % (pid, k))
            with open(path, 'w') as handle:
                json.dump({'property': pid, 'mechanism': mech, 'family': fam,
                           'case': case, 'detail': detail, 'seen': count},
                          handle, indent=1)
            print('  [%s] x%d: %s' % (mech, count, detail[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for err in errors[:5]:
        print('ERROR', err)
    if errors:
        return 2
    if missing:
        print('INCONCLUSIVE: the monitors %s were never reached' % missing)
        return 2
    return 0


def do_replay(modname, path):
    from vlib import boot
    import numpy as np
    mod = importlib.import_module(modname)
    with open(path) as handle:
        rec = json.load(handle)
    if rec['family'] is None:
        print('about the whole run (%s): run the check itself' %
              rec['mechanism'])
        return 2
    mon = Monitor(mod.ID)
    jumps = Jumps(boot.REPO)
    jumps.start()
    fams = {f.name: f for f in mod.FAMILIES}
    with boot.quiet():
        if getattr(mod, 'setup', None):
            mod.setup()
        random.seed(12345)
        np.random.seed(12345)
        run_case(fams[rec['family']], rec['case'], mon, boot.REPO, jumps,
                 getattr(mod, 'BUDGET', 20_000_000),
                 getattr(mod, 'WATCHDOG', 240))
    for err in mon.errors:
        print('ERROR', err)
    for mech, (count, detail, _, _) in mon.viol.items():
        print('  [%s] %s' % (mech, detail))
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    return 1 if mon.viol else (2 if mon.errors else 0)
