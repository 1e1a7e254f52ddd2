#!/opt/venv/bin/python
"""
Driver of all checks.

    run.py C01 [--tier quick|thorough] [--count N]    decide one property
    run.py --replay FILE                              reproduce a violation exactly
    run.py --selftest                                 determinism of the simulator itself
    run.py --case C01 N                               run a single case, print what happened

Cases are numbered; case number and VERIF_SEED determine a case completely,
including its schedule and faults. Each case belongs to one of SHARDS shards,
each of which runs in its own interpreter with its own PYTHONHASHSEED.
"""

import argparse
import base64
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import zlib

HERE = os.path.dirname (os.path.abspath (__file__))
sys.path.insert (0, HERE)
PYTHON = os.environ.get ('VERIF_PYTHON', '/opt/venv/bin/python')
SHARDS = 8
# lines without an operation; the largest documents need about 35 million
LINECAP = 60000000

perf = time.perf_counter

def hashSeed (seed, shard):
    # shard 0 and 1 get well-known ones
    return 0 if shard == 0 else (seed*1000+shard*7919) % 4294967295

def environ (hs):
    env = dict (os.environ, PYTHONHASHSEED=str (hs), PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
            PYTHONUTF8='1', LC_ALL='C.UTF-8', TZ='UTC')
    env.pop ('PYTHONPATH', None)
    return env

def module (pid):
    return importlib.import_module (f'checks.{pid.lower ()}')

def makeCase (m, seed, i, tier):
    from checks import base
    rng = base.Rng (base.derive (seed, m.ID, i))
    case = m.gen (rng, i, tier)
    # what is executed is exactly what can be stored
    return json.loads (json.dumps (case))

def execute (m, case, choices=None, lineCap=None, keepTrace=False):
    """ Run one case; returns (ctx, violation or None) """
    from checks import base
    ctx = base.Ctx (case, choices, lineCap, keepTrace)
    try:
        m.execute (ctx, json.loads (json.dumps (case)))
    except base.Violation as e:
        return ctx, e
    return ctx, None

# -- worker ----------------------------------------------------------------------
def worker (pid, tier, seed, shard, start, end, deadline):
    """ Runs the cases of one shard, one JSON document per line on stdout """
    out = os.fdopen (os.dup (1), 'w')
    devnull = os.open (os.devnull, os.O_WRONLY)
    os.dup2 (devnull, 1)
    def emit (**kw):
        out.write (json.dumps (kw) + '\n')
        out.flush ()
    from checks import base
    from sim.seams import real
    clock = real['perf']
    m = module (pid)
    t0 = clock ()
    for i in range (start, end, SHARDS):
        if clock ()-t0 > deadline:
            emit (kind='deadline', i=i)
            break
        case = makeCase (m, seed, i, tier)
        try:
            ctx, v = execute (m, case)
        except base.Stuck:
            emit (kind='stuck', i=i)
            break
        emit (kind='case', i=i, runs=ctx.runs, steps=ctx.steps, sim=ctx.simTime, faults=ctx.faults,
                probes=ctx.probes, sigs=ctx.sigs, nontrivial=bool (ctx.nontrivial), tag=getattr (ctx, 'tag', None))
        if v is not None:
            emit (kind='violation', i=i, cls=v.cls, msg=v.msg)
            break
    emit (kind='end')
    out.close ()
    # parked threads of simulated processes must not delay the end
    os._exit (0)

# -- minimisation ------------------------------------------------------------------
def minimise (pid, inFile, outFile, budget):
    """ Simplify a violating case: workload and faults first, then the schedule """
    from checks import base
    from sim.seams import real
    clock = real['perf']
    t0 = clock ()
    m = module (pid)
    with open (inFile) as fd:
        doc = json.load (fd)
    case, cls, lineCap = doc['case'], doc['cls'], doc.get ('lineCap')
    best = None
    tries = 0

    def attempt (case, choices=None):
        nonlocal tries
        tries += 1
        try:
            ctx, v = execute (m, case, choices, lineCap, keepTrace=True)
        except base.Stuck:
            return None
        except base.HarnessError:
            return None
        if v is None or v.cls != cls:
            return None
        return ctx, v

    r = attempt (case)
    if r is None:
        print ('cannot reproduce', cls, file=sys.stderr)
        os._exit (3)
    best = (case, *r)
    progress = True
    while progress and clock ()-t0 < budget:
        progress = False
        for cand in m.shrink (best[0]):
            if clock ()-t0 > budget:
                break
            cand = json.loads (json.dumps (cand))
            seeds = [cand['seed']] + [base.derive (cand['seed'], 'alt', k) % (1 << 48) for k in range (2)]
            for s in seeds:
                try:
                    r = attempt (dict (cand, seed=s))
                except Exception:
                    # not a valid case
                    r = None
                if r is not None:
                    best = (dict (cand, seed=s), *r)
                    progress = True
                    break
            if progress:
                break
    # schedule: as few deviations from "run the same process on" as possible
    case, ctx, v = best
    choices = ctx.choices
    def nonzero (cs):
        return [(a, b) for a, c in enumerate (cs) for b, x in enumerate (c) if x]
    r = attempt (case, choices)
    if r is not None:
        ctx, v = r
        size = max (1, len (nonzero (choices)))
        while size >= 1 and clock ()-t0 < 2*budget:
            nz = nonzero (choices)
            done = 0
            i = 0
            while i < len (nz) and clock ()-t0 < 2*budget:
                cand = [list (c) for c in choices]
                for a, b in nz[i:i+size]:
                    cand[a][b] = 0
                r = attempt (case, cand)
                if r is not None:
                    ctx, v = r
                    choices = [list (c) for c in ctx.choices]
                    nz = nonzero (choices)
                    done += 1
                else:
                    i += size
            if size == 1 and not done:
                break
            size = size//2 if size > 1 else (1 if done else 0)
        for c in choices:
            while c and c[-1] == 0:
                c.pop ()
    doc = dict (property=pid, cls=v.cls, message=v.msg, hashseed=doc['hashseed'], case=case, choices=choices,
            lineCap=lineCap, deviations=len (nonzero (choices)), executions=tries, sigs=ctx.sigs,
            trace=[t[-400:] for t in ctx.trace])
    with open (outFile, 'w') as fd:
        json.dump (doc, fd, ensure_ascii=True, indent=1)
    os._exit (0)

def replay (path, quiet=False):
    with open (path) as fd:
        doc = json.load (fd)
    want = str (doc['hashseed'])
    if os.environ.get ('PYTHONHASHSEED') != want:
        r = subprocess.run ([PYTHON, os.path.abspath (__file__), '--replay', path], env=environ (want))
        sys.exit (r.returncode)
    from checks import base
    m = module (doc['property'])
    try:
        ctx, v = execute (m, doc['case'], doc.get ('choices'), doc.get ('lineCap'))
    except base.Stuck:
        print ('stuck')
        os._exit (2)
    if v is None:
        print (f'no violation: property {doc["property"]} held in this execution')
        sys.stdout.flush ()
        os._exit (0)
    same = v.cls == doc['cls'] and ctx.sigs == doc['sigs'] and v.msg == doc['message']
    print (f'{v.cls}: {v.msg}')
    print ('execution identical to the recorded one' if same else 'execution differs from the recorded one')
    print (f'VIOLATION property={doc["property"]} replay={path}')
    sys.stdout.flush ()
    os._exit (1)

# -- driver -----------------------------------------------------------------------
class Driver:
    def __init__ (self, pid, tier, seed, count=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.m = module (pid)
        self.count = count or self.m.COUNT[tier]
        self.deadline = 400 if tier == 'quick' else 7200
        self.lock = threading.Lock ()
        self.cases = self.runs = self.steps = self.nontrivial = 0
        self.sim = 0.0
        self.faults = {}
        self.probes = {}
        self.tags = {}
        self.sigs = set ()
        self.violation = None
        self.errors = []
        self.stuck = 0
        self.procs = []
        self.stop = False

    def take (self, d):
        with self.lock:
            self.cases += 1
            self.runs += d['runs']
            self.steps += d['steps']
            self.sim += d['sim']
            self.nontrivial += d['nontrivial']
            self.sigs.update (d['sigs'])
            if d.get ('tag'):
                self.tags[d['tag']] = self.tags.get (d['tag'], 0)+1
            for a, b in ((self.faults, d['faults']), (self.probes, d['probes'])):
                for k, v in b.items ():
                    a[k] = a.get (k, 0)+v

    def shard (self, shard):
        start = shard
        t0 = perf ()
        hs = hashSeed (self.seed, shard)
        while start < self.count and not self.stop:
            left = self.deadline-(perf ()-t0)
            if left <= 0:
                break
            cmd = [PYTHON, os.path.abspath (__file__), '--worker', self.pid, self.tier, str (self.seed),
                    str (shard), str (start), str (self.count), str (left)]
            p = subprocess.Popen (cmd, env=environ (hs), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    stdin=subprocess.DEVNULL, text=True)
            with self.lock:
                self.procs.append (p)
            errbuf = []
            et = threading.Thread (target=lambda: errbuf.append (p.stderr.read ()), daemon=True)
            et.start ()
            ended = False
            last = start-SHARDS
            again = None
            for l in p.stdout:
                d = json.loads (l)
                if d['kind'] == 'case':
                    self.take (d)
                    last = d['i']
                elif d['kind'] == 'violation':
                    with self.lock:
                        if self.violation is None:
                            self.violation = dict (i=d['i'], shard=shard, cls=d['cls'], msg=d['msg'], lineCap=None)
                            self.stop = True
                elif d['kind'] == 'stuck':
                    again = d['i']
                elif d['kind'] == 'end':
                    ended = True
            p.wait ()
            et.join (5)
            if self.stop:
                break
            if not ended:
                with self.lock:
                    self.errors.append (f'shard {shard} after case {last}: {"".join (errbuf)[-1500:]}')
                break
            if again is None:
                break
            # ran without reaching a seam for long: decide with a line limit
            with self.lock:
                self.stuck += 1
            v = self.decideStuck (again, hs)
            if v is not None:
                with self.lock:
                    if self.violation is None:
                        self.violation = dict (i=again, shard=shard, cls=v['cls'], msg=v['msg'], lineCap=LINECAP)
                        self.stop = True
                break
            start = again+SHARDS

    def decideStuck (self, i, hs):
        cmd = [PYTHON, os.path.abspath (__file__), '--one', self.pid, self.tier, str (self.seed), str (i), str (LINECAP)]
        r = subprocess.run (cmd, env=environ (hs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            with self.lock:
                self.errors.append (f'case {i} stuck: {r.stderr[-1500:]}')
            return None
        d = json.loads (r.stdout.strip ().split ('\n')[-1])
        return d if d['cls'] else None

    def run (self):
        t0 = perf ()
        ts = [threading.Thread (target=self.shard, args=(s,)) for s in range (SHARDS)]
        for t in ts:
            t.start ()
        while any (t.is_alive () for t in ts):
            time.sleep (0.05)
            if self.stop:
                with self.lock:
                    for p in self.procs:
                        if p.poll () is None:
                            p.kill ()
        for t in ts:
            t.join ()
        self.wall = perf ()-t0
        rc = 0
        replayFile = None
        if self.violation is not None:
            replayFile = self.report ()
            rc = 1
        elif self.errors:
            rc = 2
            for e in self.errors:
                print (f'ERROR: {e}', file=sys.stderr)
        self.evidence (perf ()-t0, replayFile)
        for l in findings (self.pid):
            print (l)
        print (f'{self.pid}: {self.cases} cases, {self.runs} simulated runs, {len (self.sigs)} distinct interleavings, '
                f'{self.wall:.0f} s')
        if rc == 1:
            print (f'{self.violation["cls"]}: {self.violation["msg"]}')
            print (f'VIOLATION property={self.pid} replay={replayFile}')
        sys.stdout.flush ()
        return rc

    def report (self):
        v = self.violation
        d = os.path.join (HERE, 'replays')
        os.makedirs (d, exist_ok=True)
        case = makeCase (self.m, self.seed, v['i'], self.tier)
        hs = hashSeed (self.seed, v['shard'])
        path = os.path.join (d, f'{self.pid}-{self.seed}-{v["i"]}.json')
        raw = path + '.raw'
        doc = dict (property=self.pid, cls=v['cls'], message=v['msg'], hashseed=hs, case=case, lineCap=v['lineCap'])
        with open (raw, 'w') as fd:
            json.dump (doc, fd)
        budget = 25 if self.tier == 'quick' else 120
        ok = False
        try:
            r = subprocess.run ([PYTHON, os.path.abspath (__file__), '--minimise', self.pid, raw, path, str (budget)],
                    env=environ (hs), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=budget*6+60)
            ok = r.returncode == 0
            if not ok:
                print (f'minimiser: {r.stderr.decode ("utf-8", "replace")[-800:]}', file=sys.stderr)
        except subprocess.TimeoutExpired:
            pass
        if not ok:
            # fall back to the unminimised case, which reproduces from its seed
            doc.update (choices=None, sigs=None)
            with open (path, 'w') as fd:
                json.dump (doc, fd)
        else:
            r = subprocess.run ([PYTHON, os.path.abspath (__file__), '--replay', path], env=environ (hs),
                    stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            print (f'replay check: exit {r.returncode}, ' + ('identical' if 'identical' in r.stdout else 'NOT identical'))
            with open (path) as fd:
                d = json.load (fd)
            v['msg'] = d['message']
            print (f'minimised: {d["deviations"]} scheduling deviations, faults {d["case"].get ("faults")}')
        os.unlink (raw)
        return path

    def evidence (self, wall, replayFile):
        d = os.path.join (HERE, 'evidence')
        os.makedirs (d, exist_ok=True)
        samples = []
        for i in range (min (3, self.count)):
            samples.append (json.dumps (makeCase (self.m, self.seed, i, self.tier), ensure_ascii=True)[:1500])
        m = self.m
        doc = dict (property=self.pid, tier=self.tier, seed=self.seed, level='exploration',
            coverage=dict (evaluations=self.cases, distinct_nontrivial=min (self.nontrivial, len (self.sigs)),
                rule=m.RULE, samples=samples,
                simulated_runs=self.runs, simulated_runs_per_hour=int (self.runs/max (0.001, self.wall)*3600),
                seeds_per_hour=int (self.cases/max (0.001, self.wall)*3600),
                scheduling_steps=self.steps, simulated_seconds=round (self.sim, 3),
                faults_injected=self.faults, probes=self.probes, case_kinds=self.tags,
                distinct_interleavings=len (self.sigs),
                interleaving_measure='hash of the complete sequence of (process, operation) steps of a run, and the byte, file or source line its faults were placed at',
                stuck_reruns=self.stuck,
                components=dict (real=getattr (m, 'REAL', REAL), stub=getattr (m, 'STUB', STUB)),
                replay=replayFile),
            assumptions=getattr (m, 'ASSUMPTIONS', ASSUMPTIONS),
            wall_s=round (wall, 2), violations=1 if self.violation else 0)
        with open (os.path.join (d, f'{self.pid}.json'), 'w') as fd:
            json.dump (doc, fd, indent=1)

REAL = ['all of lulua from /repo (entry points of the command line tools, workers, filters, statistics, optimizer, renderers)',
        'CPython io stack (buffering, text decoding), pickle, json, xml, brotli, ebooklib, html5lib, lxml, yaml']
STUB = ['operating system: processes and fork, signals, pipes, semaphores, files, clocks (simulated)',
        'multiprocessing (Process, Queue and its feeder threads: model of the CPython implementation)',
        'random source (seeded, optionally adversarial)', 'pandoc (stand-in with controllable behaviour)']
ASSUMPTIONS = ['the simulated multiprocessing.Queue and pipes behave like CPython 3.12 on Linux',
        'seeded search: what was not sampled is not covered']

def findings (pid):
    """ Genuine defects that are known and not repaired """
    out = []
    path = os.path.join (HERE, 'known-findings.txt')
    if os.path.exists (path):
        with open (path) as fd:
            for l in fd:
                l = l.strip ()
                if l.startswith ('KNOWN-FINDING:') and f'property={pid} ' in l:
                    out.append (l)
    return out

def selftest ():
    """ Same case, different interpreter: byte-identical histories """
    bad = 0
    ids = sorted (x[:-3].upper () for x in os.listdir (os.path.join (HERE, 'checks')) if x.startswith ('c') and x[1:3].isdigit ())
    for pid in ids:
        seen = []
        for rep in range (2):
            cmd = [PYTHON, os.path.abspath (__file__), '--worker', pid, 'quick', '1', '0', '0', '160', '300']
            # the same hash seed: it is an input of a case like any other
            r = subprocess.run (cmd, env=environ (hashSeed (1, 0)), stdout=subprocess.PIPE, text=True)
            seen.append (r.stdout)
        ok = seen[0] == seen[1] and '"kind": "end"' in seen[0]
        print (pid, 'deterministic' if ok else 'NOT DETERMINISTIC', seen[0].count ('"kind": "case"'), 'cases')
        bad += not ok
    return 1 if bad else 0

def one (pid, tier, seed, i, lineCap):
    m = module (pid)
    ctx, v = execute (m, makeCase (m, seed, i, tier), lineCap=lineCap or None)
    sys.__stdout__.write (json.dumps (dict (cls=v.cls if v else None, msg=v.msg if v else None, faults=ctx.faults, probes=ctx.probes)) + '\n')
    sys.__stdout__.flush ()
    os._exit (0)

def main ():
    a = sys.argv[1:]
    if a and a[0] == '--worker':
        return worker (a[1], a[2], int (a[3]), int (a[4]), int (a[5]), int (a[6]), float (a[7]))
    if a and a[0] == '--minimise':
        return minimise (a[1], a[2], a[3], float (a[4]))
    if a and a[0] == '--peer':
        from checks import peer
        return peer.serve ()
    if a and a[0] == '--one':
        return one (a[1], a[2], int (a[3]), int (a[4]), int (a[5]))
    parser = argparse.ArgumentParser ()
    parser.add_argument ('property', nargs='?')
    parser.add_argument ('--tier', default=os.environ.get ('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    parser.add_argument ('--count', type=int)
    parser.add_argument ('--replay')
    parser.add_argument ('--selftest', action='store_true')
    parser.add_argument ('--setup', action='store_true', help='check that everything needed is there')
    parser.add_argument ('--case', nargs=2)
    args = parser.parse_args ()
    seed = int (os.environ.get ('VERIF_SEED', '1') or 1)
    if args.replay:
        return replay (args.replay)
    if args.selftest:
        return selftest ()
    if args.setup:
        from checks import base
        return 0
    if args.case:
        i = int (args.case[1])
        return subprocess.run ([PYTHON, os.path.abspath (__file__), '--one', args.case[0].upper (), args.tier, str (seed), str (i), '0'],
                env=environ (hashSeed (seed, i % SHARDS))).returncode
    return Driver (args.property.upper (), args.tier, seed, args.count).run ()

if __name__ == '__main__':
    sys.exit (main ())
