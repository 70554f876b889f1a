# -*- coding: utf-8 -*-
"""Exhaustive explorer used by every property module.

A property module (mc/props/<name>.py) provides

    PID    property id
    LEVEL  'model_checking' or 'exploration'
    RULE   how cases are made and what counts as non-trivial
    cases(tier)      deterministic generator of JSON-able cases; the whole
                     bounded space, simplest first
    run(case, ctx)   executes ONE case on the real code and compares it with
                     the reference model; raises Violation on disagreement;
                     returns a value describing the observed outcome

The explorer evaluates *every* case (no sampling, no cap); worker k of N takes
the cases with index = k mod N.  Any exception escaping the code under test is
a violation of the case unless the module says otherwise.
"""
from __future__ import print_function
import gc
import hashlib
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
CASE_TIMEOUT = 60.0
MAX_VIOLATIONS_PER_WORKER = 3


class Violation(Exception):
    """The code under test disagrees with the reference model.

    ``finding`` names the specific input / history this disagreement is about;
    only disagreements carrying the id of an entry of known_findings.txt are
    reported as KNOWN-FINDING instead of VIOLATION.
    """

    def __init__(self, message, expected=None, got=None, finding=None):
        Exception.__init__(self, message)
        self.message = message
        self.expected = expected
        self.got = got
        self.finding = finding


class CaseTimeout(BaseException):
    pass


def digest(value):
    data = value if isinstance(value, str) else repr(value)
    return int(hashlib.md5(data.encode('utf-8', 'replace')).hexdigest()[:15], 16)


class Context(object):
    """Per-worker measuring state handed to run()."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.states = set()       # canonical reference-model states reached
        self.transitions = set()  # distinct (state, event, state') of the model
        self.traces = 0           # model traces replayed on the implementation
        self.counters = {}
        self._scratch = None

    def state(self, canon):
        self.states.add(digest(canon))

    def transition(self, src, event, dst):
        a, b = digest(src), digest(dst)
        self.states.add(a)
        self.states.add(b)
        self.transitions.add(digest((a, event, b)))

    def trace(self):
        self.traces += 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='mcverif.')
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            import shutil
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, case, ctx):
    """Returns (outcome, violation-or-None)."""
    limit = getattr(module, 'CASE_TIMEOUT', CASE_TIMEOUT)
    # processor time, whatever else runs on the machine; a case that waits for something is ended later
    for timer, sig, seconds in ((signal.ITIMER_PROF, signal.SIGPROF, limit), (signal.ITIMER_REAL, signal.SIGALRM, 10 * limit)):
        signal.signal(sig, _alarm)
        signal.setitimer(timer, seconds, 1)
    try:
        outcome = module.run(case, ctx)
        return outcome, None
    except Violation as v:
        return None, dict(message=v.message, expected=_short(v.expected),
                          got=_short(v.got), finding=v.finding)
    except CaseTimeout:
        return None, dict(message='case did not terminate within %gs' % CASE_TIMEOUT,
                          expected=None, got=None, finding=None)
    except RecursionError:
        return None, dict(message='recursion overflow', expected=None, got=None, finding=None)
    except Exception as e:
        return None, dict(message='unexpected exception %s: %s' % (type(e).__name__, e),
                          expected=None, got=traceback.format_exc(limit=-8), finding=None)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _short(x, n=4000):
    if x is None:
        return None
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def load(pid):
    from . import registry
    return importlib.import_module('mc.props.' + registry.MODULES[pid])


def known_findings(pid):
    found = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                fields = line[len('finding:'):].strip().split(None, 2)
                if fields[0] == 'property=' + pid:
                    found[fields[1].replace('id=', '', 1)] = fields[2] if len(fields) > 2 else ''
    return found


def _trim(limit=[400]):
    """surfaces of cairo and open files are not counted by the collector: collect when the process has grown"""
    if len(os.listdir('/proc/self/fd')) > 200:
        gc.collect()
    with open('/proc/self/statm') as f:
        mb = int(f.read().split()[1]) * 4096 // 1000000
    if mb > limit[0]:
        gc.collect()
        with open('/proc/self/statm') as f:
            limit[0] = int(f.read().split()[1]) * 4096 // 1000000 + 200


def _worker(module, tier, seed, k, n, out):
    ctx = Context(tier, seed)
    evaluations = 0
    nontrivial = set()
    trivial = getattr(module, 'TRIVIAL', ())
    violations = []
    findings = {}
    stopped = False
    listed = known_findings(module.PID)
    samples = []
    try:
        for i, case in enumerate(module.cases(tier)):
            if i % n != k:
                continue
            evaluations += 1
            if evaluations % 10 == 0:
                _trim()
            outcome, bad = run_case(module, case, ctx)
            if bad is None:
                if outcome is not None and outcome not in trivial:
                    nontrivial.add(digest(outcome))
                if len(samples) < 3 and outcome is not None:
                    samples.append({'index': i, 'case': case, 'outcome': _short(outcome, 400)})
            elif bad['finding'] is not None and bad['finding'] in listed:
                findings.setdefault(bad['finding'], (i, case, bad))
            else:
                violations.append((i, case, bad))
                if len(violations) >= MAX_VIOLATIONS_PER_WORKER:
                    stopped = True
                    break
        err = None
    except Exception:
        err = traceback.format_exc()
    finally:
        ctx.cleanup()
    with open(out, 'w') as f:
        json.dump(dict(evaluations=evaluations, nontrivial=sorted(nontrivial),
                       violations=violations, findings=findings, stopped=stopped,
                       states=sorted(ctx.states), transitions=sorted(ctx.transitions),
                       traces=ctx.traces, counters=ctx.counters, samples=samples,
                       error=err), f)


def explore(pid, tier, seed):
    t0 = time.time()
    module = load(pid)
    if hasattr(module, 'prepare'):
        module.prepare(tier)
    n = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    n = min(n, getattr(module, 'MAX_WORKERS', n))
    tmp = tempfile.mkdtemp(prefix='mcrun.')
    pids = []
    for k in range(n):
        sys.stdout.flush()
        sys.stderr.flush()
        p = os.fork()
        if p == 0:
            rc = 0
            try:
                # the code under test prints notes of its own
                os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                _worker(module, tier, seed, k, n, os.path.join(tmp, '%d.json' % k))
            except BaseException:
                traceback.print_exc()
                rc = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids.append(p)
    for p in pids:
        os.waitpid(p, 0)
    merged = dict(evaluations=0, nontrivial=set(), violations=[], findings={}, stopped=False,
                  states=set(), transitions=set(), traces=0, counters={}, samples=[])
    errors = []
    for k in range(n):
        path = os.path.join(tmp, '%d.json' % k)
        if not os.path.exists(path):
            errors.append('worker %d died' % k)
            continue
        with open(path) as f:
            r = json.load(f)
        if r['error']:
            errors.append(r['error'])
        merged['evaluations'] += r['evaluations']
        merged['nontrivial'].update(r['nontrivial'])
        merged['violations'].extend(r['violations'])
        merged['stopped'] |= r['stopped']
        merged['states'].update(r['states'])
        merged['transitions'].update(r['transitions'])
        merged['traces'] += r['traces']
        merged['samples'].extend(r['samples'])
        for name, v in r['counters'].items():
            merged['counters'][name] = merged['counters'].get(name, 0) + v
        for name, v in r['findings'].items():
            if name not in merged['findings'] or v[0] < merged['findings'][name][0]:
                merged['findings'][name] = v
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    merged['violations'].sort(key=lambda v: v[0])
    merged['samples'].sort(key=lambda s: s['index'])

    # module-level obligations on the merged exploration (e.g. the explored
    # state graph equals the reachable set computed from the model alone)
    if hasattr(module, 'finish') and not merged['stopped'] and not errors:
        bad = module.finish(tier, merged)
        if bad:
            merged['violations'].append((-1, {'finish': True},
                                         dict(message=bad, expected=None, got=None, finding=None)))
    wall = time.time() - t0
    coverage = dict(rule=module.RULE, bounds=getattr(module, 'BOUNDS', {}).get(tier, ''),
                    exhaustive=not merged['stopped'] and not errors,
                    samples=[dict(case=s['case'], outcome=s['outcome'])
                             for s in merged['samples'][:2] + merged['samples'][-2:]])
    if module.LEVEL == 'model_checking':
        coverage.update(states=len(merged['states']), transitions=len(merged['transitions']),
                        traces_validated_against_impl=merged['traces'],
                        distinct_outcomes=len(merged['nontrivial']))
    else:
        coverage.update(evaluations=merged['evaluations'],
                        distinct_nontrivial=len(merged['nontrivial']))
    for name, v in sorted(merged['counters'].items()):
        coverage.setdefault('n_' + name, v)
    evidence = dict(property=pid, tier=tier, seed=seed, level=module.LEVEL, coverage=coverage,
                    assumptions=list(getattr(module, 'ASSUMPTIONS', ())),
                    violations=len(merged['violations']), wall_s=round(wall, 3))
    if merged['findings']:
        evidence['coverage']['known_findings_observed'] = sorted(merged['findings'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
        f.write('\n')

    listed = known_findings(pid)
    for name in sorted(merged['findings']):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, name, listed.get(name, '')))
    status = 0
    if merged['violations']:
        i, case, bad = merged['violations'][0]
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '%s-%s.json' % (pid, '%x' % digest(json.dumps(case, default=str))))
        with open(rpath, 'w') as f:
            json.dump(dict(property=pid, tier=tier, index=i, case=case, violation=bad), f,
                      indent=1, default=str)
            f.write('\n')
        print('case #%d: %s' % (i, _short(json.dumps(case, default=str), 1500)))
        print('  ' + str(bad['message']))
        if bad['expected'] is not None:
            print('  expected: %s' % bad['expected'])
        if bad['got'] is not None:
            print('  got:      %s' % bad['got'])
        print('VIOLATION property=%s replay=%s' % (pid, rpath))
        status = 1
    if errors:
        for e in errors:
            print('explorer error:\n%s' % e, file=sys.stderr)
        if status == 0:
            # a harness error is not a verdict
            status = 2
    print('%s %s: %d cases, %d distinct outcomes, %d model states, %d model transitions, '
          '%d traces replayed, %.1fs%s'
          % (pid, tier, merged['evaluations'], len(merged['nontrivial']), len(merged['states']),
             len(merged['transitions']), merged['traces'], wall,
             ' (stopped at first violations)' if merged['stopped'] else ''))
    return status


def replay(path):
    with open(path) as f:
        r = json.load(f)
    module = load(r['property'])
    if hasattr(module, 'prepare'):
        module.prepare(r.get('tier', 'quick'))
    ctx = Context(r.get('tier', 'quick'), 1)
    try:
        outcome, bad = run_case(module, r['case'], ctx)
    finally:
        ctx.cleanup()
    if bad is None:
        print('replay: property=%s holds on this case (%s)' % (r['property'], _short(outcome, 200)))
        return 0
    print('replay: %s\n  expected: %s\n  got:      %s' % (bad['message'], bad['expected'], bad['got']))
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1
