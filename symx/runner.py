"""Runs the harnesses of one property, replays counterexamples on the plain
code, validates explored paths against it, and writes the evidence file."""
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
PATH_SECONDS = 60            # per explored path
REPLAY_SECONDS = 20          # per concrete execution
REPLAYS = os.path.join(VERIF, 'replays')


class Harness(object):
    """fn(ctx) plus what is said about it in the evidence."""

    def __init__(self, name, fn, bounds, setup=None, thorough_only=False,
                 must_reach=(), validate=True, params=None, lxml=False):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.lxml = lxml         # on the repository's lxml branches
        self.setup = setup
        self.thorough_only = thorough_only
        self.must_reach = tuple(must_reach)
        self.validate = validate
        self.params = params or {}


LXML = bool(os.environ.get('SYMX_LXML'))


def under_lxml(h, **changes):
    """The same harness on the repository's lxml branches."""
    d = dict(name=h.name + '-lxml', fn=h.fn,
             bounds=h.bounds + '; with lxml', setup=h.setup,
             thorough_only=h.thorough_only, must_reach=h.must_reach,
             validate=h.validate, params=h.params, lxml=True)
    d.update(changes)
    return Harness(**d)


def real_lxml():
    """Make the installed lxml importable here."""
    import glob
    for d in sorted(glob.glob('/opt/venv*/lib/python3*/site-packages')):
        if os.path.isdir(os.path.join(d, 'lxml')):
            sys.path.append(d)
            try:
                from lxml import etree
                import lxml._elementpath
            finally:
                sys.path.remove(d)
            return etree
    raise ImportError('no lxml found')


def load_property(pid):
    """Import the harness module of a property; it defines HARNESSES."""
    mod = importlib.import_module('harness.%s' % pid.lower())
    return mod


# ------------------------------------------------------------ exploration
_G = {}


def _body(h):
    from . import ctx as C, hook

    def body(eng, res):
        snap = _G.get('snap')
        if snap is not None:
            hook.SYMKEYED.clear()
            snap.restore()
        c = C.SymCtx(eng, res, h.name)
        from . import engine as E
        signal.alarm(PATH_SECONDS)
        try:
            h.fn(c, **h.params)
        except (E.PathTruncated, E.Unsupported, E.Inconclusive):
            # not fully covered: keep one concrete instance of it to run
            signal.alarm(0)
            eng.poison = None
            try:
                res.inputs = c.concrete_inputs(eng.get_model())
            except E.ControlFlow:
                pass
            raise
        except Exception as e:           # not engine control flow
            if eng.poison is not None:
                raise eng.poison
            if os.environ.get('SYMX_DEBUG'):
                import traceback as tb
                tb.print_exception(e)
            m = eng.get_model()
            res.violations.append(('unexpected-exception:%s' %
                                   type(e).__name__, c.concrete_inputs(m)))
            res.detail = repr(e)[:300]
        finally:
            signal.alarm(0)
        c.finish()
    return body


def _on_alarm(signum, frame):
    from . import engine as E
    e = E.PathTruncated('path took more than %d s' % PATH_SECONDS)
    if E.CURRENT is not None:
        E.CURRENT.poison = e
    raise e


def _explore_chunk(prefixes, h, deadline, limit):
    """DFS below the given prefixes; returns (stats, results, leftovers)."""
    from . import engine as E
    eng = E.Engine(deadline)
    body = _body(h)
    eng.pending = list(prefixes)
    out = []
    err = None
    try:
        while eng.pending and (limit is None or len(out) < limit):
            if time.time() > deadline:
                raise E.BudgetExceeded()
            prefix = eng.pending.pop()
            res = eng.run_path(prefix, body)
            out.append(_slim(res))
    except E.BudgetExceeded:
        err = 'time budget exceeded'
    return eng.stats.__dict__, out, eng.pending, err


def _slim(res):
    return {'status': res.status, 'inputs': res.inputs,
            'obs': res.observations, 'reached': res.reached,
            'violations': res.violations, 'detail': res.detail,
            'len': res.trace_len}


def _worker(job):
    prefixes, hname, deadline, limit = job
    h = _G['harnesses'][hname]
    r = _explore_chunk(prefixes, h, deadline, limit)
    from . import hook
    return r + (sorted(hook.FUNCTIONS),)


class Merge(object):
    def __init__(self):
        self.stats = {}
        self.paths = 0
        self.truncated = 0
        self.pruned = 0
        self.reached = {}
        self.violations = []
        self.errors = []
        self.incomplete = []     # why not all of it was explored
        self.samples = []
        self.details = []
        self.partial = []        # one instance of each truncated path
        self.functions = set()

    def add(self, stats, out, err, keep):
        for k, v in stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        if err and err not in self.incomplete:
            self.incomplete.append(err)
        for r in out:
            if r['status'] == 'pruned':
                self.pruned += 1
            elif r['status'] in ('truncated', 'inconclusive'):
                self.truncated += 1
                self.details.append(r['detail'])
                if r['inputs'] is not None and len(self.partial) < 300:
                    self.partial.append(r)
            else:
                self.paths += 1
            for l in r['reached']:
                self.reached[l] = self.reached.get(l, 0) + 1
            for label, inp in r['violations']:
                self.violations.append((label, inp, r['detail']))
            if r['inputs'] is not None and r['status'] == 'ok' and \
                    not r['violations']:
                keep.append(r)


def explore(h, deadline, jobs):
    """Explore all paths of a harness, in parallel when there are many."""
    mg = Merge()
    keep = []
    stats, out, pending, err = _explore_chunk([[]], h, deadline, 60)
    mg.add(stats, out, err, keep)
    if pending and not err:
        ctxm = multiprocessing.get_context('fork')
        with ctxm.Pool(jobs) as pool:
            active = []
            while (pending or active):
                while pending and len(active) < 2 * jobs:
                    # shallow prefixes hold the largest subtrees
                    n = max(1, min(8, len(pending) // (2 * jobs)))
                    chunk, pending = pending[:n], pending[n:]
                    active.append(pool.apply_async(
                        _worker, ((chunk, h.name, deadline, 120),)))
                done = [a for a in active if a.ready()]
                if not done:
                    if time.time() > deadline + 30:
                        mg.incomplete.append('a worker stopped answering')
                        pool.terminate()
                        break
                    time.sleep(0.005)
                    continue
                active = [a for a in active if not a.ready()]
                for a in done:
                    stats, out, left, err, fns = a.get()
                    mg.add(stats, out, err, keep)
                    mg.functions.update(fns)
                    pending.extend(left)
                if mg.errors or mg.incomplete or \
                        len(mg.violations) > 200:
                    pool.terminate()
                    break
    return mg, keep


# ----------------------------------------------------------------- replay
def replay_batch(pid, items, timeout=600):
    """items: list of {harness, inputs}; run them on the plain code in a fresh
    process; returns a list of {failed, obs, error}."""
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, 'replay.py'), '--batch', pid],
        input=json.dumps(items), capture_output=True, text=True,
        timeout=timeout, cwd=VERIF)
    if p.returncode != 0:
        raise RuntimeError('replay process failed: %s' % p.stderr[-2000:])
    return json.loads(p.stdout.splitlines()[-1])


class Hung(BaseException):
    pass


def run_concrete(pid, harness, inputs):
    """In the plain process: one execution on recorded inputs."""
    from . import ctx as C
    mod = load_property(pid)
    h = {x.name: x for x in mod.HARNESSES}[harness]
    c = C.ConcreteCtx(inputs)
    r = {'failed': [], 'obs': None, 'error': None}

    def hung(signum, frame):
        raise Hung()
    signal.signal(signal.SIGALRM, hung)
    signal.alarm(REPLAY_SECONDS)
    try:
        h.fn(c, **h.params)
    except C.Stop:
        pass
    except Hung:
        c.failed.append('does-not-terminate')
    except C.AssumptionFailed:
        r['error'] = 'assumption does not hold'
    except Exception as e:
        c.failed.append('unexpected-exception:%s' % type(e).__name__)
        r['exc'] = repr(e)[:300]
    finally:
        signal.alarm(0)
    r['failed'] = c.failed
    r['obs'] = c.observations
    return r


# -------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if os.path.exists(path):
        for f in json.load(open(path))['findings']:
            if f['property'] == pid:
                out.append(f)
    return out


def matches_known(f, harness, label, inputs):
    if f['harness'] != harness or f['label'] != label:
        return False
    for k, v in f.get('inputs', {}).items():
        got = inputs.get(k, [None, None])[1]
        if isinstance(v, list):
            if got not in v:
                return False
        elif got != v:
            return False
    return True


def main(pid, tier, argv=()):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    for a in argv:
        if a.startswith('--only='):
            only = a[7:]
    budget = float(os.environ.get('SYMX_BUDGET',
                                  '780' if tier == 'quick' else '3000'))
    deadline = t0 + budget
    jobs = int(os.environ.get('SYMX_JOBS', '0')) or max(
        1, min(8, os.cpu_count() or 1))
    from . import hook
    if LXML:
        from . import fakelxml
        fakelxml.install()
    hook.install()
    signal.signal(signal.SIGALRM, _on_alarm)
    sys.path.insert(0, VERIF)
    mod = load_property(pid)
    hs = [h for h in mod.HARNESSES if (tier == 'thorough' or
                                       not h.thorough_only)]
    if only:
        hs = [h for h in hs if h.name == only]
    apart = None
    if not LXML and any(h.lxml for h in hs):
        apart = lxml_part(pid, tier, argv, budget * sum(
            h.lxml for h in hs) / len(hs))
    hs = [h for h in hs if h.lxml == LXML]
    if hasattr(mod, 'warm_up'):
        mod.warm_up()
    _G['snap'] = hook.Snapshot()
    hook.reset_functions()
    _G['harnesses'] = {h.name: h for h in hs}
    total = {}
    rep = []
    errors = []
    reported = []
    known_hit = []
    validated = 0
    samples = []
    functions = set()
    kfs = known_findings(pid)
    mismatch = []
    inconclusive = []
    for hi, h in enumerate(hs):
        th = time.time()
        # a harness whose paths multiply does not starve the others
        left = max(1.0, deadline - th)
        mg, keep = explore(h, th + left / min(2, len(hs) - hi), jobs)
        for k, v in mg.stats.items():
            total[k] = total.get(k, 0) + v
        functions |= mg.functions
        for e in mg.errors:
            errors.append('%s: %s' % (h.name, e))
        for e in mg.incomplete:
            inconclusive.append('%s: not all paths explored: %s'
                                % (h.name, e))
        if mg.truncated:
            errors_t = sorted(set(str(d) for d in mg.details))
        else:
            errors_t = []
        # --- counterexamples are replayed on the plain code -------------
        if mg.violations:
            cand, seen = [], {}
            for label, inp, detail in mg.violations:
                seen[label] = seen.get(label, 0) + 1
                if seen[label] <= 40:
                    cand.append((label, inp, detail))
            rs = replay_batch(pid, [{'harness': h.name, 'inputs': i}
                                    for _l, i, _d in cand])
            bad = []
            for (label, inp, detail), r in zip(cand, rs):
                if label in r['failed']:
                    k = [f for f in kfs
                         if matches_known(f, h.name, label, inp)]
                    if k:
                        if k[0] not in known_hit:
                            known_hit.append(k[0])
                    else:
                        bad.append((label, inp, detail, r))
                elif r['failed']:
                    bad.append((r['failed'][0], inp, detail, r))
                else:
                    inconclusive.append(
                        '%s: counterexample for %s does not reproduce: %s %s'
                        % (h.name, label, json.dumps(inp)[:600], r))
            done = set()
            for label, inp, detail, r in bad:
                if label in done:
                    continue
                done.add(label)
                path = write_replay(pid, h, label, inp, detail)
                reported.append((label, path, inp))
        # --- vacuity ---------------------------------------------------
        if not mg.violations and not mg.errors and not mg.incomplete:
            for l in h.must_reach:
                if not mg.reached.get(l):
                    errors.append('%s: vacuous, never reached %r'
                                  % (h.name, l))
            if not mg.reached:
                errors.append('%s: vacuous, no property instance reached'
                              % h.name)
        # --- validation of the encoding --------------------------------
        nval = 0
        if mg.partial:
            rs = replay_batch(pid, [{'harness': h.name, 'inputs': k['inputs']}
                                    for k in mg.partial])
            for k, r in zip(mg.partial, rs):
                if r['failed']:
                    mismatch.append((h.name, k['inputs'], None, None,
                                     r['failed'], None))
        if h.validate and keep:
            cap = 150 if tier == 'quick' else 1000
            step = max(1, len(keep) // cap)
            pick = keep[::step][:cap]
            rs = replay_batch(pid, [{'harness': h.name, 'inputs': k['inputs']}
                                    for k in pick])
            for k, r in zip(pick, rs):
                a = json.loads(json.dumps(k['obs']))
                b = json.loads(json.dumps(r['obs']))
                if r['error'] or r['failed'] or a != b:
                    mismatch.append((h.name, k['inputs'], a, b, r['failed'],
                                     r['error']))
                else:
                    nval += 1
            validated += nval
        if keep:
            samples.append({'harness': h.name, 'inputs': keep[-1]['inputs'],
                            'observed': keep[-1]['obs']})
        rep.append({'harness': h.name, 'bounds': h.bounds,
                    'paths': mg.paths, 'pruned': mg.pruned,
                    'truncated_paths': mg.truncated,
                    'truncation': errors_t,
                    'property_instances': mg.reached,
                    'property_queries_unsat': mg.stats.get('assertions', 0),
                    'property_trivially_true': mg.stats.get('trivial', 0),
                    'queries': mg.stats.get('queries', 0),
                    'solver_s': round(mg.stats.get('solver_s', 0), 3),
                    'paths_replayed_on_plain_code': nval,
                    'wall_s': round(time.time() - th, 2)})
        if os.environ.get('SYMX_VERBOSE'):
            print(json.dumps(rep[-1], indent=1))
    functions |= hook.FUNCTIONS
    # an execution of the real code that breaks the property is a violation
    # however it was found
    for hn, inp, a, b, failed, err in mismatch:
        if failed:
            hh = _G['harnesses'][hn]
            k = [f for f in kfs if matches_known(f, hn, failed[0], inp)]
            if k:
                if k[0] not in known_hit:
                    known_hit.append(k[0])
                continue
            path = write_replay(pid, hh, failed[0], inp, 'validation')
            reported.append((failed[0], path, inp))
        else:
            inconclusive.append(
                '%s: encoding and code disagree on %s: %s / %s %s'
                % (hn, json.dumps(inp)[:500], a, b, err))
    truncated = sum(r['truncated_paths'] for r in rep)
    cov = {
        'states': total.get('branches', 0) + total.get('paths', 0),
        'transitions': total.get('transitions', 0),
        'traces_validated_against_impl': validated,
        'samples': samples[:12],
        'exhaustive': truncated == 0 and not errors and not inconclusive,
        'paths': total.get('paths', 0) - total.get('pruned', 0),
        'truncated_paths': truncated,
        'solver_queries': total.get('queries', 0),
        'property_queries_discharged_unsat': total.get('assertions', 0),
        'property_instances_true_by_simplification': total.get('trivial', 0),
        'solver_s': round(total.get('solver_s', 0), 3),
        'functions_encoded': sorted(functions),
        'harnesses': rep,
        'errors': errors[:20],
        'inconclusive': inconclusive[:50],
        'known_findings_seen': [f['id'] for f in known_hit],
    }
    apart_rc = 0
    if apart is not None:
        apart_rc, n = apart.add_to(cov, known_hit, kfs)
        errors = errors + apart.errors
        inconclusive = cov['inconclusive']
        truncated = cov['truncated_paths']
        validated = cov['traces_validated_against_impl']
    wall = time.time() - t0
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.environ.get('SYMX_EVIDENCE') or
              os.path.join(EVIDENCE, '%s.json' % pid), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed,
                   'level': 'model_checking', 'coverage': cov,
                   'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
                   'wall_s': round(wall, 2),
                   'violations': len(reported) + (n if apart else 0)},
                  f, indent=1)
    for f in kfs:
        if f in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if reported:
        for label, path, inp in reported[:10]:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (label, json.dumps(inp)[:400]))
        return 1
    if apart_rc == 1:
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR %s: %s' % (pid, e[:2000]), file=sys.stderr)
        return 3
    # what is not decided is no violation; it is said here and in the
    # evidence, which is not exhaustive then
    for e in inconclusive[:10]:
        print('INCONCLUSIVE %s: %s' % (pid, e[:2000]), file=sys.stderr)
    print('OK property=%s tier=%s paths=%d queries=%d discharged=%d '
          'trivial=%d solver=%.1fs validated=%d truncated=%d wall=%.1fs' % (
              pid, tier, cov['paths'], cov['solver_queries'],
              cov['property_queries_discharged_unsat'],
              cov['property_instances_true_by_simplification'],
              cov['solver_s'], validated, truncated, wall))
    return 0


class Apart(object):
    """The part of a check that ran with lxml, in a process of its own."""

    def __init__(self, rc, out, err, evidence):
        self.rc, self.out, self.evidence = rc, out, evidence
        self.errors = []
        if rc not in (0, 1) or evidence is None:
            self.errors.append('with lxml: exit %s: %s' % (rc, err[-1500:]))

    def add_to(self, cov, known_hit, kfs):
        for line in self.out.splitlines():
            if not line.startswith(('OK ', 'KNOWN-FINDING')):
                print(line)
        cov['errors'] = cov['errors'] + self.errors
        if self.evidence is None:
            cov['exhaustive'] = False
            return self.rc, 0
        c = self.evidence['coverage']
        for k, v in c.items():
            if k == 'exhaustive':
                cov[k] = cov[k] and v
            elif k == 'functions_encoded':
                cov[k] = sorted(set(cov[k]) | set(v))
            elif isinstance(v, list):
                cov[k] = cov[k] + v
            else:
                cov[k] = round(cov[k] + v, 3)
        for f in kfs:
            if f['id'] in c['known_findings_seen'] and f not in known_hit:
                known_hit.append(f)
        return self.rc, self.evidence['violations']


def lxml_part(pid, tier, argv, budget):
    import tempfile
    fd, path = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    env = dict(os.environ, SYMX_LXML='1', SYMX_EVIDENCE=path,
               SYMX_BUDGET=str(budget))
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'check.py'), pid, tier] +
            [a for a in argv if a.startswith('--')],
            capture_output=True, text=True, env=env, cwd=VERIF,
            timeout=budget + 120)
        rc, out, err = p.returncode, p.stdout, p.stderr
        evidence = None
        if os.path.getsize(path):
            evidence = json.load(open(path))
    except subprocess.TimeoutExpired:
        rc, out, err, evidence = 3, '', 'no answer', None
    finally:
        os.remove(path)
    return Apart(rc, out, err, evidence)


def write_replay(pid, h, label, inp, detail):
    os.makedirs(REPLAYS, exist_ok=True)
    safe = ''.join(c if c.isalnum() or c in '-_' else '_' for c in label)
    path = os.path.join(REPLAYS, '%s-%s-%s.json' % (pid, h.name, safe[:60]))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'harness': h.name, 'label': label,
                   'lxml': h.lxml, 'inputs': inp, 'detail': detail}, f, indent=1)
    return path
