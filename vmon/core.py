"""
core.py -- runner, verdicts, evidence and replay for the pyTMD monitors

A *check* is a list of scenarios for one property.  A scenario drives the real
code from /repo with one generated workload (a *case*) and passes what it
observes to an oracle.  Cases are deterministic in
(VERIF_SEED, property, scenario, case index), so a violation can be replayed
alone with ``python run.py <id> --replay <file>``.

Verdicts are three-valued:
    exit 0  held on everything observed
    exit 1  a VIOLATION line per mechanism (kind) that is not a known finding
    exit 2  inconclusive (too little was observed, or the harness broke)
"""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import errno
import hashlib
import io
import json
import logging
import multiprocessing as mp
import os
import pathlib
import shutil
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
# always drive the working tree, wherever the editable install points
if str(REPO) not in sys.path:
    sys.path.insert(0, str(REPO))

import numpy as np  # noqa: E402

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


class Violation(Exception):
    def __init__(self, kind, message, **detail):
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = message
        self.detail = detail


class Skip(Exception):
    """the generated case is outside the stated domain (not counted)"""


def jsonable(v, depth=0):
    """short, printable form of a value for evidence and replay files"""
    if depth > 4:
        return repr(v)[:200]
    if isinstance(v, (str, int, bool)) or v is None:
        return v if not isinstance(v, str) else v[:400]
    if isinstance(v, float):
        return v if np.isfinite(v) else repr(v)
    if isinstance(v, np.ma.MaskedArray):
        return dict(data=jsonable(np.ravel(v.data)[:12], depth+1),
            mask=jsonable(np.ravel(np.ma.getmaskarray(v))[:12], depth+1),
            shape=list(v.shape))
    if isinstance(v, np.ndarray):
        if v.size > 12:
            return dict(head=jsonable(np.ravel(v)[:12], depth+1),
                shape=list(v.shape))
        return [jsonable(x, depth+1) for x in np.ravel(v).tolist()]
    if isinstance(v, np.generic):
        return jsonable(v.item(), depth+1)
    if isinstance(v, complex):
        return repr(v)
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth+1) for k, x in list(v.items())[:30]}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x, depth+1) for x in list(v)[:20]]
    return repr(v)[:200]


def _filled(a):
    """(data, mask) pair of any array-like, NaN counted as masked"""
    m = np.ma.getmaskarray(np.ma.asanyarray(a))
    d = np.ma.getdata(np.ma.asanyarray(a))
    d = np.array(d, dtype=(complex if np.iscomplexobj(d) else float))
    m = np.broadcast_to(m, d.shape) | np.isnan(d)
    return d, m


class Case:
    """one running case: rng, oracle calls and counters"""

    def __init__(self, prop, scenario, index, seed, tier):
        self.prop = prop
        self.scenario = scenario
        self.index = index
        self.tier = tier
        self.seed = seed
        self.rng = np.random.default_rng(
            [seed & 0x7fffffff, zlib.crc32(prop.encode()),
             zlib.crc32(scenario.encode()), index])
        self.evaluations = 0
        self.keys = []
        self.sample = None
        self.events = {}
        self.found = []
        self._tmp = None
        self.params = {}

    # -- description of the case
    def note(self, **kw):
        """record generated parameters (shown in replay files and samples)"""
        self.params.update(kw)

    def nontrivial(self, *key):
        """count this case as distinct non-trivial under a key"""
        self.keys.append('|'.join(str(k) for k in key))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = pathlib.Path(tempfile.mkdtemp(prefix='vmon_'))
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # -- oracles.  A failed oracle is recorded and the case continues, so a
    #    known finding does not hide another mechanism in the same case
    def fail(self, kind, message, **detail):
        self.found.append(Violation(kind, message, **detail))
        if len(self.found) > 40:
            raise self.found[-1]

    def expect(self, cond, kind, message='', **detail):
        self.evaluations += 1
        if not bool(cond):
            self.fail(kind, message, **detail)
            return False
        return True

    def close(self, got, want, kind, rtol=1e-9, atol=0.0, mask=True,
              message='', scale=None, **detail):
        """numeric agreement, with NaN and masked entries as "no value"

        scale: if given, the absolute tolerance is rtol*scale (use for sums of
        terms that may cancel)
        """
        try:
            g, gm = _filled(got)
            w, wm = _filled(want)
        except Exception as exc:
            self.evaluations += 1
            self.fail(kind, f'{message} not an array: {exc!r}', **detail)
            return False
        self.evaluations += max(1, int(w.size))
        if g.shape != w.shape:
            self.fail(kind, f'{message} shape {g.shape} expected {w.shape}',
                **detail)
            return False
        if mask and np.any(gm != wm):
            bad = np.flatnonzero(np.ravel(gm != wm))
            i = int(bad[0])
            self.fail(kind, f'{message} validity differs at {bad.size} of '
                f'{gm.size} entries (first {i}: got '
                f'{"masked" if np.ravel(gm)[i] else np.ravel(g)[i]!r}, expected '
                f'{"masked" if np.ravel(wm)[i] else np.ravel(w)[i]!r})', **detail)
            return False
        ok = ~(gm | wm)
        if not np.any(ok):
            return True
        gv, wv = g[ok], w[ok]
        tol = atol + rtol*(np.abs(wv) if scale is None else np.abs(scale))
        with np.errstate(all='ignore'):
            err = np.abs(gv - wv)
            bad = ~(err <= tol)
        # infinities agree when equal
        bad &= ~((~np.isfinite(wv)) & (gv == wv))
        if np.any(bad):
            i = int(np.flatnonzero(bad)[np.nanargmax(
                np.where(np.isnan(err[bad]), np.inf, err[bad]))])
            self.fail(kind, f'{message} {int(bad.sum())} of {bad.size} values '
                f'differ (worst: got {gv[i]!r}, expected {wv[i]!r}, '
                f'error {err[i]!r})', **detail)
            return False
        return True

    def raises(self, exc, kind, fn, *args, **kw):
        """fn must refuse"""
        self.evaluations += 1
        try:
            fn(*args, **kw)
        except exc:
            return True
        except Exception as e:
            self.fail(kind, f'raised {type(e).__name__}: {e} and not '
                f'{exc!r}')
            return False
        self.fail(kind, 'accepted input that must be refused')
        return False

    def quietly(self, kind, fn, *args, **kw):
        """run real code; an exception is recorded under this kind

        returns (ok, value)
        """
        self.evaluations += 1
        try:
            return True, fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            where = [f'{pathlib.Path(f.filename).name}:{f.name}' for f in tb
                if str(REPO) in f.filename]
            self.fail(kind, f'{type(exc).__name__}: {exc}',
                where=where[-3:])
            return False, None


# how many times the cases of the quick tier are taken, so that most checks take half a minute
QUICK = dict(P01=6, P02=5, P03=12, P04=6, P05=2, P06=16, P07=12, P08=1, F01=4, F02=4, F03=5, F04=6, F05=5, F06=3, F07=8, F08=8,
    F09=16, C01=2, C02=2, C04=2, C07=8, S01=6, S02=6, S03=3, U01=4, U02=6, U03=8, D01=2, K01=2, M09=8, M10=6, I01=8, X01=2, X02=2, X03=14)


class Check:
    def __init__(self, prop, title, rule, assumptions=(), level='exploration'):
        self.prop = prop
        self.title = title
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.scenarios = {}

    def scenario(self, quick=1, thorough=None, chunk=None, floor=1):
        """register a scenario with its number of cases per tier

        floor: fewer completed (not skipped) cases than this is inconclusive
        """
        def wrap(fn):
            self.scenarios[fn.__name__] = dict(fn=fn, quick=quick,
                thorough=thorough if thorough is not None else quick*10,
                chunk=chunk, floor=floor)
            return fn
        return wrap

    # -- execution
    def _run_case(self, name, i, seed, tier):
        case = Case(self.prop, name, i, seed, tier)
        harness_error = None
        skipped = False
        try:
            self.scenarios[name]['fn'](case)
        except Skip:
            skipped = True
        except Violation as v:
            if v not in case.found:
                case.found.append(v)
        except (MemoryError, KeyboardInterrupt) as exc:
            harness_error = repr(exc)
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            frames = [f for f in tb if str(REPO) + '/' in f.filename]
            last = [f'{pathlib.Path(f.filename).name}:{f.name}' for f in tb][-4:]
            text = traceback.format_exc()[-1500:]
            if isinstance(exc, OSError) and exc.errno in (errno.ENOSPC,
                    errno.ENOMEM, errno.EMFILE):
                harness_error = text
            elif frames:
                # the real code raised on an input it must accept
                case.found.append(Violation('exception:' + name,
                    f'{type(exc).__name__}: {exc}', where=last, trace=text))
            elif isinstance(exc, (ImportError, NameError)) or (
                    isinstance(exc, AttributeError) and 'module' in str(exc)):
                harness_error = text
            else:
                # what the real code returned could not be used as documented
                case.found.append(Violation('malformed-result:' + name,
                    f'{type(exc).__name__}: {exc}', where=last, trace=text))
        finally:
            case.cleanup()
        return dict(scenario=name, index=i, skipped=skipped,
            evaluations=case.evaluations, keys=case.keys, events=case.events,
            params=jsonable(case.params), error=harness_error,
            found=[dict(kind=v.kind, message=v.message,
                detail=jsonable(v.detail)) for v in case.found])

    def _run_chunk(self, name, idx, seed, tier, deadline):
        mon = Reach()
        out = []
        with mon:
            for i in idx:
                if time.time() > deadline:
                    break
                out.append(self._run_case(name, i, seed, tier))
        return out, mon.seen

    def main(self, argv=None):
        ap = argparse.ArgumentParser()
        ap.add_argument('--replay')
        ap.add_argument('--scenario', action='append')
        ap.add_argument('--jobs', type=int,
            default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
        ap.add_argument('--verbose', '-v', action='store_true')
        args = ap.parse_args(argv)
        if args.replay:
            return self.replay(args.replay)
        t0 = time.time()
        tier, seed = TIER, SEED
        budget = float(os.environ.get('VERIF_BUDGET',
            '420' if tier == 'quick' else '2400'))
        deadline = t0 + budget
        tasks = []
        for name, s in self.scenarios.items():
            if args.scenario and name not in args.scenario:
                continue
            n = s[tier]
            if tier == 'quick' and n >= 20:
                # cheap checks have time for more cases (never more than the thorough tier)
                n = max(n, min(s['thorough'], n*QUICK.get(self.prop, 1)))
            chunk = s['chunk'] or max(1, -(-n // 8))
            for a in range(0, n, chunk):
                tasks.append((name, list(range(a, min(n, a+chunk)))))
        results, seen = [], set()
        lost = []
        if args.jobs == 1:
            for name, idx in tasks:
                r, sn = self._run_chunk(name, idx, seed, tier, deadline)
                results += r
                seen |= sn
        else:
            ctx = mp.get_context('fork')
            global _ACTIVE
            _ACTIVE = self
            with cf.ProcessPoolExecutor(args.jobs, mp_context=ctx) as ex:
                futs = [ex.submit(_task, name, idx, seed, tier, deadline)
                    for name, idx in tasks]
                for (name, idx), f in zip(tasks, futs):
                    try:
                        r, sn = f.result(timeout=max(1, deadline + 120 - time.time()))
                        results += r
                        seen |= sn
                    except Exception as exc:
                        lost.append(f'{name}{idx[:1]}: {exc!r}')
                if lost:
                    for p in list(getattr(ex, '_processes', {}).values()):
                        try:
                            p.kill()
                        except Exception:
                            pass
        return self.report(results, seen, lost, tier, seed, t0, args)

    def report(self, results, seen, lost, tier, seed, t0, args):
        known = load_known(self.prop)
        evaluations = sum(r['evaluations'] for r in results)
        keys = set()
        per = {}
        events = {}
        for r in results:
            p = per.setdefault(r['scenario'], dict(cases=0, skipped=0,
                evaluations=0, distinct=set(), samples=[]))
            p['cases'] += 0 if r['skipped'] else 1
            p['skipped'] += 1 if r['skipped'] else 0
            p['evaluations'] += r['evaluations']
            if not r['skipped']:
                for k in r['keys'] or []:
                    keys.add(r['scenario'] + '|' + k)
                    p['distinct'].add(k)
                if len(p['samples']) < 2 and r['params']:
                    p['samples'].append(r['params'])
            for k, v in r['events'].items():
                events[k] = events.get(k, 0) + v
        errors = [r['error'] for r in results if r['error']] + lost
        # violations by mechanism
        kinds = {}
        for r in results:
            for v in r['found']:
                kinds.setdefault(v['kind'], []).append((r, v))
        status = 0
        nviol = 0
        replays = VERIF / 'replays'
        for kind, lst in kinds.items():
            r, v = lst[0]
            if kind in known:
                print(f'KNOWN-FINDING: property={self.prop} [{kind}] '
                    f'{known[kind]} (seen in {len(lst)} observations)')
                continue
            nviol += len(lst)
            replays.mkdir(exist_ok=True)
            h = hashlib.sha1(f'{kind}{seed}{tier}'.encode()).hexdigest()[:8]
            path = replays / f'{self.prop}-{h}.json'
            path.write_text(json.dumps(dict(property=self.prop, seed=seed,
                tier=tier, scenario=r['scenario'], case=r['index'], kind=kind,
                message=v['message'], detail=v['detail'], params=r['params'],
                observations=len(lst)), indent=1, default=str))
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f'  [{kind}] scenario {r["scenario"]} case {r["index"]}: '
                f'{v["message"]} ({len(lst)} observations)')
            status = 1
        # a listed finding that the workload reached but did not see is fine
        # (it may need a specific draw), but say so in the evidence
        unseen = [k for k in known if k not in kinds]
        if status == 0:
            if errors:
                print('INCONCLUSIVE harness:', errors[0][-1200:])
                status = 2
            elif not args.scenario:
                for name, s in self.scenarios.items():
                    done = per.get(name, dict(cases=0))['cases']
                    if done < min(s['floor'], s[tier]):
                        print(f'INCONCLUSIVE scenario {name} completed {done} '
                            f'cases (needs {s["floor"]})')
                        status = 2
        samples = []
        for name, p in per.items():
            for s in p['samples'][:1]:
                samples.append({'scenario': name, **(s if isinstance(s, dict) else {'case': s})})
        evidence = dict(property=self.prop, tier=tier, seed=seed,
            level=self.level,
            coverage=dict(
                evaluations=int(evaluations),
                distinct_nontrivial=len(keys),
                rule=self.rule,
                samples=samples[:20],
                scenarios={k: dict(cases=p['cases'], outside_domain=p['skipped'],
                    oracle_evaluations=p['evaluations'],
                    distinct_nontrivial=len(p['distinct']))
                    for k, p in per.items()},
                monitor_events=events,
                repo_functions_executed=len(seen),
                repo_functions=sorted(seen)[:400],
                known_findings_seen=sorted(k for k in known if k in kinds),
                known_findings_not_seen=unseen),
            assumptions=self.assumptions,
            wall_s=round(time.time()-t0, 3),
            violations=int(nviol))
        if not args.scenario:
            d = VERIF / 'evidence'
            d.mkdir(exist_ok=True)
            (d / f'{self.prop}.json').write_text(json.dumps(evidence, indent=1, default=str))
        print(f'{self.prop} {tier} seed={seed}: {len(results)} cases, '
            f'{evaluations} oracle evaluations, {len(keys)} distinct '
            f'non-trivial, {len(seen)} pyTMD functions executed, '
            f'{time.time()-t0:.1f} s, exit {status}')
        if args.verbose:
            for k, p in per.items():
                print('   ', k, p['cases'], p['skipped'], p['evaluations'], len(p['distinct']))
        return status

    def replay(self, path):
        rec = json.loads(pathlib.Path(path).read_text())
        r = self._run_case(rec['scenario'], rec['case'], rec['seed'], rec['tier'])
        known = load_known(self.prop)
        hit = [v for v in r['found'] if v['kind'] not in known]
        print(json.dumps(r, indent=1, default=repr)[:6000])
        if r['error']:
            return 2
        if hit:
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        return 0


_ACTIVE = None


def _task(name, idx, seed, tier, deadline):
    return _ACTIVE._run_chunk(name, idx, seed, tier, deadline)


class Reach:
    """which functions of /repo ran (sys.monitoring, one event per code object)"""
    TOOL = 4

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = getattr(sys, 'monitoring', None)
        self.on = False
        if m is None:
            return self
        try:
            m.use_tool_id(self.TOOL, 'vmon')
        except ValueError:
            return self
        self.on = True
        root = str(REPO) + '/'
        seen = self.seen

        def start(code, offset):
            f = code.co_filename
            if f.startswith(root) and not code.co_name.startswith('<'):
                seen.add(f[len(root):-3].replace('/', '.') + ':' + code.co_qualname)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *exc):
        if self.on:
            m = sys.monitoring
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)
        return False


def load_known(prop):
    """known findings of one property: {kind: description}

    lines of known-findings.txt:
        finding: property=<id> kind=<kind> <what fails>
        fixed: property=<id> <commit> <what failed>     (suppresses nothing)
    """
    out = {}
    path = VERIF / 'known-findings.txt'
    if not path.exists():
        return out
    for line in path.read_text().splitlines():
        if not line.startswith('finding:'):
            continue
        parts = line.split(None, 3)
        if len(parts) < 4:
            continue
        if parts[1] == f'property={prop}' and parts[2].startswith('kind='):
            out[parts[2][5:]] = parts[3]
    return out
