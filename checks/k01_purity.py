"""K01: what a call gives depends on its arguments and files alone"""
import atexit
import gc
import logging
import os
import sys
import tempfile
import threading
import numpy as np
import pyTMD
import pyTMD.compute
from vmon.core import Check
from vmon import calls, zygote

check = Check('K01', 'Results depend on the arguments and files of a call alone',
    'a case counts when calls made after, or at the time of, others gave what they give alone in a new process; key = calls, kind of history',
    ['the same code in a process that has made no other call'])
ZYGOTE = {}
ZONES = ['UTC', 'Pacific/Auckland', 'America/Los_Angeles', 'Asia/Kathmandu', 'XYZ-13:45']


def alone(case, name, seed):
    """what a call gives in a process of its own"""
    pid = os.getpid()
    if pid not in ZYGOTE:
        k = int(case.rng.integers(1, 4000))
        ZYGOTE.clear()
        ZYGOTE[pid] = zygote.Zygote(k, ZONES[k % len(ZONES)], tempfile.gettempdir())
        atexit.register(ZYGOTE[pid].p.kill)
    d = case.tmp/'alone'
    d.mkdir(exist_ok=True)
    out = ZYGOTE[pid](name, seed, d)
    if out[0] == 'broken':
        raise RuntimeError(f'{name}: {out[1]}')
    return out


def state():
    """what calls share with the program that makes them"""
    return dict(errors=str(np.geterr()), directory=os.getcwd(), environment=calls.plain(dict(os.environ)),
        random=calls.plain(np.random.get_state(legacy=True)), logging=(logging.root.level, logging.root.manager.disable),
        models=calls.plain(dict(pyTMD.models)), names=calls.plain(pyTMD.__models__), path=list(sys.path), printing=str(np.get_printoptions()))


def explain(a, b):
    return f'{str(a)[:160]} instead of {str(b)[:160]}'


@check.scenario(quick=110, thorough=2500, floor=70)
def history(case):
    """sequences of calls, each compared with the same call alone"""
    r = case.rng
    pool = list(calls.CALLS)
    names = [str(n) for n in r.permutation(pool)[:5]]
    # two or three different calls of each function
    made = [(n, int(s)) for n in names for s in r.integers(0, 1 << 30, int(r.integers(2, 4)))]
    want = {k: alone(case, *k) for k in made}
    order = [made[i] for i in r.integers(0, len(made), int(r.integers(10, 18)))]
    case.note(calls=[f'{n}:{s}' for n, s in order])
    before = state()
    held = {}
    d = case.tmp/'here'
    d.mkdir()
    for k, (name, seed) in enumerate(order):
        again = (name, seed) in held and name not in calls.FILES and not name.startswith(('extract', 'memory', 'elevations', 'currents', 'masks'))
        if again and r.random() < 0.5:
            # with the same objects
            fn, args, kw = held[name, seed]
        else:
            fn, args, kw = held[name, seed] = calls.draw(name, seed, d)
        given = calls.plain((args, kw))
        if r.random() < 0.15 and args:
            # one that fails, or is stopped, in between
            bad = list(args)
            bad[int(r.integers(len(bad)))] = [None, 'nothing', np.zeros((0,)), float('nan')][int(r.integers(4))]
            with np.errstate(all='ignore'):
                try:
                    fn(*bad, **kw)
                except Exception:
                    case.event('failed calls')
                except SystemExit:
                    pass
        got = calls.run(fn, args, kw)
        case.expect(calls.same(got, want[name, seed]), 'history:'+name,
            '' if calls.same(got, want[name, seed]) else f'call {k} of {name}: '+explain(got, want[name, seed]))
        case.expect(calls.same(given, calls.plain((args, kw))), 'inputs:'+name, f'arguments of {name} were changed')
        # results are not tied to what a later call may change
        case.event('calls compared')
    after = state()
    for k in before:
        case.expect(calls.same(before[k], after[k]), 'state:'+k, f'{k} of the program changed: {str(after[k])[:200]}')
    case.nontrivial(*sorted(names))


@check.scenario(quick=24, thorough=500, floor=16)
def results(case):
    """results stay as they were returned when others are made from the same objects, or changed by their owner"""
    r = case.rng
    pool = [n for n in calls.CALLS if n not in calls.FILES]
    for name in r.permutation(pool)[:8]:
        name = str(name)
        s1, s2 = (int(s) for s in r.integers(0, 1 << 30, 2))
        d = case.tmp/'r'
        d.mkdir(exist_ok=True)
        fn, args, kw = calls.draw(name, s1, d)
        try:
            first = fn(*args, **kw)
        except Exception:
            continue
        was = calls.plain(first)
        # the owner changes what was returned
        def spoil(v):
            n = 0
            if isinstance(v, np.ndarray) and v.dtype.kind in 'fciu' and v.flags.writeable:
                v[...] = 77
                n += 1
            elif isinstance(v, dict):
                for i in v.values():
                    n += spoil(i)
                v['spoilt'] = 1
                n += 1
            elif isinstance(v, list):
                for i in v:
                    n += spoil(i)
                v.append('spoilt')
                n += 1
            elif isinstance(v, tuple):
                for i in v:
                    n += spoil(i)
            return n
        n = spoil(first)
        # arguments that are returned as such are made anew
        fn, args, kw = calls.draw(name, s1, d)
        second = calls.run(fn, args, kw)
        case.expect(calls.same(second, ('value', was)), 'spoilt:'+name, '' if calls.same(second, ('value', was)) else explain(second, was))
        case.event('results changed by their owner', n)
        # a second call leaves the result of the first alone
        fn, args, kw = calls.draw(name, s1, d)
        a = fn(*args, **kw)
        was = calls.plain(a)
        fn2, args2, kw2 = calls.draw(name, s2, case.tmp/'r2') if (case.tmp/'r2').mkdir(exist_ok=True) is None else None
        calls.run(fn2, args2, kw2)
        case.expect(calls.same(calls.plain(a), was), 'overwritten:'+name, f'{name} changed what it had returned')
        case.nontrivial(name)


@check.scenario(quick=28, thorough=600, chunk=4, floor=18)
def threads(case):
    """calls made at the same time from several threads"""
    r = case.rng
    pool = [n for n in calls.CALLS if n not in calls.FILES]
    names = [str(n) for n in r.permutation(pool)[:int(r.integers(2, 6))]]
    made = [(n, int(s)) for n in names for s in r.integers(0, 1 << 30, 2)]
    want = {k: alone(case, *k) for k in made}
    ready = {}
    for i, k in enumerate(made):
        d = case.tmp/f't{i}'
        d.mkdir()
        ready[k] = calls.draw(*k, d)
    given = {k: calls.plain(v[1:]) for k, v in ready.items()}
    n = int(r.integers(3, 7))
    plans = [[made[i] for i in r.integers(0, len(made), 8)] for _ in range(n)]
    case.note(calls=names, threads=n)
    gate = threading.Barrier(n)
    got = [[] for _ in range(n)]
    starts, ends = [], []

    def work(i):
        gate.wait()
        for k in plans[i]:
            starts.append((k, i))
            got[i].append(calls.run(*ready[k]))
            ends.append((k, i))
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(r.choice([1e-6, 1e-5, 2e-4])))
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    if not case.expect(not any(t.is_alive() for t in ts), 'threads:stuck'):
        return
    for plan, out in zip(plans, got):
        for k, g in zip(plan, out):
            ok = calls.same(g, want[k])
            case.expect(ok, 'threads:'+k[0], '' if ok else explain(g, want[k]))
            case.event('calls compared')
    case.event('orders of starts', len({tuple(starts)}))
    for k, v in ready.items():
        case.expect(calls.same(given[k], calls.plain(v[1:])), 'inputs:'+k[0], f'arguments of {k[0]} were changed')
    case.nontrivial(*sorted(names), n)


@check.scenario(quick=60, thorough=1500, floor=40)
def failures(case):
    """a call that fails, for want of a variable, a file or an argument, leaves the same call possible straight afterwards"""
    r = case.rng
    gc.collect()
    on = gc.isenabled()
    # nothing is tidied up that the code does not tidy up itself
    gc.disable()
    try:
        name = 'written' if r.random() < 0.3 else str(r.choice(list(calls.CALLS)))
        seed = int(r.integers(0, 1 << 30))
        want = alone(case, name, seed)
        d = case.tmp/'f'
        d.mkdir()
        case.note(call=f'{name}:{seed}')
        fn, args, kw = calls.draw(name, seed, d)
        for n in range(3):
            bad, badkw = list(args), dict(kw)
            which = int(r.integers(len(bad) + len(badkw))) if bad or badkw else None
            if which is None:
                break
            wrong = [None, 'nothing', np.zeros((0,)), {}, float('nan')][int(r.integers(5))]
            if which < len(bad) and isinstance(bad[which], dict) and bad[which] and r.random() < 0.7:
                # one of its entries is missing
                bad[which] = dict(bad[which])
                bad[which].pop(str(r.choice(sorted(map(str, bad[which])))), None)
            elif which < len(bad):
                bad[which] = wrong
            else:
                badkw[sorted(badkw)[which - len(bad)]] = wrong
            with np.errstate(all='ignore'):
                try:
                    fn(*bad, **badkw)
                except (Exception, SystemExit):
                    case.event('failed calls')
            got = calls.run(fn, args, kw)
            case.expect(calls.same(got, want), 'failures:'+name, '' if calls.same(got, want) else explain(got, want))
            case.event('calls compared')
        case.nontrivial(name)
    finally:
        if on:
            gc.enable()
