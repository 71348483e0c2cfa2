"""D01: names and keywords of earlier versions"""
import calendar
import datetime
import importlib
import json
import warnings
import numpy as np
import pyTMD
import pyTMD.compute
import timescale.eop
import timescale.time
from vmon.core import Check, Skip
from vmon import calls, synth, computing
from checks import c02_corrections as C02

check = Check('D01', 'Deprecated names and keywords give what their replacements give',
    'a case counts when an old name or keyword was used beside the new one and both results compared; key = name, options',
    ['the replacements, the calendar of the standard library'])


def warned(case, kind, fn, *args, **kw):
    """(outcome, whether a DeprecationWarning was given)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = calls.run(fn, args, kw)
    return out, any(issubclass(i.category, DeprecationWarning) and 'eprecated' in str(i.message) for i in w)


def pair(case, name, old, new, args, kw=None, newkw=None, quiet=False):
    kw = {} if kw is None else kw
    given = calls.plain((args, kw))
    got, told = warned(case, name, old, *args, **kw)
    want = calls.run(new, args, kw if newkw is None else newkw)
    ok = calls.same(got, want)
    case.expect(ok, 'differs:'+name, '' if ok else f'{str(got)[:200]} instead of {str(want)[:200]}')
    case.expect(calls.same(given, calls.plain((args, kw))), 'inputs:'+name)
    if not quiet:
        case.expect(told, 'silent:'+name, f'{name} gave no warning')
    case.event('values' if got[0] == 'value' else 'exceptions')
    return got


UNITS = {'microseconds': 1e-6, 'milliseconds': 1e-3, 'seconds': 1.0, 'minutes': 60.0, 'hours': 3600.0, 'days': 86400.0}


@check.scenario(quick=400, thorough=12000, floor=300)
def times(case):
    """pyTMD.time"""
    r = case.rng
    T, N = importlib.import_module('pyTMD.time'), timescale.time
    k = case.index % 10
    n = int(r.integers(1, 7))
    d0 = datetime.datetime(int(r.integers(1900, 2060)), int(r.integers(1, 13)), int(r.integers(1, 29)), int(r.integers(24)), int(r.integers(60)), int(r.integers(60)))
    e = (int(r.integers(1958, 2030)), int(r.integers(1, 13)), int(r.integers(1, 29)), int(r.integers(24)), int(r.integers(60)), int(r.integers(60)))
    E = datetime.datetime(*e)
    stamp = (E.strftime('%Y-%m-%d') + (E.strftime(' %H:%M:%S') if r.random() < 0.8 else ' 00:00:00'))
    value = lambda out: out[1] if out[0] == 'value' else None
    if k == 0:
        zone = ['', 'Z', '+02:00', '-07:30'][int(r.integers(4))]
        s = d0.strftime('%Y-%m-%dT%H:%M:%S') + zone
        got = pair(case, 'time.parse', T.parse, N.parse, (s,))
        # stand-ins for classes without public attributes
        a = T.parse(s)
        off = {'': 0, 'Z': 0, '+02:00': 120, '-07:30': -450}[zone]
        case.expect(a == d0 - datetime.timedelta(minutes=off), 'value:time.parse', f'{a} for {s}')
    elif k == 1:
        u = str(r.choice(list(UNITS)))
        got = pair(case, 'time.parse_date_string', T.parse_date_string, N.parse_date_string, (f'{u} since {stamp}',))
        a = T.parse_date_string(f'{u} since {stamp}')
        t = datetime.datetime.strptime(stamp, '%Y-%m-%d %H:%M:%S')
        case.expect(list(a[0]) == [t.year, t.month, t.day, t.hour, t.minute, t.second] and a[1] == UNITS[u], 'value:time.parse_date_string', f'{a}')
    elif k == 2:
        u = str(r.choice(list(UNITS)))
        pair(case, 'time.split_date_string', T.split_date_string, N.split_date_string, (f'{u} since {stamp}',))
    elif k == 3:
        pair(case, 'time.datetime_to_list', T.datetime_to_list, N.datetime_to_list, (d0,))
        case.expect(list(T.datetime_to_list(d0)) == [d0.year, d0.month, d0.day, d0.hour, d0.minute, d0.second], 'value:time.datetime_to_list')
    elif k == 4:
        y = int(r.choice([1900, 2000, 2100, 2023, 2024, int(r.integers(1600, 2500))]))
        pair(case, 'time.calendar_days', T.calendar_days, N.calendar_days, (y,))
        case.expect(list(T.calendar_days(y)) == [calendar.monthrange(y, m)[1] for m in range(1, 13)], 'value:time.calendar_days', f'{y}')
    elif k == 5:
        d = np.datetime64(d0) + r.integers(-10**8, 10**8, n).astype('timedelta64[s]')
        kw = {} if r.random() < 0.3 else dict(epoch=e if r.random() < 0.7 else E.strftime('%Y-%m-%dT%H:%M:%S'))
        pair(case, 'time.convert_datetime', T.convert_datetime, N.convert_datetime, (d,), kw)
        got = T.convert_datetime(d, **kw)
        case.close(got, (d - np.datetime64(E if kw else datetime.datetime(1970, 1, 1))).astype('timedelta64[s]').astype(float), 'value:time.convert_datetime', rtol=1e-12, atol=1e-6)
    elif k == 6:
        t = r.uniform(0, 1e9, n)
        scale = float(r.choice([1.0, 1/60., 1/86400.]))
        e2 = (int(r.integers(1958, 2030)), 1, 1, 0, 0, 0)
        pair(case, 'time.convert_delta_time', T.convert_delta_time, N.convert_delta_time, (t,), dict(epoch1=e, epoch2=e2, scale=scale))
        got = T.convert_delta_time(t, epoch1=e, epoch2=e2, scale=scale)
        case.close(got, scale*(t + (E - datetime.datetime(*e2)).total_seconds()), 'value:time.convert_delta_time', rtol=1e-11, atol=1e-4*scale)
    elif k == 7:
        y, m, d, h = r.integers(1900, 2060, n), r.integers(1, 13, n), r.integers(1, 29, n), r.uniform(0, 24, n)
        scale = float(r.choice([1.0, 24.0, 86400.0]))
        y, m, d = (v.astype(float) for v in (y, m, d))
        pair(case, 'time.convert_calendar_dates', T.convert_calendar_dates, N.convert_calendar_dates, (y, m, d), dict(hour=h, epoch=e, scale=scale))
        got = T.convert_calendar_dates(y, m, d, hour=h, epoch=e, scale=scale)
        want = [((datetime.datetime(int(a), int(b), int(c)) - E).total_seconds()/86400.0 + i/24.0)*scale for a, b, c, i in zip(y, m, d, h)]
        case.close(got, np.array(want), 'value:time.convert_calendar_dates', rtol=0, atol=2e-8*scale)
    elif k == 8:
        y, m, d, h = r.integers(1900, 2060, n), r.integers(1, 13, n), r.integers(1, 29, n), r.uniform(0, 24, n)
        pair(case, 'time.convert_calendar_decimal', T.convert_calendar_decimal, N.convert_calendar_decimal, (y, m), dict(day=d, hour=h))
        got = T.convert_calendar_decimal(y, m, day=d, hour=h)
        want = [a + ((datetime.date(a, b, c) - datetime.date(a, 1, 1)).days + i/24.0)/(366 if calendar.isleap(a) else 365) for a, b, c, i in zip(y.tolist(), m.tolist(), d.tolist(), h)]
        case.close(got, np.array(want), 'value:time.convert_calendar_decimal', rtol=0, atol=1e-9)
    else:
        jd = r.uniform(2415021, 2480000, n)
        fmt = str(r.choice(['dict', 'tuple', 'zip']))
        kw = dict(format=fmt)
        if r.random() < 0.4:
            kw['astype'] = float
        pair(case, 'time.convert_julian', T.convert_julian, N.convert_julian, (jd,), kw)
        c = T.convert_julian(jd, format='dict')
        day = [datetime.datetime(1858, 11, 17) + datetime.timedelta(days=float(j - 2400000.5)) for j in jd]
        got = [datetime.datetime(int(c['year'][i]), int(c['month'][i]), int(c['day'][i])) + datetime.timedelta(hours=float(c['hour'][i]), minutes=float(c['minute'][i]), seconds=float(c['second'][i])) for i in range(n)]
        case.expect(max(abs((a - b).total_seconds()) for a, b in zip(got, day)) < 1e-2, 'value:time.convert_julian', f'{got} {day}')
    case.nontrivial(k, n)


@check.scenario(quick=120, thorough=3000, floor=90)
def scales(case):
    """the class pyTMD.time.timescale and pyTMD.eop"""
    r = case.rng
    T, E = importlib.import_module('pyTMD.time'), importlib.import_module('pyTMD.eop')
    n = int(r.integers(1, 7))
    k = case.index % 6
    if k < 2:
        d, tk, days = computing.times(r, n, standards=('UTC', 'GPS', 'TAI', 'datetime'))
        if tk['TIME'] == 'datetime':
            a, b = T.timescale().from_datetime(d), timescale.time.Timescale().from_datetime(d)
        else:
            a, b = (c().from_deltatime(d, epoch=tuple(tk.get('EPOCH', (2000, 1, 1, 0, 0, 0))), standard=tk['TIME'].upper()) for c in (T.timescale, timescale.time.Timescale))
        for p in ('MJD', 'tide', 'tt_ut1', 'year', 'T', 'B', 'nyears', 'sidereal', 'gmst', 'era', 'ut1', 'tt'):
            if hasattr(b, p):
                ok = calls.same(calls.plain(getattr(a, p, None)), calls.plain(getattr(b, p)))
                case.expect(ok, 'differs:time.timescale', f'{p}: {getattr(a, p, None)} {getattr(b, p)}')
        case.close(a.tide, days, 'value:time.timescale', rtol=0, atol=1e-8)
    elif k == 2:
        y = r.uniform(1976, 2015, n)
        kw = dict(convention=str(r.choice(['2003', '2010', '2015', '2018'])))
        pair(case, 'eop.iers_mean_pole', E.iers_mean_pole, timescale.eop.iers_mean_pole, (y,), kw)
    elif k == 3:
        pair(case, 'eop.iers_polar_motion', E.iers_polar_motion, timescale.eop.iers_polar_motion, (r.uniform(48700, 58000, n),), dict(k=int(r.integers(1, 5)), s=0))
    elif k == 4:
        if case.index % 12 == 4:
            pair(case, 'eop.iers_daily_EOP', E.iers_daily_EOP, timescale.eop.iers_daily_EOP, ())
        # those that need servers: the call is handed on as it was made
        for name in ('update_mean_pole', 'calculate_mean_pole', 'pull_pole_coordinates', 'update_finals_file'):
            seen = []
            held = getattr(timescale.eop, name)
            setattr(timescale.eop, name, lambda *a, **kw: seen.append((a, kw)))
            try:
                a = ('eopc01.1900-now.dat',) if name == 'pull_pole_coordinates' else ()
                kw = dict(verbose=bool(r.random() < 0.5))
                if name != 'pull_pole_coordinates':
                    kw['mode'] = int(r.choice([0o775, 0o640]))
                out, told = warned(case, name, getattr(E, name), *a, **kw)
            finally:
                setattr(timescale.eop, name, held)
            case.expect(out[0] == 'value' and seen == [(a, kw)], 'differs:eop.'+name, f'{out} {seen}')
            case.expect(told, 'silent:eop.'+name)
    else:
        for name in ('_mean_pole_file', '_finals_file'):
            if hasattr(E, name) and hasattr(timescale.eop, name):
                case.expect(str(getattr(E, name)) == str(getattr(timescale.eop, name)), 'differs:eop.'+name)
        y = r.uniform(1976, 2015, n)
        x, y2, f = E.iers_mean_pole(y)
        # secular pole in milliarcseconds
        case.close(x, (55.0 + 1.677*(y - 2000))/1000.0, 'value:eop.iers_mean_pole', rtol=1e-9)
        case.close(y2, (320.5 + 3.460*(y - 2000))/1000.0, 'value:eop.iers_mean_pole', rtol=1e-9)
    case.nontrivial(k, n)


@check.scenario(quick=90, thorough=2000, floor=60)
def functions(case):
    """functions that were renamed"""
    r = case.rng
    k = case.index % 9
    C = importlib.import_module('pyTMD.compute_tide_corrections')
    N = pyTMD.compute
    if k == 0:
        import pyTMD.astro as A
        t = calls.mjd(r)
        got, told = warned(case, 'phase_angles', A.phase_angles, t)
        TAU, S, H, P, ZNS, PS = A.doodson_arguments(t)
        want = ('value', calls.plain((S, H, P, TAU, ZNS, PS)))
        case.expect(calls.same(got, want), 'differs:astro.phase_angles', f'{str(got)[:200]} {str(want)[:200]}')
        case.expect(told, 'silent:astro.phase_angles')
    elif k == 1:
        import pyTMD.spatial as S
        fn, args, kw = calls.draw('scale_factors', int(r.integers(1 << 30)), case.tmp)
        pair(case, 'spatial.scale_areas', S.scale_areas, S.scale_factors, args, kw)
    elif k == 2:
        p, lon, lat, d, tk = calls.computed(r, case.tmp, str(r.choice(['OTIS', 'GOT', 'FES', 'ATLAS'])))
        kw = dict(DEFINITION_FILE=p, EPSG=4326, METHOD=str(r.choice(['spline', 'linear', 'nearest'])))
        pair(case, 'check_points', pyTMD.check_points, N.tide_masks, (lon, lat), kw)
    elif k in (3, 4):
        t = ['z', 'z'][k-3]
        p, lon, lat, d, tk = calls.computed(r, case.tmp, str(r.choice(['OTIS', 'GOT', 'FES', 'ATLAS'])))
        kw = dict(DEFINITION_FILE=p, EPSG=4326, TYPE='drift', METHOD=str(r.choice(['spline', 'linear', 'nearest'])), INFER_MINOR=bool(r.random() < 0.2), **tk)
        if k == 3:
            pair(case, 'compute_tide_corrections', pyTMD.compute_tide_corrections, N.tide_elevations, (lon, lat, d), kw, quiet=True)
        else:
            w = str(r.choice(['ocean', 'load', 'Ocean', 'LOAD']))
            pair(case, 'compute_corrections:ocean', pyTMD.compute_corrections, N.tide_elevations, (lon, lat, d), dict(kw, CORRECTION=w) , newkw=kw)
    elif k in (5, 6, 7):
        name, upper = [('LPET', 'LPET_elevations'), ('LPT', 'LPT_displacements'), ('SET', 'SET_displacements')][k-5]
        x, y, d, kw = calls.placed(r)
        if r.random() < 0.5:
            pair(case, f'compute_{name}_corrections', getattr(pyTMD, f'compute_{name}_corrections'), getattr(N, upper), (x, y, d), kw, quiet=True)
        else:
            pair(case, f'compute_corrections:{name}', pyTMD.compute_corrections, getattr(N, upper), (x, y, d), dict(kw, CORRECTION=str(r.choice([name, name.lower()]))), newkw=kw)
    elif case.index % 27 in (8, 17):
        import pyTMD.io.IERS as I
        path, _ = C02.pole_map(r)
        real = getattr(I, '_ocean_pole_tide_file', None)
        if real is None:
            raise Skip('the path to the map cannot be replaced')
        I._ocean_pole_tide_file = path
        try:
            x, y, d, kw = calls.placed(r)
            if case.index % 27 == 17:
                pair(case, 'io.IERS.ocean_pole_tide', I.ocean_pole_tide, I.read_binary_file, (), dict(input_file=path), newkw=dict(model_file=path))
            elif r.random() < 0.5:
                pair(case, 'compute_OPT_corrections', pyTMD.compute_OPT_corrections, N.OPT_displacements, (x, y, d), kw, quiet=True)
            else:
                pair(case, 'compute_corrections:OPT', pyTMD.compute_corrections, N.OPT_displacements, (x, y, d), dict(kw, CORRECTION='OPT'), newkw=kw)
        finally:
            I._ocean_pole_tide_file = real
    else:
        x, y, d, kw = calls.placed(r)
        case.raises(ValueError, 'unknown:compute_corrections', lambda: pyTMD.compute_corrections(x, y, d, CORRECTION='tides', **kw))
    case.nontrivial(k, case.index % 27 if k == 8 else 0)


OLD = dict(type='TYPE', method='METHOD', extrapolate='EXTRAPOLATE', cutoff='CUTOFF', compressed='GZIP', scale='SCALE', version='VERSION', grid='GRID')
HAVE = dict(OTIS=('type', 'method', 'extrapolate', 'cutoff', 'grid'), ATLAS=('type', 'method', 'extrapolate', 'cutoff', 'compressed', 'scale'),
    GOT=('method', 'extrapolate', 'cutoff', 'compressed', 'scale'), FES=('type', 'version', 'method', 'extrapolate', 'cutoff', 'compressed', 'scale'))


@check.scenario(quick=240, thorough=6000, floor=160)
def keywords(case):
    """uppercase keywords of the functions that read models"""
    r = case.rng
    name = ['OTIS', 'ATLAS', 'GOT', 'FES'][case.index % 4]
    m = synth.FORMATS[name](r, case.tmp)
    n = int(r.integers(2, 12))
    px, py = synth.points(r, m.grid, n)
    lon, lat = (np.array(v, float) for v in m.grid.lonlat(px, py))
    t = str(r.choice(m.types))
    kw = dict(type=t, method=str(r.choice(['spline', 'linear', 'nearest', 'bilinear'])))
    if r.random() < 0.6:
        kw.update(extrapolate=True, cutoff=float(r.choice([0.5, 10, 100, 500, np.inf])))
    module = importlib.import_module('pyTMD.io.'+name)
    if name == 'OTIS':
        args, fixed = (m.grid_file, m.file(t), m.grid.crs), dict(grid=m.gridkey)
    elif name == 'ATLAS':
        args, fixed = (m.grid_file, m.file(t)), dict(compressed=m.compressed, scale=m.scale)
    elif name == 'GOT':
        args, fixed = (list(m.files),), dict(grid=m.gridkey, compressed=m.compressed, scale=m.scale)
    else:
        args, fixed = (list(m.files[t]),), dict(version=m.version, compressed=m.compressed, scale=m.scale)
    new = dict(kw, **fixed)
    have = [k for k in new if k in HAVE[name]]
    some = [k for k in have if r.random() < 0.6] or have[:1]
    old = {(OLD[k] if k in some else k): v for k, v in new.items()}
    case.note(format=name, keywords=sorted(old), grid=m.grid.kind)
    fn = module.extract_constants
    got = pair(case, 'keywords:'+name, fn, fn, (lon, lat, *args), old, newkw=new, quiet=name == 'OTIS')
    case.expect(got[0] == 'value', 'exception:'+name, f'{got[1:]}')
    # and the value of a new keyword counts
    case.nontrivial(name, *sorted(some))
