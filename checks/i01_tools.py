"""I01: widgets and interactive maps of the notebooks"""
import datetime
import json
import pathlib
import numpy as np
import pyproj
import pyTMD
import pyTMD.tools
from vmon.core import Check, Skip

check = Check('I01', 'Interactive maps and widgets state the place and the model that were chosen',
    'a case counts when a map or set of widgets was made and used; key = projection, controls, operations done',
    ['ipywidgets and ipyleaflet pass changes of their traits to observers without a browser'])

TABLES = dict(Global='EPSG:3857', North='EPSG:5936', South='EPSG:3031')


def require():
    try:
        import ipywidgets, ipyleaflet
    except ImportError:
        raise Skip('no widgets here')


def wrapped(lon):
    return (lon + 180.0) % 360.0 - 180.0


def apart(a, b):
    """difference of longitudes"""
    return abs(wrapped(float(a) - float(b)))


def drawn(r):
    lat = float(np.round(r.uniform(-90, 90), int(r.integers(0, 9))))
    lon = float(np.round(r.uniform(*[(-180, 180), (0, 360), (-720, 720), (179.9, 180.1)][r.integers(4)]), int(r.integers(0, 9))))
    return lat, lon


@check.scenario(quick=200, thorough=2000, floor=120)
def maps(case):
    """histories of a map: its marker, its text and its cursor"""
    require()
    import ipyleaflet
    r = case.rng
    projection = str(r.choice(list(TABLES) + ['own']))
    kw, state = {}, dict(attribution=True, zoom_control=False, scale_control=False, cursor_control=True, layer_control=True, marker_control=False)
    for k in state:
        if r.random() < 0.6:
            kw[k] = state[k] = bool(r.random() < 0.6)
    if r.random() < 0.4:
        kw['marker_control'] = state['marker_control'] = True
    center = (39, -108)
    if r.random() < 0.7:
        center = drawn(r)
        kw['center'] = center if r.random() < 0.5 else list(center)
    zoom = 1
    if r.random() < 0.5:
        kw['zoom'] = zoom = int(r.integers(0, 9))
    case.note(projection=projection, **kw)
    if projection == 'own':
        given = ipyleaflet.Map(center=(12.0, 34.0), zoom=2)
        kw.update(map=given)
        ok, m = case.quietly('map', pyTMD.tools.leaflet, projection=None, **kw)
    elif projection == 'Global' and r.random() < 0.5:
        ok, m = case.quietly('map', pyTMD.tools.leaflet, **kw)
    else:
        ok, m = case.quietly('map', pyTMD.tools.leaflet, projection, **kw)
    if not ok:
        return
    if projection == 'own':
        case.expect(m.map is given, 'map:given', 'the given map is not used')
        case.expect(m.crs == given.crs['name'], 'map:crs', f'{m.crs}')
    else:
        case.expect(m.crs == TABLES[projection], 'map:crs', f'{m.crs} for {projection}')
        case.expect(m.map.crs['name'].replace(':', '') == TABLES[projection].replace(':', ''), 'map:crs', f"{m.map.crs['name']} for {projection}")
        case.expect(tuple(m.map.center) == tuple(center), 'map:center', f'{m.map.center} for {center}')
        case.expect(m.map.zoom == zoom, 'map:zoom', f'{m.map.zoom} for {zoom}')
        case.expect(bool(m.map.attribution_control) == state['attribution'], 'map:attribution')
    # controls asked for, and no others
    kinds = [type(c).__name__ for c in m.map.controls]
    own = [c for c in m.map.controls if isinstance(c, ipyleaflet.WidgetControl)]
    names = [type(c.widget).__name__ for c in own]
    case.expect(kinds.count('LayersControl') == int(state['layer_control']), 'control:layers', f'{kinds}')
    case.expect(kinds.count('ScaleControl') == int(state['scale_control']), 'control:scale', f'{kinds}')
    case.expect(names.count('IntSlider') == int(state['zoom_control']), 'control:zoom', f'{names}')
    case.expect(names.count('Label') == int(state['cursor_control']), 'control:cursor', f'{names}')
    case.expect(names.count('Text') == int(state['marker_control']), 'control:marker', f'{names}')
    markers = [l for l in m.map.layers if isinstance(l, ipyleaflet.Marker)]
    case.expect(len(markers) == int(state['marker_control']), 'control:marker', f'{len(markers)} markers')
    place = tuple(center)
    ops = []
    for _ in range(int(r.integers(2, 9))):
        op = str(r.choice(['move', 'type', 'mouse', 'click', 'zoom', 'center']))
        if op in ('move', 'type') and not state['marker_control']:
            continue
        if op in ('mouse', 'click') and not state['cursor_control']:
            continue
        ops.append(op)
        lat, lon = drawn(r)
        zoomed = False
        if op == 'move':
            m.marker.location = (lat, lon)
            place = (lat, lon)
        elif op == 'type':
            form = ['{:f},{:f}', '{:.9f}, {:.9f}', ' {!r},{!r} ', '{:.8e} , {:.8e}'][r.integers(4)]
            text = form.format(lat, lon)
            place = tuple(float(v) for v in text.split(','))
            m.marker_text.value = text
        elif op == 'mouse':
            m.handle_interaction(type='mousemove', coordinates=[lat, lon])
            got = m.cursor.value.replace('\u00b0', '').replace(',', ' ').split()
            ok = len(got) == 4 and got[0] == 'Latitude:' and got[2] == 'Longitude:'
            case.expect(ok, 'cursor:text', m.cursor.value)
            if ok:
                case.expect(abs(float(got[1]) - lat) <= 5.1e-5 and apart(got[3], lon) <= 5.1e-5 and abs(float(got[3])) <= 180.0, 'cursor:place', f'{got} for {lat} {lon}')
        elif op == 'click':
            was = m.cursor.value
            m.handle_interaction(type='click', coordinates=[lat, lon])
            case.expect(m.cursor.value == was, 'cursor:click', 'a click moved the cursor')
        elif op == 'zoom':
            was = m.map.zoom
            m.map.zoom = int(r.integers(0, 9))
            zoomed = m.map.zoom != was
        elif op == 'center':
            m.map.center = (lat, lon)
        if state['marker_control']:
            # marker and text state the same place, in the longitudes of maps
            a, b = m.marker.location
            case.expect(abs(a - place[0]) <= 1e-8 and apart(b, place[1]) <= 1e-8, 'marker:place', f'{m.marker.location} for {place} after {ops}')
            ok, got = case.quietly('marker:text', lambda: [float(v) for v in m.marker_text.value.split(',')])
            if ok and ops and set(ops) & {'move', 'type'}:
                case.expect(len(got) == 2 and abs(got[0] - place[0]) <= 1e-8 and apart(got[1], place[1]) <= 1e-8, 'marker:text', f'{m.marker_text.value} for {place} after {ops}')
                if ops[-1] == 'move' or (ops[-1] == 'type' and abs(place[1]) <= 179.9):
                    case.expect(abs(got[1]) <= 180.0, 'marker:wrap', f'{m.marker_text.value} after {ops}')
            if zoomed:
                case.expect(abs(m.map.center[0] - place[0]) <= 1e-8 and apart(m.map.center[1], place[1]) <= 1e-8, 'marker:center', f'{m.map.center} for {place} after {ops}')
        if case.found:
            return
    case.event('operations', len(ops))
    case.nontrivial('maps', projection, tuple(sorted(k for k, v in state.items() if v)), tuple(sorted(set(ops))))


@check.scenario(quick=60, thorough=600, floor=40)
def projections(case):
    """coordinates of the polar maps are those of the projections they are named after"""
    require()
    r = case.rng
    name = str(r.choice(sorted(pyTMD.tools.projections)))
    table = pyTMD.tools.projections[name]['Basemap']
    code = int(name[4:])
    case.note(name=name)
    case.expect(table['name'] == f'EPSG:{code}', 'table:name', table['name'])
    res = np.array(table['resolutions'])
    case.close(res[:-1]/res[1:], np.full(len(res) - 1, 2.0), 'table:resolutions', rtol=1e-6, atol=0)
    m = pyTMD.tools.leaflet('North' if code == 5936 else 'South', layer_control=False, cursor_control=False)
    n = int(r.integers(1, 20))
    lat = r.uniform(50, 89, n)*(1 if code == 5936 else -1)
    lon = r.uniform(-180, 180, n)
    x, y = pyproj.Transformer.from_crs(4326, code, always_xy=True).transform(lon, lat)
    x0, y0 = np.copy(x), np.copy(y)
    ok, got = case.quietly('transform', m.transform, x, y, table['proj4def'])
    if not ok:
        return
    case.close(got[1], lat, 'transform:lat', rtol=0, atol=1e-7)
    case.close(wrapped(np.asarray(got[0]) - lon), np.zeros(n), 'transform:lon', rtol=0, atol=1e-6)
    case.expect(np.array_equal(x, x0) and np.array_equal(y, y0), 'transform:inputs')
    # of any other definition, points and numbers alike
    other = [3031, 3413, 32633, 4326][r.integers(4)]
    if other == 32633:
        lon, lat = r.uniform(10, 20, n), r.uniform(0, 80, n)
    elif other == 3031:
        lat = -np.abs(lat)
    else:
        lat = np.abs(lat)
    x, y = pyproj.Transformer.from_crs(4326, other, always_xy=True).transform(lon, lat)
    ok, got = case.quietly('transform', m.transform, float(x[0]), float(y[0]), f'EPSG:{other}')
    if ok:
        case.close(got[1], lat[0], 'transform:lat', rtol=0, atol=1e-7)
        case.close(wrapped(got[0] - lon[0]), 0.0, 'transform:lon', rtol=0, atol=1e-6)
    # longitudes
    v = r.uniform(-900, 900, n)
    case.close(wrapped(m.wrap_longitudes(v) - v), np.zeros(n), 'wrap:angle', rtol=0, atol=1e-9)
    case.expect(bool(np.all(np.abs(m.wrap_longitudes(v)) <= 180.0 + 1e-9)), 'wrap:range')
    case.close(m.wrap_longitudes(float(v[0])), m.wrap_longitudes(v)[0], 'wrap:scalar', rtol=0, atol=1e-12)
    case.nontrivial('projections', name, other, n)


@check.scenario(quick=40, thorough=300, floor=25)
def widgets(case):
    """choices of the widgets are those of the database, and lead to the model"""
    require()
    r = case.rng
    style = {} if r.random() < 0.5 else dict(description_width='initial')
    given = dict(style)
    ok, w = case.quietly('widgets', pyTMD.tools.widgets, **(dict(style=given) if style or r.random() < 0.5 else {}))
    if not ok:
        return
    case.note(style=style)
    base = json.loads((pathlib.Path(pyTMD.__file__).parent/'data'/'database.json').read_text(encoding='utf8'))['elevation']
    case.expect(sorted(w.model.options) == sorted(base), 'model:options', f'{set(w.model.options) ^ set(base)}')
    case.expect(list(w.model.options) == sorted(w.model.options), 'model:order')
    case.expect(w.model.value in base, 'model:value', str(w.model.value))
    case.expect(w.constituents.value in w.constituents.options, 'constituents:value')
    for c in w.constituents.options:
        ok, om = case.quietly('constituents:known', pyTMD.arguments.frequency, c)
        if ok:
            case.expect(float(om[0] if np.ndim(om) else om) > 0, 'constituents:known', c)
    case.expect(w.compress.value is False and w.directory.value == '', 'defaults')
    case.expect(abs((w.datepick.value - datetime.date.today()).days) <= 1, 'date', f'{w.datepick.value}')
    if style:
        case.expect(w.model.style.description_width == 'initial' and w.compress.style.description_width == 'initial', 'style')
    case.expect(given == style, 'style:altered')
    # two sets of widgets are their own
    other = pyTMD.tools.widgets()
    was = other.model.value, other.constituents.value, other.directory.value, other.compress.value
    w.model.value = name = str(r.choice(list(w.model.options)))
    w.constituents.value = str(r.choice(list(w.constituents.options)))
    w.directory.value = str(case.tmp)
    w.compress.value = bool(r.random() < 0.5)
    case.expect(was == (other.model.value, other.constituents.value, other.directory.value, other.compress.value), 'shared', 'another set of widgets changed')
    # the choice leads to the model
    ok, m = case.quietly('model:lead', lambda: pyTMD.io.model(w.directory.value, compressed=w.compress.value, verify=False).elevation(w.model.value))
    if ok:
        case.expect(m.name == base[name]['name'] and m.format == base[name]['format'], 'model:lead', name)
    case.nontrivial('widgets', name)
