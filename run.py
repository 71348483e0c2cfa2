#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]: run one check (see DESIGN.md)"""
import importlib
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
PY = '/opt/venv/bin/python'
# run under the interpreter that has the dependencies of pyTMD, with a fixed
# hash seed and nothing written next to the sources
if os.environ.get('VMON_CHILD') != '1':
    env = dict(os.environ, VMON_CHILD='1', PYTHONHASHSEED='0',
        PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', str(HERE / 'run.py'), *sys.argv[1:]], env)

sys.path.insert(0, str(HERE))
if len(sys.argv) < 2:
    print(__doc__)
    sys.exit(2)
prop = sys.argv[1]
if prop == '--setup':
    # nothing to compile: confirm that the interpreter, the dependencies and
    # the working tree can be imported
    import vmon.core  # noqa: F401
    import pyTMD
    print('driving', pathlib.Path(pyTMD.__file__).parent, 'with', sys.version.split()[0])
    sys.exit(0)
try:
    mods = [p.stem for p in (HERE / 'checks').glob(f'{prop.lower()}_*.py')]
    if len(mods) != 1:
        print(f'no check for {prop}')
        sys.exit(2)
    module = importlib.import_module(f'checks.{mods[0]}')
except SystemExit:
    raise
except BaseException as exc:
    import traceback
    text = traceback.format_exc()
    print(text[-3000:])
    # importing pyTMD itself is what every property needs
    if isinstance(exc, (SyntaxError,)) or '/repo/' in text.split('File')[-1]:
        rp = HERE / 'replays'
        rp.mkdir(exist_ok=True)
        f = rp / f'{prop}-import.json'
        f.write_text('{"import": "failed"}')
        print(f'VIOLATION property={prop} replay={f}')
        sys.exit(1)
    sys.exit(2)
sys.exit(module.check.main(sys.argv[2:]))
