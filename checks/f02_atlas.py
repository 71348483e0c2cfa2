"""F02: constants extracted from ATLAS model files are the stored ones"""
from vmon.core import Check
from vmon import synth, readers

check = Check('F02', 'ATLAS model files are read as stored',
    'a case counts when constants extracted from a model on disk were compared with its truth; '
    'key = format, grid, type, method')


@check.scenario(quick=130, thorough=2000, floor=80)
def truth(case):
    readers.truth_case(case, synth.FORMATS['ATLAS'])
