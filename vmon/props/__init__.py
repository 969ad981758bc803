"""Where each property's drivers live."""
INDEX = {}
for _mod, _ids in {
    'matching': 'C01 C02 C03',
    'traverse': 'C05 C06 C07 C08',
    'structure': 'C09 C10 C11 C12 C13 C49',
    'structures': 'C14 C15 C16 C17 C18 C19 C20 C21',
    'special': 'C04 C22 C23 C24 C25 C26 C27 C28',
    'lang': 'C29 C30',
    'numbers': 'C31 C32 C33 C34 C47',
    'seqs': 'C35 C36 C37 C38 C39 C40',
    'files': 'C41 C42 C43 C46 C48',
    'packing': 'C44 C45',
    'sudoku': 'C50 C51 C52 C53 C54 C55',
    'interplay': 'C56',
}.items():
    for _i in _ids.split():
        INDEX[_i] = _mod

# Multiplies the number of cases of all drivers of a check: quick, thorough.
FACTORS = {
    'C01': (15, 20), 'C02': (35, 46), 'C03': (60, 60),
    'C04': (40, 36), 'C05': (36, 46), 'C06': (51, 60),
    'C07': (22, 29), 'C08': (60, 60), 'C09': (55, 60),
    'C10': (60, 60), 'C11': (53, 60), 'C12': (43, 56),
    'C13': (29, 37), 'C14': (60, 60), 'C15': (60, 60),
    'C16': (43, 56), 'C17': (60, 60), 'C18': (54, 60),
    'C19': (21, 27), 'C20': (60, 60), 'C21': (60, 60),
    'C22': (18, 24), 'C23': (60, 60), 'C24': (60, 60),
    'C25': (19, 25), 'C26': (30, 24), 'C27': (49, 60),
    'C28': (29, 38), 'C29': (3, 3), 'C30': (21, 14),
    'C31': (44, 57), 'C32': (60, 60), 'C33': (60, 60),
    'C34': (60, 34), 'C35': (60, 60), 'C36': (60, 60),
    'C37': (60, 60), 'C38': (11, 8), 'C39': (55, 60),
    'C40': (60, 60), 'C41': (47, 60), 'C42': (44, 57),
    'C43': (35, 46), 'C44': (60, 60), 'C45': (60, 60),
    'C46': (60, 60), 'C47': (16, 20), 'C48': (60, 60),
    'C49': (38, 50), 'C50': (2.8, 3), 'C51': (1.6, 2.1),
    'C52': (2.6, 3), 'C53': (3, 3), 'C54': (1.6, 2.0),
    'C55': (15, 20), 'C56': (2.5, 3),
}
SCALE = {}
for _i, _f in FACTORS.items():
    SCALE[_i, 'quick'], SCALE[_i, 'thorough'] = _f
