import importlib

MODULES = {
    'C01': 'params', 'C02': 'params', 'C03': 'params', 'C04': 'params',
    'C05': 'params', 'C06': 'collections_',
    'C07': 'transforms', 'C08': 'transforms', 'C09': 'transforms', 'C10': 'transforms',
    'C11': 'objectives', 'C12': 'objectives', 'C13': 'objectives', 'C14': 'objectives',
    'C15': 'hygiene', 'C16': 'hygiene', 'C33': 'hygiene', 'C34': 'snapshots',
    'C17': 'sensitivity', 'C18': 'sensitivity', 'C20': 'sensitivity',
    'C19': 'terms',
    'C21': 'optimize', 'C22': 'optimize', 'C23': 'optimize', 'C24': 'optimize',
    'C25': 'cg',
    'C26': 'families', 'C27': 'families', 'C28': 'quadrature', 'C29': 'families',
    'C30': 'dists',
    'C31': 'regression', 'C32': 'sparse',
}


def load(pid):
    if pid in MODULES:
        importlib.import_module('props.' + MODULES[pid])
