import importlib

RULES = {
    'C01': 'serial', 'C02': 'serial', 'C03': 'serial',
    'C04': 'effects', 'C05': 'effects', 'C06': 'fresh', 'C07': 'depends',
    'C08': 'protocol', 'C09': 'protocol',
    'C12': 'equality', 'C13': 'spaces', 'C14': 'separate', 'C15': 'exists', 'C16': 'stale',
    'C10': 'determ', 'C11': 'files',
}


def load(pid):
    m = importlib.import_module('jptsa.rules.' + RULES[pid])
    return getattr(m, 'rule_' + pid)
