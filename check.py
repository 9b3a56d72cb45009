#!/usr/bin/env python3
"""usage: check.py <property id> [--thorough] [--replay FILE]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def reexec():
    env = dict(os.environ)
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONUTF8': '1', 'H800MON': '1'}
    if env.get('H800MON') != '1':
        env.update(want)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:], env)


MODULES = {
    'C01': 'm_bitfield', 'C02': 'm_bitfield', 'C03': 'm_bitfield',
    'C04': 'm_bitfield', 'C05': 'm_bitfield',
    'C06': 'm_storage', 'C07': 'm_storage', 'C08': 'm_storage', 'C24': 'm_storage',
    'C09': 'm_instr', 'C10': 'm_instr', 'C11': 'm_instr', 'C22': 'm_instr',
    'C12': 'm_cards', 'C13': 'm_cards', 'C14': 'm_cards',
    'C15': 'm_symbols', 'C16': 'm_symbols', 'C17': 'm_symbols',
    'C18': 'm_tools', 'C19': 'm_tools', 'C20': 'm_tools', 'C21': 'm_tools',
    'C23': 'm_purity',
    'C25': 'm_meta', 'C26': 'm_meta', 'C27': 'm_meta', 'C28': 'm_meta',
}

if __name__ == '__main__':
    if len(sys.argv) < 2 or sys.argv[1] not in MODULES:
        sys.exit(__doc__)
    reexec()
    sys.path.insert(0, HERE)
    sys.path.insert(0, '/repo')
    from vlib import core
    try:
        mod = importlib.import_module('vlib.' + MODULES[sys.argv[1]])
    except BaseException as e:
        core.import_failed(sys.argv[1], e)
        raise
    chk = getattr(mod, sys.argv[1])()
    sys.exit(core.main(chk, sys.argv[2:]))
