#!/usr/bin/env python3-vt
"""run.py <property id> [--tier quick|thorough]  |  run.py --replay <file>"""
import os, sys
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(100000)

MODS = {'C01': 'products', 'C02': 'products', 'C03': 'products', 'C04': 'products',
        'C05': 'transforms', 'C06': 'transforms', 'C07': 'transforms', 'C08': 'transforms',
        'C10': 'elementwise', 'C11': 'elementwise', 'C12': 'elementwise', 'C09': 'wrappers', 'C13': 'shuffles', 'C19': 'avxdetect',
        'C15': 'intervals', 'C16': 'intervals', 'C17': 'abstract', 'C18': 'sorting', 'C20': 'confine', 'C14': 'generators', 'C21': 'bitrevgen', 'C22': 'benchprog', 'C23': 'domain', 'C24': 'intervals'}


def main():
    args = sys.argv[1:]
    if '--tier' in args:
        i = args.index('--tier')
        os.environ['VERIF_TIER'] = args[i + 1]
        del args[i:i + 2]
    if args and args[0] == '--replay':
        import replay
        return replay.main(args[1])
    pid = args[0]
    import importlib
    return importlib.import_module(MODS[pid]).main(pid)


if __name__ == '__main__':
    sys.exit(main())
