"""re-executes a recorded counterexample on the compiled code of the current tree"""
from common import *


def main(path):
    d = json.load(open(path))
    k = d['kind']
    if d.get('guard'):
        GMODE['mode'] = d['guard']
    if k == 'product':
        import products
        chk = Check(d['property'], 'replay')
        so = products.native_lib(chk, d['lib'], d['n'])
        w = products.confirm(so, products.fname(d['lib'], d['n'], d['variant']), d['a'], d['b'])
        if not w:
            r = products.ub_cex(chk, d['lib'], d['n'], d['variant'], [(d['a'], d['b'])])
            w = r and r[2]
    else:
        import importlib
        w = importlib.import_module(d['module']).replay(d)
    print('reproduced: %s' % w if w else 'not reproduced')
    return 1 if w else 0
