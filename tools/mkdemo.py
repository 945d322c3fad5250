"""mkdemo.py <replay.json> <seed dir>: writes demo.sh/demo.c from a recorded product or transform counterexample"""
import json, sys, os
d = json.load(open(sys.argv[1])); out = sys.argv[2]
os.makedirs(out, exist_ok=True)
def arr(x): return '{' + ','.join(str(int(v)) for v in x) + '}'
if d['kind'] == 'product':
    n, k, lib = d['n'], d['variant'], d['lib']
    H = {'default': 'ntt%d.h', 'naive': 'naive_ntt%d.h', 'red': 'ntt_red%d.h', 'avx2': 'ntt_red_asm%d.h'}[lib] % n
    F = {'default': 'ntt%d_product%d', 'naive': 'naive_ntt%d_product%d', 'red': 'ntt_red%d_product%d', 'avx2': 'ntt_red%d_product%d_asm'}[lib] % (n, k)
    S = {'default': 'ntt.c ntt%d.c ntt%d_tables.c bitrev%d_table.c', 'naive': 'naive_ntt.c naive_ntt%d.c ntt%d_tables.c bitrev%d_table.c',
         'red': 'ntt.c ntt_red.c ntt_red%d.c ntt_red%d_tables.c bitrev%d_table.c', 'avx2': 'ntt.c ntt_red.c ntt_asm.S ntt_red_asm%d.c ntt_red%d_tables.c bitrev%d_table.c'}[lib] % (n, n, n)
    src = '''#include <stdio.h>
#include <stdint.h>
#include "%s"
static int32_t a[%d] = %s;
static int32_t b[%d] = %s;
static int32_t c[%d], x[%d], y[%d];
int main(void) {
  for (int i = 0; i < %d; i++) { x[i] = a[i]; y[i] = b[i]; }
  %s(c, x, y);
  for (int k = 0; k < %d; k++) {
    int64_t s = 0;
    for (int i = 0; i < %d; i++) s += i <= k ? (int64_t) a[i] * b[k - i] : -(int64_t) a[i] * b[%d + k - i];
    s %%= 12289; if (s < 0) s += 12289;
    if (s != c[k]) { printf("coefficient %%d is %%d, expected %%d\\n", k, c[k], (int) s); return 1; }
  }
  return 0;
}
''' % (H, n, arr(d['a']), n, arr(d['b']), n, n, n, n, F, n, n, n)
open(os.path.join(out, 'demo.c'), 'w').write(src)
tabs = ' '.join(s for s in S.split() if s.endswith('tables.c') or s.startswith('bitrev'))
open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
set -e
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
cp -r src "$W/src"
cd "$W/src"
make -s clean >/dev/null 2>&1 || true
CC=gcc make -s %s >/dev/null
gcc -w -std=c99 -O3 -DNDEBUG -D_DEFAULT_SOURCE -I. -o "$W/demo" "$D/demo.c" %s
timeout 60 "$W/demo"
''' % (tabs, S))
