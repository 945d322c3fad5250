"""Bit-precise bounded model checking of the C sources with CBMC (SAT) for small kernels."""
import subprocess, json, re, os, time
from common import STATS, log

MODEL_RE = re.compile(r'^([\w.\[\]]+)$')


class BmcResult:
    def __init__(self, status, model=None, failed=None, props=0, wall=0.0, solver=0.0, text='', vccs=0):
        self.status, self.model, self.failed, self.props, self.wall, self.solver, self.text, self.vccs = status, model, failed, props, wall, solver, text, vccs


def run(chk, name, harness, sources=(), unwind=None, unwindset=(), checks=('bounds', 'pointer', 'signed-overflow', 'div-by-zero', 'undefined-shift'),
        timeout=300, defines=(), extra=(), unwinding_assertions=True, keep=None):
    """harness: C text (may #include sources of the scratch copy).  status: 'ok' | 'fail' | 'unknown'
    model: {nondet variable name: value} from the trace of the first failing property"""
    d = chk.S.dir
    p = os.path.join(d, 'h_%s_%d.c' % (re.sub(r'\W', '_', name), os.getpid()))
    with open(p, 'w') as f:
        f.write(harness)
    cmd = ['cbmc', p] + [os.path.join(chk.S.src, s) for s in sources] + ['-I', chk.S.src, '--no-standard-checks', '--json-ui', '--trace', '--stop-on-fail' if False else '--trace',
           '--slice-formula', '--drop-unused-functions', '-D__CPROVER_HARNESS=1']
    for c in checks:
        cmd.append('--%s-check' % c)
    if unwind:
        cmd += ['--unwind', str(unwind)]
    for u in unwindset:
        cmd += ['--unwindset', u]
    if unwinding_assertions:
        cmd.append('--unwinding-assertions')
    else:
        cmd.append('--no-unwinding-assertions')
    for x in defines:
        cmd.append('-D' + x)
    cmd += list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(['timeout', '-k', '5', str(int(timeout))] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
    finally:
        if not keep:
            try:
                os.unlink(p)
            except OSError:
                pass
    wall = time.time() - t0
    txt = r.stdout.decode(errors='replace')
    STATS.queries += 1
    if r.returncode == 124 or r.returncode == 137:
        STATS.solver_s += wall
        STATS.unknown += 1
        return BmcResult('unknown', wall=wall, text='timeout after %ds' % timeout)
    try:
        js = json.loads(txt)
    except ValueError:
        return BmcResult('unknown', wall=wall, text='cbmc output not understood: ' + (txt[-500:] + r.stderr.decode(errors='replace')[-500:]))
    solver, res, vccs, msgs = 0.0, None, 0, []
    for e in js:
        if 'messageText' in e:
            m = re.match(r'Runtime (Solver|decision procedure): ([\d.e-]+)s', e['messageText'])
            if m:
                solver = max(solver, float(m.group(2))) if m.group(1) != 'Solver' else solver + float(m.group(2))
            m = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', e['messageText'])
            if m:
                vccs = int(m.group(2))
            if e.get('messageType') == 'ERROR':
                msgs.append(e['messageText'])
        if 'result' in e:
            res = e['result']
    STATS.solver_s += solver
    if res is None:
        return BmcResult('unknown', wall=wall, solver=solver, text='; '.join(msgs)[-600:])
    bad = [x for x in res if x['status'] == 'FAILURE']
    unk = [x for x in res if x['status'] not in ('FAILURE', 'SUCCESS')]
    if not bad:
        if unk:
            STATS.unknown += 1
            return BmcResult('unknown', wall=wall, solver=solver, text=str(unk[0].get('status')), props=len(res))
        STATS.unsat += 1
        return BmcResult('ok', props=len(res), wall=wall, solver=solver, vccs=vccs)
    STATS.sat += 1
    # unwinding failures are reported last: they only mean that the bound was too small
    bad.sort(key=lambda x: 'unwind' in x['property'])
    models = []
    for b in bad:
        m = {}
        for st in b.get('trace', []):
            if st.get('stepType') == 'assignment' and 'value' in st:
                v = st['value']
                lhs = st.get('lhs', '')
                if lhs.startswith('in_'):
                    flat(lhs, v, m)
        models.append(m)
    return BmcResult('fail', models[0] if models else {}, [(b['property'], b.get('description', ''), m) for b, m in zip(bad, models)], props=len(res), wall=wall, solver=solver, vccs=vccs)


def flat(lhs, v, m):
    if 'binary' in v and 'width' in v and v.get('name') in ('integer', 'boolean', 'unsignedbv', 'signedbv'):
        b = v['binary']
        x = int(b, 2)
        t = v.get('type', '')
        if len(b) > 1 and b[0] == '1' and not (t.startswith('unsigned') or 'uint' in t or '_Bool' in t):
            x -= 1 << len(b)
        m[re.sub(r'\[(\d+)[a-z]*\]', r'[\1]', lhs)] = x
    elif 'elements' in v:
        for e in v['elements']:
            flat('%s[%s]' % (lhs, e['index']), e['value'], m)
    elif 'members' in v:
        for e in v['members']:
            flat('%s.%s' % (lhs, e['name']), e['value'], m)


def arr(m, name, n):
    return [m.get('%s[%d]' % (name, i), 0) for i in range(n)]
