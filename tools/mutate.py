#!/usr/bin/env python3
"""Mutation sweep (a development aid, no check).

  mutate.py gen DIR             one-point mutants of /repo/pyorb which pass the
                                tests of the repository, as DIR/NNNN.json
  mutate.py run DIR [PROP...]   quick checks on them until one reports
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

FILES = ('kepler', 'orbit', 'unit', 'const')
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
        ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.BitAnd: ast.BitOr,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is}
NAMES = {'sin': 'cos', 'cos': 'sin', 'sinh': 'cosh', 'cosh': 'sinh',
         'logical_and': 'logical_or', 'logical_or': 'logical_and',
         'any': 'all', 'all': 'any', 'abs': 'positive',
         'r': 'v', 'v': 'r', 'kepler': 'cartesian', 'cartesian': 'kepler',
         '_kep': '_cart', '_cart': '_kep'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(src):
    """(line, what, start, end, replacement)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, \
            off[n.end_lineno - 1] + n.end_col_offset

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    out = []
    fn = {}

    def walk(n, f):
        if isinstance(n, (ast.FunctionDef,)):
            f = n.name
        for c in ast.iter_child_nodes(n):
            fn[c] = f
            walk(c, f)
    walk(tree, None)

    def add(n, text, what):
        if fn.get(n) is None or n in doc:
            return
        a, b = pos(n)
        out.append(dict(line=n.lineno, fn=fn[n], what=what, a=a, b=b,
                        text=text))

    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in SWAP:
            m = ast.Compare(n.left, [SWAP[type(n.ops[0])]()], n.comparators)
            add(n, '(' + ast.unparse(m) + ')', 'compare')
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            m = ast.BinOp(n.left, SWAP[type(n.op)](), n.right)
            add(n, '(' + ast.unparse(m) + ')', 'binop')
        if isinstance(n, ast.BoolOp):
            add(n, '(' + ast.unparse(ast.BoolOp(SWAP[type(n.op)](),
                                                n.values)) + ')', 'boolop')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not,
                                                            ast.Invert)):
            add(n, '(' + ast.unparse(n.operand) + ')', 'unary')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            if n.value == 0:
                add(n, '1', 'const=1')
            else:
                add(n, repr(n.value*1.001), 'const*1.001')
                add(n, '0', 'const=0')
        if isinstance(n, ast.If):
            add(n.test, 'True', 'if true')
            add(n.test, 'False', 'if false')
        if isinstance(n, ast.IfExp):
            add(n.test, 'True', 'ifexp true')
            add(n.test, 'False', 'ifexp false')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) :
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                m = ast.Call(n.func, n.args,
                             [q for q in n.keywords if q is not k])
                add(n, ast.unparse(m), f'drop {k.arg}=')
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'reshape', 'flatten', 'ravel') :
                add(n, ast.unparse(n.func.value), 'drop .' + n.func.attr)
            if len(n.args) == 2:
                m = ast.Call(n.func, n.args[::-1], n.keywords)
                add(n, ast.unparse(m), 'swap args')
            if n.args and isinstance(n.func, ast.Attribute):
                add(n, ast.unparse(n.args[0]), 'arg for call')
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            m = ast.Attribute(n.value, NAMES[n.attr], n.ctx)
            add(n, ast.unparse(m), 'name')
        if isinstance(n, ast.Subscript) and not isinstance(
                n.slice, ast.Constant):
            if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                m = ast.Subscript(n.value, ast.Tuple(
                    [n.slice.elts[0], ast.Slice()], ast.Load()), n.ctx)
            else:
                m = ast.Subscript(n.value, ast.Slice(), n.ctx)
            t = ast.unparse(m)
            if t != ast.unparse(n):
                add(n, t, 'whole')
        if isinstance(n, ast.Name) and n.id == 'inds' and isinstance(
                n.ctx, ast.Load):
            add(n, 'slice(None)', 'all inds')
    seen = set()
    res = []
    for m in out:
        b = src.encode()
        new = (b[:m['a']] + m['text'].encode() + b[m['b']:]).decode()
        if hash(new) in seen or new == src:
            continue
        seen.add(hash(new))
        m['new'] = new
        res.append(m)
    return res


PY = '/opt/venv/bin/python'


def tests(args):
    k, f, m, d = args
    w = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.run(f'cd /repo && git ls-files | tar -cf - -T - | tar -xf - -C {w}',
                       shell=True, check=True)
        try:
            compile(m['new'], 'x', 'exec')
        except SyntaxError:
            return False
        open(f'{w}/pyorb/{f}.py', 'w').write(m['new'])
        env = dict(os.environ, OMP_NUM_THREADS='1', PYTHONPATH=w)
        slow = ('test_cart_kep_inverse or test_laguerre_solve or '
                'test_hyperbolic_kepler_guess')
        ok = True
        for sel in (f'not ({slow})', slow):
            try:
                r = subprocess.run(
                    [PY, '-B', '-m', 'pytest', '-q', '-x', '--no-cov', '-p',
                     'no:cacheprovider', 'tests', '-k', sel], cwd=w, env=env,
                    capture_output=True, timeout=150, text=True)
            except subprocess.TimeoutExpired:
                return False
            if r.returncode:
                ok = False
                break
        if ok:
            m = dict(m, file=f, k=k)
            json.dump(m, open(f'{d}/{k:04d}.json', 'w'))
            return True
        return False
    finally:
        shutil.rmtree(w)


def gen(d):
    os.makedirs(d, exist_ok=True)
    jobs = []
    for f in FILES:
        src = open(f'/repo/pyorb/{f}.py').read()
        for m in mutants(src):
            jobs.append((len(jobs), f, m, d))
    frac = float(os.environ.get('FRAC', 1))
    rnd = random.Random(int(os.environ.get('SEED', 1)))
    jobs = [j for j in jobs if rnd.random() < frac]
    print(len(jobs), 'mutants', flush=True)
    with cf.ProcessPoolExecutor(
            int(os.environ.get('JOBS', 8))) as ex:
        n = 0
        for i, ok in enumerate(ex.map(tests, jobs)):
            n += ok
            if i % 100 == 0:
                print(i, n, flush=True)
    print(n, 'survive the tests')


def run(d, props):
    names = sorted(x for x in os.listdir(d) if x.endswith('.json'))
    w = '/tmp/mutrun'
    for x in names:
        m = json.load(open(f'{d}/{x}'))
        if m.get('caught') or (m.get('props') == props):
            continue
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(f'mkdir -p {w}; cd /repo && git ls-files | '
                       f'tar -cf - -T - | tar -xf - -C {w}', shell=True, check=True)
        open(f'{w}/pyorb/{m["file"]}.py', 'w').write(m['new'])
        env = dict(os.environ, PYORB_REPO=w, VERIF_NOEVIDENCE='1')
        got = None
        for p in props_for(m, props):
            try:
                r = subprocess.run(['python3-vt', 'run.py', '--property', p,
                                    '--tier', 'quick'], env=env,
                                   capture_output=True, text=True,
                                   timeout=900,
                                   cwd=os.path.dirname(os.path.dirname(
                                       os.path.abspath(__file__))))
            except subprocess.TimeoutExpired:
                continue
            if r.returncode:
                got = p + ('' if r.returncode == 1 else '!')
                break
        m['caught'] = got
        m['props'] = props
        json.dump(m, open(f'{d}/{x}', 'w'))
        print(x, m['file'], m['fn'], m['line'], m['what'], '->',
              m['text'][:60].replace('\n', ' '), ':', got, flush=True)


KMAP = [('cart_to_kep', 'K03 K04 K06 K05'),
        ('kep_to_cart', 'K01 K02 K06 K05'),
        ('equi_to_cart', 'K12 K11'),
        ('cart_to_equi', 'K12 K11'),
        ('equi', 'K11 K12'),
        ('stumpff', 'K18'),
        ('kep_equivalent', 'K19'),
        ('laguerre', 'K15 K10 K20'),
        ('kepler_guess', 'K21 K15'),
        ('rot', 'K17 K02'),
        ('mean', 'K08 K09 K15'),
        ('eccentric', 'K07 K08 K09'),
        ('', 'K16 K01')]
OALL = ('O11 O12 O06 O13 O09 O03 O07 O08 O05 O10').split()


def props_for(m, props):
    if props:
        return props
    if m['file'] == 'unit':
        return ['U01', 'U02', 'K13']
    if m['file'] == 'const':
        return ['U03', 'U01']
    if m['file'] == 'orbit':
        return OALL
    for k, p in KMAP:
        if k in (m['fn'] or ''):
            return p.split()


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2])
    else:
        run(sys.argv[2], sys.argv[3:])
