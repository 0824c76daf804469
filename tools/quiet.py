"""Development tool: behaviour-preserving rewrites of the whole repository, on which every check has to stay quiet
(not used by any check).

  quiet.py MODE[,MODE...] [ID...]      rewrites a scratch copy, runs the tests there, then the checks
"""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


def start(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = start(n.body)
        n.body[i:i] = ast.parse('_unused = None').body
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


class Temp(ast.NodeTransformer):
    """return EXPR -> outcome = EXPR; return outcome"""

    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name('outcome_', ast.Store())], n.value),
                ast.Return(ast.Name('outcome_', ast.Load()))]


class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Loops(ast.NodeTransformer):
    def call(self, name, elt, n):
        return ast.Call(ast.Name(name, ast.Load()), [ast.GeneratorExp(elt, n.generators)], [])

    @staticmethod
    def plain(n):
        return not any(isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(n))

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return self.call('list', n.elt, n) if self.plain(n) else n

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.call('set', n.elt, n) if self.plain(n) else n

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self.call('dict', ast.Tuple([n.key, n.value], ast.Load()), n) if self.plain(n) else n


class Format(ast.NodeTransformer):
    """f'{a} text' -> '{} text'.format(a)"""

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values):
            return n
        text = ''.join('{}' if isinstance(v, ast.FormattedValue)
                       else v.value.replace('{', '{{').replace('}', '}}') for v in n.values)
        return ast.Call(ast.Attribute(ast.Constant(text), 'format', ast.Load()),
                        [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])


class Morgan(ast.NodeTransformer):
    def test(self, e):
        if isinstance(e, ast.BoolOp):
            op = ast.Or() if isinstance(e.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in e.values]))
        return e

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n


class Rename(ast.NodeTransformer):
    """local variables get other names"""

    def visit_FunctionDef(self, n):
        args, stored, banned = set(), set(), set()
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                args.add(x.arg)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stored.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                banned.update(x.names)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x is not n:
                banned.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                banned.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                banned.update(a.asname or a.name for a in x.names)
            elif isinstance(x, ast.ClassDef):
                return n
        names = {k: f'local_{k.strip("_")}_v' for k in stored - args - banned}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = names[x.id]
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


class Nest(ast.NodeTransformer):
    """if a and b: X   ->   if a: if b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            inner = n.body
            for v in reversed(n.test.values):
                inner = [ast.If(v, inner, [])]
            return inner
        return n


class Else(ast.NodeTransformer):
    """if c: return X   rest   ->   if c: return X  else: rest"""

    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(body) and \
                    isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


class Extract(ast.NodeTransformer):
    """def f(args): body  ->  the body moves to a nested helper that is called"""

    def visit_FunctionDef(self, n):
        if n.name.startswith('__') or any(
                isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.AsyncFunctionDef))
                or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals'))
                for x in ast.walk(n)):
            return n
        args = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in args for x in ast.walk(n)) \
                or any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) for s in n.body for x in ast.walk(s)):
            return n
        i = start(n.body)
        if not n.body[i:]:
            return n
        helper = ast.parse('def helper_(): pass').body[0]
        helper.body = n.body[i:]
        n.body[i:] = [helper, ast.parse('return helper_()', mode='exec').body[0]]
        return n


MODES = dict(noop=Noop, temp=Temp, swap=Swap, loops=Loops, format=Format, morgan=Morgan, rename=Rename,
             nest=Nest, els=Else, extract=Extract)


def rewrite(t, modes):
    for f in subprocess.run(['git', 'ls-files', '*.py'], cwd=t, capture_output=True, text=True).stdout.split():
        if 'tests' in f.split('/') or os.path.basename(f).startswith(('test_', 'setup')):
            continue
        p = os.path.join(t, f)
        tree = ast.parse(open(p).read())
        for m in modes:
            tree = ast.fix_missing_locations(MODES[m]().visit(tree))
        open(p, 'w').write(ast.unparse(tree) + '\n# the end\n')


def tests(t):
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--rootdir=' + t, '-p', 'no:cacheprovider',
                        '--timeout=300', '--continue-on-collection-errors', '--tb=short', '-o',
                        'junit_family=xunit2', '--junitxml=' + t + '/.junit.xml'], cwd=t, capture_output=True,
                       text=True, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'})
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', t + '/.out.json', 'junit:' + t + '/.junit.xml'],
                   capture_output=True)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    missing = stable - set(json.load(open(t + '/.out.json'))['passed'])
    print(f'{len(stable)} stable tests, failing: {sorted(missing)[:9]}', flush=True)
    return not missing


def main():
    modes, ids = sys.argv[1].split(','), sys.argv[2:]
    t = tempfile.mkdtemp(prefix='quiet')
    shutil.rmtree(t)
    shutil.copytree('/repo', t, symlinks=True)
    try:
        if modes[0].endswith('.py'):
            exec(compile(open(modes[0]).read(), modes[0], 'exec'), dict(T=t, open=open))
        else:
            rewrite(t, modes)
        if not tests(t):
            return
        ids = ids or [c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']]
        for i in ids:
            r = subprocess.run(['python3', 'check.py', i], cwd=ROOT, capture_output=True, text=True,
                               env={**os.environ, 'SX_REPO': t, 'VERIF_TIER': 'quick', 'SX_DEBUG': '1'})
            print('exit', r.returncode, (r.stdout.strip() or r.stderr[-300:]).splitlines()[-1], flush=True)
            if r.returncode:
                print(r.stdout[-1500:], r.stderr[-1500:])
            ev = json.load(open(f'{ROOT}/evidence/{i}.json'))
            print('   ', re.findall(r'"incomplete_paths": \d+|"exhaustive": \w+', json.dumps(ev))[:4], flush=True)
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    main()
