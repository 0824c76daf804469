#!/usr/bin/env python3
"""Engine self-test: the symbolic models of Python operations against CPython.

Every expression below is executed symbolically; for each path z3 produces a
model, the symbolic result is evaluated under it and compared with what CPython
computes for the same concrete inputs.  Also checks that the tools are present.
"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
if not os.environ.get('SX_SELF'):
    os.execve(PY, [PY, os.path.abspath(__file__)], dict(os.environ, SX_SELF='1', PYTHONHASHSEED='0'))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.append('/opt/venv/lib/python3.12/site-packages')

import re                # noqa: E402
import time              # noqa: E402
import z3                # noqa: E402
import ZODB, BTrees      # noqa: E402,F401
from sx import core, instr, strings, values    # noqa: E402
from sx.api_sym import SymAPI                  # noqa: E402

SRC = r'''
import re, math, json
from urllib.parse import urlparse
EXPRS = {
 'arith': lambda s, t, i, j: (i + j * 3, i - j, -i, abs(i), i // 7, i % 7, i // -7, i % -5, divmod(i, 60)),
 'cmp': lambda s, t, i, j: (i < j, i == j, max(i, j), min(i, j), sorted([i, j, 3])),
 'ceil': lambda s, t, i, j: (math.ceil(i / 4), math.floor(i / 4), int(i / 4)),
 'round': lambda s, t, i, j: (bool(i), not j, i and j, i or j),
 'text': lambda s, t, i, j: (str(i % 100), f'{i % 100:02d}-{s}', '%02d' % (j % 60), '{}:{}'.format(s, t)),
 'concat': lambda s, t, i, j: (s + t, s * 2, s[::-1], s[1:], s[:1], s[-1]),
 'find': lambda s, t, i, j: (s.find('a'), s.rfind(t), s.count('a'), t in s, s.startswith(t), s.endswith('a')),
 'split': lambda s, t, i, j: (s.split('/'), s.partition(':'), s.rsplit('.', 1), s.split()),
 'strip': lambda s, t, i, j: (s.strip(), s.lstrip('a'), s.replace('a', 'bc'), s.replace(t, '')),
 'case': lambda s, t, i, j: (s.lower(), s.upper(), s.isdigit(), s.isalpha(), s.isspace(), s.isalnum()),
 'order': lambda s, t, i, j: (s < t, s == t, min(s, t), sorted([s, t])),
 'bytes': lambda s, t, i, j: (int.from_bytes(s.encode()) % 5, s.encode(), len(s)),
 'dict': lambda s, t, i, j: (len({s: 1, t: 2}), {s: 1, t: 2}[s], (s in {t: 1}), dict([(s, i)]).get(t, 9)),
 'set': lambda s, t, i, j: (len({s, t}), len(set([i, j])), i in {1, 2}),
 're1': lambda s, t, i, j: bool(re.match(r'[a-z]+$', s)),
 're2': lambda s, t, i, j: (lambda m: m.groups() if m else None)(re.search(r'(\d+)([ab])?', s)),
 're3': lambda s, t, i, j: re.sub(r'[^a-z]', '_', s),
 're4': lambda s, t, i, j: (bool(re.fullmatch(r'(?:a|b.)*', s)), re.findall('a', s)),
 'wide1': lambda s, t, i, j: (bool(re.search(r'[^\w.:-]', s)), bool(re.match(r'\d+$', s)), bool(re.fullmatch(r'\S+', s))),
 'wide2': lambda s, t, i, j: (bool(re.match(r'[a-z]*$', s, re.I)), bool(re.match(r'\w+', s, re.A)), bool(re.search(r'k', s, re.I))),
 'wide3': lambda s, t, i, j: (lambda m: m.group() if m else None)(re.search(r'\w+', s)),
 'wide4': lambda s, t, i, j: tuple(urlparse('http://' + s + '/' + t))[:3],
 'url': lambda s, t, i, j: tuple(urlparse('http://' + s + '/' + t))[:3],
 'json': lambda s, t, i, j: json.loads(json.dumps({'k': [s, i, None, True]})),
 'join': lambda s, t, i, j: ','.join([s, t]),
 'parse': lambda s, t, i, j: int('1' + s) if s.isdigit() and s.isascii() else None,
}
'''


def evaluate(v, model):
    if type(v) is strings.SymStr:
        return ''.join(chr(c if isinstance(c, int) else
                           model.eval(c, model_completion=True).as_long()) for c in v.chars())
    if type(v) is strings.SymBytes:
        return bytes(c if isinstance(c, int) else
                     model.eval(c, model_completion=True).as_long() for c in v._p)
    if type(v) is values.SymInt:
        return model.eval(v.t, model_completion=True).as_long()
    if type(v) is values.SymBool:
        return z3.is_true(model.eval(v.t, model_completion=True))
    if type(v) in (list, tuple):
        return type(v)(evaluate(x, model) for x in v)
    if type(v) is dict:
        return {evaluate(k, model): evaluate(x, model) for k, x in v.items()}
    return v


def main():
    native, ns = {}, {}
    exec(SRC, native)
    ns['__builtins__'] = instr.BUILTINS
    exec(instr.compile_instrumented(SRC, '<selfcheck>'), ns)
    bad = total = 0
    t0 = time.time()
    for name, fn in ns['EXPRS'].items():
        for n, m in ((0, 1), (2, 1), (3, 2)):
            if time.time() - t0 > 240:
                break
            e = core.Engine(deadline=time.time() + 15)
            api = SymAPI()
            count = [0, 0]

            def path():
                high = 0x10ffff if name.startswith('wide') else 127
                s, t = api.str('s', n, 0, high), api.str('t', m)
                i, j = api.int('i', -200, 200), api.int('j', -200, 200)
                try:
                    r = fn(s, t, i, j)
                except (IndexError, ValueError) as x:
                    r = type(x).__name__
                count[0] += 1
                if count[0] % 7 != 1 and count[0] > 200:
                    return
                model = e.model
                # strings may need expansion of digits, which forks: use the
                # inputs of the model at the end
                inp = None
                got = evaluate(r, model)
                model = e.model
                got = evaluate(r, model)
                inp = e.inputs(model)
                try:
                    want = native['EXPRS'][name](inp['s'], inp['t'], inp['i'], inp['j'])
                except (IndexError, ValueError) as x:
                    want = type(x).__name__
                count[1] += 1
                if got != want:
                    raise AssertionError('%s: %r: engine %r, CPython %r' % (name, inp, got, want))
            try:
                e.explore(path)
            except core.Signal as x:
                print('SELFCHECK %s: %r' % (name, x))
                bad += 1
            total += count[1]
            for v in e.violations:
                bad += 1
                print('SELFCHECK %s' % v.msg)
    print('selfcheck: %d path models agree with CPython, %d failures, %.1fs'
          % (total, bad, time.time() - t0))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
