#!/opt/venv/bin/python
"""Replay recorded inputs against the real, un-instrumented code.

  replay.py FILE          one replay file; exit 1 when the failure reproduces
  replay.py --batch FILE  JSON list of cases, prints one JSON result per case
"""
import importlib
import json
import logging
import os
import signal
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SX_REPO', '/repo'))

from sx.api_conc import ConcreteAPI, CheckFailed, Skip    # noqa: E402
from sx.registry import HARNESSES                         # noqa: E402
import sx.findings as findings                            # noqa: E402


def load():
    from sx.registry import load_harnesses
    load_harnesses(HERE)


def brief(e):
    import traceback
    fr = traceback.extract_tb(e.__traceback__)
    at = '%s:%s' % ('/'.join(fr[-1].filename.split('/')[-3:]), fr[-1].name) if fr else ''
    return 'unexpected %s: %s (in %s)' % (type(e).__name__, str(e)[:300], at)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(case):
    hs = [h for h in HARNESSES.get(case['property'], []) if h.name == case['harness']]
    if not hs:
        return {'status': 'error', 'message': 'no such harness'}
    known = findings.active_ids(case['property'])
    api = ConcreteAPI(case['inputs'], known)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20)
    try:
        hs[0].fn(api, **case['params'])
        res = {'status': 'ok', 'message': ''}
    except CheckFailed as e:
        res = {'status': 'failed', 'message': str(e)}
    except Skip:
        res = {'status': 'skip', 'message': 'assumption not met'}
    except Timeout:
        res = {'status': 'failed', 'message': 'did not terminate within 20 s'}
    except Exception as e:
        res = {'status': 'failed', 'message': brief(e)}
    finally:
        signal.alarm(0)
        api.done()
    res['known'] = api.known
    res['checks'] = api.checks
    return res


def main():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    load()
    if sys.argv[1] == '--batch':
        for case in json.load(open(sys.argv[2])):
            print('RESULT ' + json.dumps(run_case(case)), flush=True)
        return 0
    case = json.load(open(sys.argv[1]))
    r = run_case(case)
    print('%s %s: %s' % (case['property'], case['harness'], case.get('message', '')))
    print('inputs: %s' % json.dumps(case['inputs']))
    print('params: %s' % json.dumps(case['params']))
    print('result on the real code: %s %s' % (r['status'], r['message']))
    return 1 if r['status'] == 'failed' else 0


if __name__ == '__main__':
    sys.exit(main())
