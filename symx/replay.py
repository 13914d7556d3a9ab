"""Runs vectors on the real code.  usage: replay.py FILE.json [index] -> JSON on stdout
FILE: {"cases": [{"module","func","params","inputs"}], "timeout": s}"""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def jval(x):
    if isinstance(x, (bytes, bytearray)):
        return 'b:' + bytes(x).decode('latin-1')
    if isinstance(x, (list, tuple)):
        return [jval(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jval(y) for k, y in x.items()}
    if isinstance(x, (str, int, bool, type(None))):
        return x
    return repr(x)


def run_case(case, timeout):
    from symx.concrete import ConcSession, Violated, Assumption, MissingInput
    for m in [m for m in sys.modules if m == 'warcio' or m.startswith('warcio.') or m.startswith('harness')
              or m in ('http.client', 'six') or m.startswith('six.')]:
        del sys.modules[m]
    sys.modules.pop('http', None)
    S = ConcSession(case['inputs'])
    # processor time, not wall time: a busy machine is no finding
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, timeout)
    so, se = sys.stdout, sys.stderr
    devnull = open(os.devnull, 'w')
    sys.stdout = sys.stderr = devnull
    try:
        try:
            mod = importlib.import_module('harness.' + case['module'])
            getattr(mod, case['func'])(S, **case['params'])
            res = ('ok', '')
        except Violated as e:
            res = ('violated', str(e))
        except Assumption:
            res = ('assumption', '')
        except MissingInput as e:
            res = ('missing', str(e))
        except Timeout:
            res = ('timeout', 'no answer within %ss of processor time' % timeout)
        except MemoryError:
            res = ('timeout', 'out of memory')
        except Exception as e:
            res = ('exception', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout, sys.stderr = so, se
        devnull.close()
        S.cleanup()
    return dict(outcome=res[0], detail=res[1], observed=jval([list(o) for o in S.observed]))


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    cases = spec['cases']
    if len(sys.argv) > 2:
        cases = [cases[int(sys.argv[2])]]
    out = [run_case(c, spec.get('timeout', 10)) for c in cases]
    if os.environ.get('SYMX_VERBOSE'):
        for c, r in zip(cases, out):
            print(c, r['outcome'], r['detail'])
    print(json.dumps(out))
    if any(r['outcome'] in ('violated', 'exception', 'timeout') for r in out):
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
