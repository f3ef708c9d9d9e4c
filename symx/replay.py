"""Concrete replay on the un-instrumented code.  Run with the repository's own interpreter:
   python replay.py HARNESS.py < requests.jsonl > answers.jsonl
   python replay.py --file REPLAY.json        (one recorded counterexample, human readable)"""
import importlib.util
import io
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SX_REPO', '/repo')
sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def load_harness(path):
    sys.path.insert(0, os.path.join(REPO, 'lib'))
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.dirname(path))
    name = os.path.splitext(os.path.basename(path))[0]
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def one(h, req, limit):
    from symx import api
    x = api.Concrete(req['inputs'])
    res = {'status': 'ok', 'label': None}
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        h.run(x, req['case'])
    except api.CheckFailed as e:
        res = {'status': 'violation', 'label': str(e)}
    except api.AssumeFailed:
        res = {'status': 'assume', 'label': None}
    except Timeout:
        res = {'status': 'violation', 'label': 'does not terminate'}
    except KeyError as e:
        if e.args and e.args[0] in ('',):
            pass
        res = exc(e)
    except Exception as e:
        res = exc(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = out, err
        x.done()
    res['observed'] = x.observed
    return res


def exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = tb[-1].name if tb else '?'
    for f in tb:
        if f.filename.startswith(REPO):
            where = f.name
    return {'status': 'violation', 'label': 'raises %s in %s' % (type(e).__name__, where),
            'detail': str(e)[:300]}


def main():
    if sys.argv[1] == '--file':
        with open(sys.argv[2]) as f:
            r = json.load(f)
        h = load_harness(os.path.join(VERIF, r['harness']))
        res = one(h, r, 30)
        print(json.dumps({'case': r['case'], 'inputs': r['inputs'], 'result': res}, indent=1, ensure_ascii=True))
        return 1 if res['status'] == 'violation' else 0
    h = load_harness(sys.argv[1])
    limit = float(os.environ.get('SX_REPLAY_LIMIT', '10'))
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    for line in sys.stdin:
        req = json.loads(line)
        res = one(h, req, limit)
        out.write(json.dumps(res) + "\n")
        out.flush()
    return 0


if __name__ == '__main__':
    sys.exit(main())
