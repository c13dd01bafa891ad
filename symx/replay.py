"""Runs harness cases concretely, on the real uninstrumented code, from recorded inputs.
stdin: one JSON object per line {property, case, inputs}; stdout: one JSON result per line."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_one(case, env, inputs):
    from symx.api import Concrete, CheckFailed, AssumeFailed, dec
    S = Concrete({k: dec(v) for k, v in inputs.items()})
    out = {}
    try:
        case.body(S, env)
        out['outcome'] = 'done'
    except CheckFailed as e:
        m = e.msg() if callable(e.msg) else e.msg
        out.update(outcome='violation', detail=str(m))
    except AssumeFailed:
        out['outcome'] = 'end'
    except Exception as e:
        out.update(outcome='exception', detail=''.join(traceback.format_exception(e))[-3000:])
    out['obs'] = S.obs
    out['missing'] = S.missing
    return out


def main():
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.path.insert(1, HERE)
    sys.dont_write_bytecode = True
    real_out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    jobs = [json.loads(l) for l in sys.stdin if l.strip()]
    envs = {}
    mods = {}
    for n, j in enumerate(jobs):
        key = (j['property'], j['tier'], j['case'])
        if key not in envs:
            try:
                if key[:2] not in mods:
                    m = importlib.import_module('harness.' + j['property'].lower())
                    mods[key[:2]] = {c.name: c for c in m.cases(j['tier'])}
                case = mods[key[:2]][j['case']]
                envs = {key: (case, case.setup(), None)}
            except BaseException as e:
                envs = {key: (None, None, ''.join(traceback.format_exception(e))[-3000:])}
        case, env, err = envs[key]
        if err is not None:
            res = {'outcome': 'exception', 'detail': 'setup: ' + err, 'obs': [], 'missing': []}
        else:
            r, w = os.pipe()
            sys.stdout.flush()
            real_out.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    import signal
                    signal.alarm(25)
                    os.close(r)
                    data = json.dumps(run_one(case, env, j['inputs'])).encode()
                    while data:
                        data = data[os.write(w, data):]
                finally:
                    os._exit(0)
            os.close(w)
            buf = b''
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                buf += b
            os.close(r)
            os.waitpid(pid, 0)
            res = json.loads(buf) if buf else {'outcome': 'crash', 'detail': 'no result (timeout or crash)',
                                               'obs': [], 'missing': []}
        res['n'] = j.get('n', n)
        real_out.write(json.dumps(res) + '\n')
    real_out.flush()


if __name__ == '__main__':
    main()
