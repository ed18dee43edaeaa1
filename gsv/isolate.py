"""Run a case in a forked child, for code that changes modules and classes."""
import json
import os
import select
import signal
import sys
import traceback

from gsv.core import HarnessError, Result, Violation

TIMEOUT = 60


def isolated(run):
    """decorator for run(case)"""
    def wrapper(case):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                    res = run(case)
                    out = {'nontrivial': res.nontrivial, 'labels': list(res.labels)}
                except HarnessError as e:
                    out = {'harness': str(e)}
                except BaseException:
                    out = {'error': traceback.format_exc(limit=-10)}
                with os.fdopen(w, 'w') as f:
                    json.dump(out, f)
            except BaseException:
                code = 1
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(w)
        data = b''
        try:
            while True:
                ready, _, _ = select.select([r], [], [], TIMEOUT)
                if not ready:
                    os.kill(pid, signal.SIGKILL)
                    raise Violation(f'no answer within {TIMEOUT} s')
                chunk = os.read(r, 65536)
                if not chunk:
                    break
                data += chunk
        finally:
            os.close(r)
            os.waitpid(pid, 0)
        if not data:
            raise HarnessError('isolated case died without a result')
        out = json.loads(data)
        if 'error' in out:
            raise Violation(out['error'])
        if 'harness' in out:
            raise HarnessError(out['harness'])
        return Result(out['nontrivial'], out['labels'])
    return wrapper
