"""Runs the real bootstrap module on given command lines, each in a forked process, with the calls
that would detach or serve replaced by stand-ins that record them; prints the settings it ended with."""
import json
import os
import runpy
import sys
import time


def run(argv, out):
    import logging
    calls = []
    real_open = open
    os.fork = lambda: (calls.append('fork'), 0)[1]
    os.setsid = lambda: calls.append('setsid')
    os.dup2 = lambda a, b, *r: calls.append(['dup2', os.readlink('/proc/self/fd/%d' % a), b])
    import teleprox
    from teleprox.log import remote

    def report(server):
        calls.append('serve')
        finish(server)

    def finish(server=None, **kw):
        d = dict(kw, calls=calls, pid=os.getpid(), name=remote.get_process_name(), prefix=teleprox.process.PROCESS_NAME_PREFIX,
                 level=logging.getLogger().level, logaddr=remote.get_logger_address(),
                 server=type(server).__name__ if server is not None else None,
                 address=server.address.decode() if server is not None else None,
                 argv=argv)
        la = d['logaddr']
        d['logaddr'] = la.decode() if isinstance(la, bytes) else la
        os.write(out, (json.dumps(d) + '\n').encode())
        time.sleep(.05)
        os._exit(0)
    teleprox.RPCServer.run_forever = report
    teleprox.QtRPCServer.run_forever = report
    sys.argv = ['bootstrap.py'] + argv
    try:
        runpy.run_path(os.path.join(os.path.dirname(teleprox.__file__), 'bootstrap.py'), run_name='__main__')
        finish()
    except SystemExit as e:
        finish(exit=repr(e.code))
    except BaseException as e:
        finish(error=repr(e))


def main():
    import teleprox  # noqa: F401
    keep = []
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            n = os.open('/dev/null', os.O_RDWR)
            os.dup2(n, 0)
            os.dup2(2, 1)
            run(req, w)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(p, 0)
        sys.stdout.write(data.decode() if data else '{"error": "the child died"}\n')
        sys.stdout.flush()
    del keep


if __name__ == '__main__':
    main()
