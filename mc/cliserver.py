"""Fork server running the command line entry points of the real code.

Each request is served by a fresh fork of a process that only imported the
package: descriptors 0, 1 and 2 are the given files, sys.argv the given
arguments, exactly as under the installed console scripts.  Only the exit
status and the written files are observed.
"""
import json
import os
import signal
import sys
import traceback


def set_clock(kind):
    """The clock of the process: any reading between the extremes is possible
    on a machine with a coarse clock, or one that is being set."""
    import time
    n = [0]
    real = time.time()

    def now():
        n[0] += 1
        return real + {'frozen': 0, 'back': -n[0], 'alternate': n[0] % 2,
                       'fast': n[0] * 3600., 'tick': n[0] // 16 * .015625
                       }[kind]
    time.time = now


def child(req):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(req.get('seconds', 25))
    if req.get('clock'):
        set_clock(req['clock'])
    code = 0
    # a history of commands in one process; all but the last are not observed
    for r in req.get('before', []) + [req]:
        code = command(r)
    os._exit(code)


def command(req):
    for fd, name, flags in ((0, 'stdin', os.O_RDONLY),
                            (1, 'stdout', os.O_WRONLY | os.O_CREAT
                             | os.O_TRUNC),
                            (2, 'stderr', os.O_WRONLY | os.O_CREAT
                             | os.O_TRUNC)):
        f = os.open(req[name], flags, 0o600)
        os.dup2(f, fd)
        os.close(f)
    from os_urlpattern import cmdline
    sys.argv = [req['cmd']] + req['argv']
    code = 0
    try:
        {'pattern-make': cmdline.make, 'pattern-match': cmdline.match}[
            req['cmd']]()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else int(e.code is not None)
    except BaseException:
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        code = code or 120
    return code


def main():
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    sys.path.insert(0, sys.argv[3])
    import os_urlpattern.cmdline  # noqa: F401
    try:
        import psutil  # noqa: F401   (loaded lazily by the package)
    except ImportError:
        pass
    r = os.fdopen(rfd, 'r')
    w = os.fdopen(wfd, 'w')
    for line in r:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                child(req)
            finally:
                os._exit(99)
        status = os.waitpid(pid, 0)[1]
        try:
            w.write('%d\n' % os.waitstatus_to_exitcode(status))
            w.flush()
        except BrokenPipeError:
            os._exit(0)


if __name__ == '__main__':
    main()
