"""Program lifetimes: each runs in its own forked process, so nothing but the disk survives it."""
import os
import pickle
import resource
import signal
import sys
import traceback


class ChildDied(Exception):
    pass


class Stalled(Exception):
    """the process used neither CPU nor answered: not something the simulation can judge"""


def in_child(fn, cpu=120, quiet=True, slack=0):
    """run fn() in a forked copy of this process; returns its value.  Raises ChildDied if it does not answer."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = _fork()
    if pid == 0:
        code = 1
        try:
            os_close(r)
            hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
            lim = cpu + 5 if hard == resource.RLIM_INFINITY else min(hard, cpu + 5)
            resource.setrlimit(resource.RLIMIT_CPU, (min(cpu, lim), lim))
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, max(60, 2 * cpu) + slack)
            if quiet:
                null = os_open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
                os.dup2(null, 0)
                sys.stdout = open_(1, 'w', closefd=False)
                sys.stderr = open_(2, 'w', closefd=False)
            try:
                out = ('ok', fn())
            except ChildDied as e:
                out = ('died', str(e))
            except Stalled as e:
                out = ('stalled', str(e))
            except BaseException:
                out = ('harness', traceback.format_exc())
            data = pickle.dumps(out)
            while data:
                n = os_write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os_close(w)
    chunks = []
    while True:
        b = os_read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os_close(r)
    _, status = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        if os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            if s == signal.SIGALRM:
                raise Stalled('wall clock limit')
            raise ChildDied('cpu limit' if s in (signal.SIGXCPU, signal.SIGKILL) else 'signal %d' % s)
        raise ChildDied('exit %d' % os.WEXITSTATUS(status))
    kind, val = pickle.loads(data)
    if kind == 'died':
        raise ChildDied(val)
    if kind == 'stalled':
        raise Stalled(val)
    if kind == 'harness':
        raise HarnessError(val)
    return val


class HarnessError(Exception):
    pass


_fork = os.fork
os_close, os_open, os_read, os_write, open_ = os.close, os.open, os.read, os.write, open
