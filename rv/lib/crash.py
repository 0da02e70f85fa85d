"""Crash injection that does not depend on how the code under test writes its files: the action runs in a
forked child that is killed at a chosen executed line, or by the kernel when a file grows past a chosen size."""
import os
import resource
import signal
import sys
import time

CRASHED, FAILED = 77, 78


def _reset():
    for s in (signal.SIGPROF, signal.SIGALRM):
        signal.signal(s, signal.SIG_DFL)


def child(fn, arm, timeout=120):
    """Run arm(); fn() in a forked child; returns its exit code (or -signal). No Python cleanup on exit."""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            _reset()
            arm()
            fn()
        except BaseException:
            code = FAILED
        sys.settrace(None)
        os._exit(code)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(0.0005)
    return -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)


def count_lines(fn, path):
    """How many lines one undisturbed run executes (in a child)."""
    def go():
        n = [0]

        def tr(frame, event, arg):
            if event == 'line':
                n[0] += 1
            return tr
        sys.settrace(tr)
        try:
            fn()
        finally:
            sys.settrace(None)
            with open(path, 'w') as f:
                f.write(str(n[0]))
    child(go, lambda: None)
    try:
        with open(path) as f:
            return int(f.read())
    except (OSError, ValueError):
        return 0


def at_line(k):
    def arm():
        n = [0]

        def tr(frame, event, arg):
            if event == 'line':
                n[0] += 1
                if n[0] > k:
                    os._exit(CRASHED)
            return tr
        sys.settrace(tr)
    return arm


def at_byte(k):
    """The kernel kills the process when it writes a file past k bytes (a torn write)."""
    def arm():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
    return arm


def disk_full(k):
    """Writes past k bytes fail with an error."""
    def arm():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
    return arm
