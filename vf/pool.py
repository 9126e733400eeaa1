"""Run the real plasTeX code on many cases, each in its own forked process.

plasTeX keeps parser state on classes (see property C17), so unless a check is
about exactly that, every case gets a freshly forked interpreter image: no case
can influence the verdict on another one.  A case that hangs or kills its
process yields a result of its own ({"exc": "Timeout"} / {"exc": "Died ..."}).
"""
import os, sys, pickle, signal, select, struct, time, traceback, resource

sys.setrecursionlimit(6000)


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


class _Reader:
    def __init__(self, fd):
        self.fd, self.buf = fd, b''

    def feed(self):
        try:
            d = os.read(self.fd, 1 << 16)
        except OSError:
            d = b''
        if not d:
            return None
        self.buf += d
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack('>I', self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out


def _short_tb():
    et, ev, tb = sys.exc_info()
    fr = [f for f in traceback.extract_tb(tb) if 'plasTeX' in f.filename]
    at = ''
    if fr:
        at = ' @%s:%s' % (fr[-1].filename.split('plasTeX/')[-1], fr[-1].name)
    return '%s: %s%s' % (et.__name__, str(ev)[:200], at)


def run_one(fn, case, timeout):
    """Run fn(case) in this process, under an alarm; never raises."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        r = fn(case)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return r
    except CaseTimeout:
        return {'exc': 'Timeout'}
    except RecursionError:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return {'exc': 'RecursionError'}
    except MemoryError:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return {'exc': 'MemoryError'}
    except (Exception, SystemExit) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return {'exc': _short_tb()}


def _child(fn, cases, idxs, wfd, timeout):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('VF_DEBUG'):
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    for i in idxs:
        _send(wfd, ('start', i))
        _send(wfd, ('done', i, run_one(fn, cases[i], timeout)))
    os._exit(0)


def run(fn, cases, jobs=8, timeout=20.0, chunk=1):
    """Return [fn(c) for c in cases], computed in forked children."""
    n = len(cases)
    results = [None] * n
    queue = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]
    queue.reverse()
    live = {}  # fd -> [pid, reader, idxs, current, t_start]
    sys.stdout.flush()
    sys.stderr.flush()

    def spawn(idxs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in live:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                _child(fn, cases, idxs, w, timeout)
            finally:
                os._exit(7)
        os.close(w)
        live[r] = [pid, _Reader(r), list(idxs), None, time.time()]

    def retire(fd, why):
        pid, rd, idxs, cur, t0 = live.pop(fd)
        os.close(fd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(pid, 0)
        left = [i for i in idxs if results[i] is None]
        if left and cur is not None and results[cur] is None:
            results[cur] = {'exc': why or 'Died status %s' % st}
            left = [i for i in left if i != cur]
        elif left:
            results[left[0]] = {'exc': why or 'Died status %s' % st}
            left = left[1:]
        if left:
            queue.append(left)

    while queue or live:
        while queue and len(live) < jobs:
            spawn(queue.pop())
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            msgs = live[fd][1].feed()
            if msgs is None:
                retire(fd, None)
                continue
            for m in msgs:
                live[fd][4] = time.time()
                if m[0] == 'start':
                    live[fd][3] = m[1]
                else:
                    results[m[1]] = m[2]
        now = time.time()
        for fd in list(live):
            if now - live[fd][4] > timeout + 5:
                retire(fd, 'Timeout')
    return results
