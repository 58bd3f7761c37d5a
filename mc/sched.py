"""Controlled scheduling of programs that talk through files.

Each program runs in a thread; every file-system operation of the real code inside the given directory is a scheduling
point, data handed to a file reaches the directory only piece by piece (or not at all if the program dies first), and a
sleeping program wakes up when the directory has changed since it last looked.  explore() visits every reachable state
(what each program has done and seen, and the content of the directory), including the death of a program at any point."""
import builtins
import io
import os
import threading
import time as _time

from mc.chance import HarnessError, Limit


class _Abort(BaseException):
    """Ends a thread: the run is over, or the program died."""


_CUR = None  # the running Run

_real = dict(open=builtins.open, os_open=os.open, os_write=os.write, sleep=_time.sleep)
_WRAP = ["stat", "lstat", "replace", "rename", "link", "symlink", "unlink", "remove", "listdir", "scandir", "mkdir", "rmdir", "access", "truncate", "close", "fsync"]


def _under(run, p):
    try:
        return os.fspath(p).startswith(run.dir)
    except TypeError:
        return False


class _File:
    """A file opened for writing: data is buffered, and written in pieces at flush or close."""

    def __init__(self, run, f):
        self._run, self._f, self._buf, self.closed = run, f, [], False

    def write(self, s):
        self._run.alive()
        self._buf.append(s)
        return len(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def flush(self):
        run = self._run
        run.alive()
        if not self._buf:
            return
        data = self._buf[0][:0].join(self._buf)
        self._buf = []
        for piece in run.pieces(data):
            run.point(("write", self._f.name, piece))
            self._f.write(piece)
            self._f.flush()
            run.changed()

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.flush()
        finally:
            self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, k):
        if k in ("read", "readline", "readlines", "seek", "tell", "truncate", "__iter__"):
            self.flush()
        return getattr(self._f, k)


class _Reader:
    """A file opened for reading; reading is a scheduling point."""

    def __init__(self, run, f):
        self._run, self._f = run, f

    def _do(self, k, *a):
        self._run.point((k, self._f.name))
        r = getattr(self._f, k)(*a)
        self._run.saw(r)
        return r

    def read(self, *a):
        return self._do("read", *a)

    def readline(self, *a):
        return self._do("readline", *a)

    def readlines(self, *a):
        return self._do("readlines", *a)

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def __getattr__(self, k):
        return getattr(self._f, k)


def _exists(p):
    try:
        _real["lstat"](p)
        return True
    except OSError:
        return False


def _open(file, mode="r", *a, **k):
    run = _mine()
    if run is None or not (isinstance(file, int) or _under(run, file)):
        return _real["open"](file, mode, *a, **k)
    if not isinstance(file, int):
        run.point(("open", file, mode))
    writing = any(c in mode for c in "wax+")
    existed = isinstance(file, int) or _exists(file)
    try:
        f = _real["open"](file, mode, *a, **k)
    except OSError as ex:
        run.saw(type(ex).__name__)
        raise
    run.saw("opened")
    if writing:
        if "w" in mode or not existed:
            run.changed()
        return _File(run, f)
    return _Reader(run, f)


def _os_open(path, flags, *a, **k):
    run = _mine()
    if run is None or not _under(run, path):
        return _real["os_open"](path, flags, *a, **k)
    run.point(("os.open", path, flags))
    fd = _real["os_open"](path, flags, *a, **k)
    if flags & (os.O_CREAT | os.O_TRUNC):
        run.changed()
    return fd


def _os_write(fd, data):
    run = _mine()
    if run is None:
        return _real["os_write"](fd, data)
    for piece in run.pieces(bytes(data)):
        run.point(("os.write", piece))
        _real["os_write"](fd, piece)
        run.changed()
    return len(data)


def _wrap(name):
    real = getattr(os, name)
    _real[name] = real

    def f(path, *a, **k):
        run = _mine()
        if run is None or not _under(run, path):
            return real(path, *a, **k)
        run.point((name, path) + tuple(x for x in a if isinstance(x, (str, int))))
        try:
            r = real(path, *a, **k)
        except OSError as ex:
            run.saw(type(ex).__name__)
            raise
        run.saw((name, "ok", r.st_size if name in ("stat", "lstat") else sorted(r) if name == "listdir" else None))
        if name in ("replace", "rename", "link", "symlink", "unlink", "remove", "mkdir", "rmdir", "truncate"):
            run.changed()
        return r
    return f


def _sleep(s):
    run = _mine()
    if run is None:
        return _real["sleep"](s)
    run.sleep()


def _mine():
    """The run the calling thread belongs to."""
    run = _CUR
    return run if run is not None and threading.get_ident() in run.ids else None


class _Patched:
    def __enter__(self):
        self.saved = {n: getattr(os, n) for n in _WRAP if n not in ("close", "fsync")}
        for n in self.saved:
            setattr(os, n, _wrapped[n])
        builtins.open = io.open = _open
        os.open, os.write, _time.sleep = _os_open, _os_write, _sleep

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(os, n, f)
        builtins.open = io.open = _real["open"]
        os.open, os.write, _time.sleep = _real["os_open"], _real["os_write"], _real["sleep"]


_wrapped = {n: _wrap(n) for n in _WRAP if n not in ("close", "fsync")}


class Run:
    """One execution under a given sequence of scheduling choices."""

    def __init__(self, programs, directory, prefix, chunks, crash, restart, visited):
        self.programs, self.dir, self.prefix, self.chunks = programs, directory, prefix, chunks
        self.crash, self.restart, self.visited = crash, restart, visited
        n = len(programs)
        self.n = n
        self.main = threading.Semaphore(0)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.state = ["new"] * n  # new, ready, asleep, done, dead
        self.log = [[] for _ in range(n)]
        self.result = [None] * n
        self.error = [None] * n
        self.version, self.looked = 0, [0] * n
        self.ids, self.over, self.doomed = {}, False, None
        self.trace, self.crashed = [], []
        self.cur = None

    # called by the programs --------------------------------------------
    def me(self):
        return self.ids[threading.get_ident()]

    def alive(self):
        if self.over or self.state[self.me()] == "dead":
            raise _Abort()

    def point(self, what):
        i = self.me()
        self.alive()
        self.log[i].append(what)
        self._switch(i)

    def saw(self, what):
        self.log[self.me()].append(("saw", what))

    def changed(self):
        self.version += 1

    def sleep(self):
        i = self.me()
        self.alive()
        self.state[i] = "asleep"
        # polls that found nothing leave no trace
        out = []
        for x in self.log[i]:
            if x == ("saw", "FileNotFoundError") and out and out[-1][0] in ("stat", "lstat", "access"):
                out.pop()
            elif x != ("slept",):
                out.append(x)
        self.log[i] = out + [("slept",)]
        self._switch(i)
        self.state[i] = "ready"
        self.looked[i] = self.version

    def _switch(self, i):
        self.main.release()
        self.sem[i].acquire()
        self.alive()

    def pieces(self, data):
        k = self.chunks
        if k <= 0 or k >= len(data):
            return [data[j:j + 1] for j in range(len(data))]
        step = -(-len(data) // k)
        return [data[j:j + step] for j in range(0, len(data), step)]

    # scheduler ----------------------------------------------------------
    def _body(self, i):
        self.ids[threading.get_ident()] = i
        self.main.release()
        self.sem[i].acquire()
        try:
            self.alive()
            self.result[i] = self.programs[i]()
        except _Abort:
            pass
        except BaseException as ex:
            self.error[i] = ex
        if self.state[i] != "dead":
            self.state[i] = "done"
        self.main.release()

    def _start(self, i):
        t = threading.Thread(target=self._body, args=(i,), daemon=True)
        self.threads.append(t)
        t.start()
        self.main.acquire()
        self.state[i] = "ready"

    def _enabled(self, i):
        return self.state[i] == "ready" or (self.state[i] == "asleep" and self.version > self.looked[i])

    def _fs(self):
        out = []
        for d, _, fs in sorted(os.walk(self.dir)):
            for f in sorted(fs):
                with _real["open"](os.path.join(d, f), "rb") as h:
                    out.append((os.path.join(d, f), h.read()))
        return tuple(out)

    def go(self):
        """Runs to the end (or to a visited state); True if it ended by itself."""
        global _CUR
        self.threads = []
        _CUR = self
        try:
            for i in range(self.n):
                self._start(i)
            while True:
                for i in range(self.n):
                    if self.error[i] is not None:
                        raise self.error[i]
                opts = [("run", i) for i in range(self.n) if self._enabled(i)]
                if not opts and not (self.restart and any(s == "dead" for s in self.state)):
                    return True
                if len(self.crashed) < 1:
                    opts += [("die", i) for i in self.crash if self.state[i] in ("ready", "asleep")]
                if self.restart:
                    opts += [("restart", i) for i in range(self.n) if self.state[i] == "dead"]
                d = len(self.trace)
                if d >= len(self.prefix):
                    key = (tuple(map(tuple, self.log)), tuple(self.state), tuple(self._enabled(i) for i in range(self.n)), tuple(self.crashed), self._fs())
                    if key in self.visited:
                        return False
                    self.visited.add(key)
                k = self.prefix[d] if d < len(self.prefix) else 0
                if k >= len(opts):
                    raise HarnessError("replay diverged")
                if d > 3000:
                    raise Limit("more than 3000 file operations in one execution")
                self.trace.append((k, len(opts)))
                what, i = opts[k]
                if what == "die":
                    self.crashed.append(i)
                    self.state[i] = "dead"
                    self.log[i] = [("died",)]
                    self.sem[i].release()
                    self.main.acquire()
                    continue
                if what == "restart":
                    self.log[i].append(("restarted",))
                    self._start(i)
                    continue
                self.sem[i].release()
                self.main.acquire()
        finally:
            self.over = True
            for i in range(self.n):
                if self.state[i] not in ("done", "dead"):
                    self.sem[i].release()
            for t in self.threads:
                t.join(10)
            _CUR = None


def explore(make, directory, clean, judge, chunks=0, crash=(), restart=False, max_runs=200000):
    """make() -> programs (fresh closures); clean() empties the directory; judge(run) after every complete run.
    Returns (runs, states)."""
    visited = set()
    stack = [[]]
    runs = 0
    with _Patched():
        while stack:
            prefix = stack.pop()
            clean()
            r = Run(make(), directory, prefix, chunks, crash, restart, visited)
            ended = r.go()
            runs += 1
            if runs > max_runs:
                raise Limit("more than %d executions" % max_runs)
            if ended:
                judge(r)
            for d in range(len(prefix), len(r.trace)):
                k, n = r.trace[d]
                for x in range(1, n):
                    stack.append([t[0] for t in r.trace[:d]] + [x])
    return runs, len(visited)


def once(programs, directory):
    """One execution (a fixed schedule); the Run, with the state and result of every program."""
    with _Patched():
        r = Run(programs, directory, [], 1, (), False, set())
        r.go()
    return r
