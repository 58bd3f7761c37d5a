"""The real run scripts, executed in this process on one or several simulated processes."""
import builtins
import io
import os
import sys
import threading

from mc import env, fakempi, world as w

_code = {}


def code(name):
    if name not in _code:
        fn = os.path.join(env.REPO, "runscripts", name)
        with open(fn) as f:
            _code[name] = compile(f.read(), fn, "exec")
    return _code[name]


class Out(io.TextIOBase):
    """A standard output shared by all processes that remembers who wrote what."""

    def __init__(self):
        self.parts = []
        self.rank = {}

    def writable(self):
        return True

    def write(self, s):
        self.parts.append((self.rank.get(threading.get_ident(), 0), s))
        return len(s)

    def flush(self):
        pass

    def text(self):
        """Lines in the order in which they were completed."""
        pend, out = {}, []
        for r, s in self.parts:
            s = pend.get(r, "") + s
            *full, pend[r] = s.split("\n")
            out += full
        out += [x for x in pend.values() if x]
        return out


def run(name, args, size, watch):
    """Run a script with size processes (0: the sequential one); watch(rank, ecosystem) is called on every
    process after every time step.  Lines of standard output."""
    out = Out()
    saved = sys.argv, sys.stdout, sys.path
    sys.argv, sys.stdout = [name] + list(args), out
    sys.path = [os.path.join(env.REPO, "runscripts")] + sys.path

    def body(m, r, imp):
        out.rank[threading.get_ident()] = r
        S = m.S
        S.log_levels, S.spawn_rules, S.move_rules, S.optimisations = {}, {}, {}, {}
        w.reset_globals(m)
        E = m.F.Ecosystem
        real = E.evolve

        def evolve(self, *a, **k):
            x = real(self, *a, **k)
            watch(r, self)
            return x
        E.evolve = evolve
        b = dict(vars(builtins))
        b["__import__"] = imp
        try:
            exec(code(name), {"__name__": "__main__", "__builtins__": b, "__file__": name})
        finally:
            E.evolve = real
    try:
        if size == 0:
            body(w.mods(), 0, __import__)
        else:
            W = fakempi.World(size)
            for m in W.m:
                fakempi.forget(m)
            W.each(lambda m, r: body(m, r, fakempi.importer(m)))
    finally:
        sys.argv, sys.stdout, sys.path = saved
    return out.text()
