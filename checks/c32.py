"""Every ordered pair of small simulations in one process, and every interleaving of two that run side by side, against
each of them alone in a fresh process (all random outcomes, serial and parallel); every pair of objects, way of creating
them and attribute assignment."""
import os
import pickle
import shutil
from itertools import combinations, permutations, product
from mc import chance, env, fakempi, world as w
from mc.chance import Explorer

MV = dict(conflict_movechance=1.0, default_movechance=0.5, camp_movechance=0.0, idpcamp_movechance=0.0, max_move_speed=200.0)


# ------------------------------------------------------------------ simulations
class Data:
    """Registrations: the increase of each day and the initial number of refugees in camps."""

    def __init__(self, diffs, initial=0):
        self.diffs, self.initial = diffs, initial
        self.day0pops = {}

    def get_daily_difference(self, day, *a, **k):
        return self.diffs[day]

    def get_field(self, name, *a, **k):
        return self.initial if name == "C" else 0


def towns(e, a="A", b="B", c="C", extra=()):
    w.build([dict(name=a, location_type="conflict_zone", pop=30), dict(name=b, location_type="town", pop=10), dict(name=c, location_type="camp", capacity=10)] + list(extra),
            [(a, b, 100.0), (b, c, 100.0)], e=e)
    return e


class Sim:
    """One simulation, advanced in steps; every step returns what is observed after it."""
    yml = {}
    days = 2

    def __init__(self, m, r=0):
        self.m, self.r = m, r

    def start(self):
        # logs, camps and score tables depend on the settings, so they are read first
        self.m.S.ReadFromYML(w.yml_path(self.yml))
        return self.make()

    def make(self):
        self.e = self.m.F.Ecosystem()
        self.e.print_location_output = False
        self.network()
        return self.seen()

    def network(self):
        towns(self.e)

    def day(self, t):
        r = self.before(t)
        self.e.evolve()
        return (r, self.after(t), self.seen())

    def before(self, t):
        if t == 0:
            w.add(self.e, "A", 1)

    def after(self, t):
        return None

    def seen(self):
        return (w.eco_key(self.e), [(l.name, dict(l.attributes)) for l in self.e.locations], [round(float(x), 9) for x in self.e.spawn_weights])


class Plain(Sim):
    yml = dict(move_rules=MV)


class Other(Sim):
    """The same names for other things, in another order."""
    yml = dict(move_rules=dict(MV, conflict_movechance=0.5))

    def network(self):
        towns(self.e, "B", "C", "A", extra=[dict(name="D", location_type="idpcamp")])

    def before(self, t):
        w.add(self.e, "CB"[t], 1)


class Growing(Sim):
    yml = dict(move_rules=MV, spawn_rules=dict(insert_day0=False, sum_from_camps=False))
    diffs = [1, 0]

    def before(self, t):
        return tuple(map(int, self.m.spawning.spawn_daily_displaced(self.e, t, Data(self.diffs))))


class Shrinking(Growing):
    diffs = [-1, 2]


class Initial(Sim):
    """Agents with the demographic tables of the input directory."""
    yml = dict(move_rules=dict(MV, default_movechance=1.0))
    table = "age,Default\n7,1\n30,3\n"

    def network(self):
        shutil.rmtree("input_csv", ignore_errors=True)
        os.makedirs("input_csv")
        if self.table:
            with open("input_csv/demographics_age.csv", "w") as f:
                f.write(self.table)
        towns(self.e)
        self.m.spawning.add_initial_refugees(self.e, Data([0, 0], 1), w.loc(self.e, "C"))

    def before(self, t):
        if t == 0:
            self.m.spawning.spawn_agents(self.e, 1)


class NoTables(Initial):
    table = None


class OtherTables(Initial):
    table = "age,Default,C\n7,1,0\n50,3,1\n"


class NoInitial(Sim):
    """Never loads tables."""
    yml = dict(move_rules=MV)

    def before(self, t):
        if t == 0:
            self.m.spawning.spawn_agents(self.e, 1)


class Flood(Sim):
    yml = dict(move_rules=dict(MV, flood_rules=dict(max_flood_level=2, flood_movechances=[0.0, 0.25, 1.0], flood_loc_weights=[1.0, 0.5, 0.25])),
               spawn_rules=dict(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                                flood_driven_spawning=dict(spawn_mode="constant", displaced_per_flood_day=[0, 1, 1])))

    def network(self):
        w.build([dict(name="A", location_type="flood_zone", pop=30, attributes={"flood_level": 1}), dict(name="B", location_type="town", pop=5, attributes={"flood_level": 0}),
                 dict(name="C", location_type="camp", attributes={"flood_level": 0})], [("A", "B", 100.0), ("B", "C", 150.0)], e=self.e)

    def before(self, t):
        w.loc(self.e, "A").attributes["flood_level"] = 1 - t
        return tuple(map(int, self.m.spawning.spawn_daily_displaced(self.e, t, Data([0, 0]))))


class Decay(Sim):
    """Conflict-driven spawning; a second conflict starts later."""
    yml = dict(move_rules=MV, spawn_rules=dict(take_from_population=True, conflict_spawn_decay=[1.0, 0.5], conflict_spawn_decay_interval=1,
                                               conflict_driven_spawning=dict(spawn_mode="constant", displaced_per_conflict_day=1)))
    days = 1

    def before(self, t):
        self.e.add_conflict_zone("B")
        self.m.spawning.refresh_spawn_weights(self.e)
        return tuple(map(int, self.m.spawning.spawn_daily_displaced(self.e, t, Data([0]))))


class Fixed(Sim):
    yml = dict(move_rules=dict(MV, fixed_routes=True, awareness_level=2, pruning_threshold=2.0))
    days = 3


class Logs(Sim):
    """All logs on, with an exit from the camp."""
    yml = dict(move_rules=MV, log_levels=dict(agent=1, link=1, camp=1, idp_totals=1), spawn_rules=dict(camps_are_sinks=True))

    def network(self):
        towns(self.e)
        w.loc(self.e, "C").attributes["deactivation_probability"] = 1.0

    def after(self, t):
        import importlib
        D = importlib.import_module("flee.Diagnostics")
        r = 90 + self.r
        D.write_agents_par(r, self.e.agents, t)
        D.write_links_par(r, self.e.locations, t)
        out = []
        for fn in ("agents.out.%d" % r, "links.out.%d" % r):
            if os.path.isfile(fn):
                with open(fn) as f:
                    out.append(f.read())
        return (out, [repr(x) for x in self.e.num_arrivals], [repr(x) for x in self.e.travel_durations])


class V1(Sim):
    yml = dict(move_rules=dict(use_v1_rules=True, default_movechance=0.0, camp_movechance=0.0))


class Rules(Sim):
    yml = dict(move_rules=dict(MV, children_avoid_hazards=True, match_camp_ethnicity=True, stay_close_to_home=True, use_pop_for_loc_weight=True, awareness_level=1,
                               ChildrenAvoidHazards=True, MatchCampEthnicity=True))

    def network(self):
        towns(self.e)
        for l in self.e.locations:
            l.attributes["z"] = 5
            l.pop = 10

    def before(self, t):
        if t == 0:
            w.add(self.e, "A", 1, {"age": 7, "gender": "female", "ethnicity": "z"})


FILES = {"l.csv": '#"name","region","country","lat","lon","location_type","conflict_date","pop"\nA,R,X,0,0,conflict_zone,0,30\nB,R,X,0,1,town,0,10\nC,R,Y,0,2,camp,0,40\nD,R,X,0,3,conflict_zone,1,20\n',
         "r.csv": "#name1,name2,distance,forced_redirection\nA,B,100,0\nB,C,100,0\nD,B,100,0\n",
         "c.csv": "#type,name1,name2,start,end\nlink,B,C,1,3\ncountry,X,Y,5,6\n",
         "location_changes.csv": "#name,type,day\nB,camp,1\n"}


class Csv(Sim):
    yml = dict(move_rules=MV, optimisations=dict(hasten=2))
    edits = {}

    def network(self):
        for fn, txt in FILES.items():
            txt = self.edits.get(fn, txt)
            if txt is None:
                if os.path.exists(fn):
                    os.remove(fn)
                continue
            with open(fn, "w") as f:
                f.write(txt)
        self.ig = ig = self.m.IG.InputGeography()
        ig.ReadLocationsFromCSV("l.csv")
        ig.ReadLinksFromCSV("r.csv")
        ig.ReadClosuresFromCSV("c.csv")
        self.e, _ = ig.StoreInputGeographyInEcosystem(self.e)
        os.remove("location_changes.csv") if os.path.exists("location_changes.csv") else None

    def before(self, t):
        self.ig.AddNewConflictZones(self.e, t)
        self.e.enact_border_closures(t)
        if t == 0:
            w.add(self.e, "A", 1)


class CsvOther(Csv):
    edits = {"location_changes.csv": None, "c.csv": "#none\n", "r.csv": "#name1,name2,distance\nA,B,100\nB,D,50\n"}


class CsvConflicts(Csv):
    yml = dict(move_rules=MV, conflict_input_file="conflicts.csv")

    def network(self):
        with open("conflicts.csv", "w") as f:
            f.write("#Day,A,B\n0,1.0,0.0\n1,0.0,0.5\n2,0.0,0.5\n")
        Csv.network(self)


SIMS = [Plain, Other, Growing, Shrinking, Initial, NoTables, OtherTables, NoInitial, Flood, Decay, Fixed, Logs, V1, Rules, Csv, CsvOther, CsvConflicts]
PARALLEL = [Plain, Other, Growing, Shrinking, NoTables, NoInitial, Flood, Decay, Fixed, V1, Csv, CsvOther]
TABLES = (Initial, NoTables, OtherTables)  # these also leave tables behind in the input directory


# ------------------------------------------------------------------ running them
class Serial:
    size = 0

    def __init__(self):
        self.m = w.mods()

    def make(self, cls):
        return cls(self.m)

    def call(self, s, name, *a):
        return getattr(s, name)(*a)


class Par:
    def __init__(self, size):
        self.W = fakempi.World(size)

    def make(self, cls):
        return [cls(m, r) for r, m in enumerate(self.W.m)]

    def call(self, s, name, *a):
        return tuple(self.W.each(lambda m, r: getattr(s[r], name)(*a)))


def machine(size):
    return Par(size) if size else Serial()


def directory(name):
    d = os.path.join(env.SCRATCH, "w%d" % os.getpid(), name)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def whole(M, cls):
    """A complete simulation in its own directory."""
    directory("dir_" + cls.__name__)
    s = M.make(cls)
    out = [M.call(s, "start")]
    for t in range(cls.days):
        out.append(M.call(s, "day", t))
    return repr(out)


class Forward(Explorer):
    def one(self, fn, prefix):
        """(probability, result, trace, choices) of the execution with the given first choices."""
        self.prefix, self.trace, self.prob = list(prefix), [], 1.0
        saved, chance.CUR = chance.CUR, self
        p = chance.Patch()
        p.install()
        try:
            r = fn()
        finally:
            p.remove()
            chance.CUR = saved
        return self.prob, r, list(self.trace)


def forked(fn, size=0):
    """fn() in a forked process, in which the code is imported but nothing has run yet."""
    machine(size)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            r = (True, fn())
        except BaseException as ex:
            r = (False, "%s: %s" % (type(ex).__name__, ex))
        with os.fdopen(wr, "wb") as f:
            pickle.dump(r, f)
        shutil.rmtree(os.path.join(env.SCRATCH, "w%d" % os.getpid()), ignore_errors=True)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    ok, r = pickle.loads(raw)
    if not ok:
        raise RuntimeError(r)
    return r


_alone = {}


def alone(cls, size):
    """All executions of a simulation, each in a process of its own: [(probability, result)]."""
    k = (cls.__name__, size)
    if k not in _alone:
        out, prefix = [], []
        while True:
            p, r, tr = forked(lambda: Forward().one(lambda: whole(machine(size), cls), prefix), size)
            out.append((round(p, 12), r))
            while tr and tr[-1][0] + 1 >= tr[-1][1]:
                tr.pop()
            if not tr:
                break
            a, _ = tr.pop()
            prefix = [x for x, _ in tr] + [a + 1]
        _alone[k] = out
    return _alone[k]


def dist(pairs):
    d = {}
    for p, r in pairs:
        d[r] = d.get(r, 0.0) + p
    return d


def after(ctx, a, b, size):
    """b after every execution of a."""
    want = dist(alone(b, size))

    def run():
        M = machine(size)
        res = []
        for p, r, tr in Explorer().explore(lambda: whole(M, a)):
            res.append((tr, dist([(q, s) for q, s, _ in Explorer().explore(lambda: whole(M, b))]), None))
            if len(res) >= 12 and not ctx.thorough:
                break
        return res
    for tr, got, _ in forked(run, size):
        compare(ctx, "%s after %s (choices %r), processes %d" % (b.__name__, a.__name__, tr, size), got, want)
        ctx.traces += 1
        ctx.transitions += len(got)
        for k in got:
            ctx.state((b.__name__, size, k))


def compare(ctx, what, got, want):
    for k in sorted(set(got) | set(want)):
        if abs(got.get(k, 0.0) - want.get(k, 0.0)) > 1e-9:
            other = [x for x in want if x not in got] or sorted(want)
            ctx.fail("%s: %s has probability %r, alone it has %r (alone, for example: %s)" % (what, k[:700], got.get(k, 0.0), want.get(k, 0.0), other[0][:700]))


def interleaved(ctx, a, b, order, size):
    """Both simulations alive at once (with the same settings); order says whose turn it is."""
    wa, wb = dist(alone(a, size)), dist(alone(b, size))

    def run():
        M = machine(size)

        def once():
            ss, outs = [M.make(a), M.make(b)], [[], []]
            pc = [0, 0]
            for k in order:
                directory("dir_%d" % k)
                outs[k].append(M.call(ss[k], "start") if pc[k] == 0 else M.call(ss[k], "day", pc[k] - 1))
                pc[k] += 1
            return repr(outs[0]), repr(outs[1])
        d = {}
        for p, r, _ in Explorer().explore(once):
            d[r] = d.get(r, 0.0) + p
        return d
    got = forked(run, size)
    for x in (0, 1):
        d, want = {}, (wa, wb)[x]
        for k, p in got.items():
            d[k[x]] = d.get(k[x], 0.0) + p
        compare(ctx, "%s and %s side by side in the order %r, processes %d" % (a.__name__, b.__name__, order, size), d, want)
    if len(got) != len(wa) * len(wb):
        ctx.fail("%s and %s side by side: %d joint outcomes, expected %d" % (a.__name__, b.__name__, len(got), len(wa) * len(wb)))
    ctx.traces += 1
    ctx.transitions += len(got)


class Plain1(Plain):
    days = 1


class Reverse(Plain1):
    def network(self):
        towns(self.e, "C", "B", "A", extra=[dict(name="D", location_type="town")])

    def before(self, t):
        w.add(self.e, "D", 1)
        w.add(self.e, "C", 1)


class Grow1(Growing):
    yml = dict(Growing.yml, move_rules=dict(MV, default_movechance=1.0))


class Shrink1(Shrinking):
    yml = Grow1.yml


class Tables1(Initial):
    yml = Grow1.yml
    days = 1
    before = Sim.before


class Free1(NoInitial):
    yml = Grow1.yml
    days = 1


class Fixed1(Fixed):
    days = 1


class Fixed2(Fixed):
    days = 1

    def network(self):
        towns(self.e, "C", "B", "A")

    def before(self, t):
        w.add(self.e, "C", 1)


SAME = [(Plain1, Reverse), (Plain1, Plain1), (Grow1, Shrink1), (Shrink1, Shrink1), (Grow1, Tables1), (Shrink1, Free1), (Tables1, Free1), (Fixed1, Fixed2)]


# ------------------------------------------------------------------ objects
def made_by_default(m, e):
    for n, t in (("A", "conflict_zone"), ("B", "town"), ("C", "camp")):
        e.addLocation(name=n, location_type=t, pop=10)
    e.linkUp("A", "B", 10.0)
    e.linkUp("B", "C", 10.0)
    e.addAgent(w.loc(e, "A"), {})
    e.insertAgent(w.loc(e, "B"))
    e.insertAgent(w.loc(e, "B"))
    e.insertAgents(w.loc(e, "B"), 2)


def made_from_one(m, e):
    d = {"x": 1}
    for n, t in (("A", "conflict_zone"), ("B", "town"), ("C", "camp")):
        e.addLocation(name=n, location_type=t, pop=10, attributes=d)
    e.linkUp("A", "B", 10.0, attributes=d)
    e.linkUp("B", "C", 10.0, attributes=d)
    e.addAgent(w.loc(e, "A"), d)
    e.addAgent(w.loc(e, "A"), d)
    e.insertAgent(w.loc(e, "B"), d)
    e.insertAgent(location=w.loc(e, "B"), attributes=d)


def made_from_files(m, e):
    for fn, txt in FILES.items():
        if fn != "location_changes.csv":
            txt = txt.replace('"pop"', '"pop","x"').replace("direction", "direction,x").replace(",0,30\n", ",0,30,1\n").replace(",0,10\n", ",0,10,1\n").replace(
                ",0,40\n", ",0,40,1\n").replace(",1,20\n", ",1,20,1\n").replace("100,0\n", "100,0,1\n")
        else:
            continue
        with open(fn, "w") as f:
            f.write(txt)
    if os.path.exists("location_changes.csv"):
        os.remove("location_changes.csv")
    ig = m.IG.InputGeography()
    ig.ReadLocationsFromCSV("l.csv")
    ig.ReadLinksFromCSV("r.csv")
    ig.ReadClosuresFromCSV("c.csv")
    ig.StoreInputGeographyInEcosystem(e)
    with open("agents.csv", "w") as f:
        f.write("#location,x,y\nA,1,2\nA,1,2\nB,1,2\n")
    m.S.spawn_rules["read_from_agents_csv_file"] = True
    ig.ReadAgentsFromCSV(e, "agents.csv")


def made_by_spawning(m, e):
    made_by_default(m, e)
    shutil.rmtree("input_csv", ignore_errors=True)
    os.makedirs("input_csv")
    with open("input_csv/demographics_x.csv", "w") as f:
        f.write("x,Default\n1,1\n")
    m.spawning.add_initial_refugees(e, Data([0], 2), w.loc(e, "C"))
    m.spawning.spawn_agents(e, 2)
    m.spawning.spawn_daily_displaced(e, 1, Data([0, 2]))


MADE = [made_by_default, made_from_one, made_from_files, made_by_spawning]


def things(e):
    """Every place, directed road and agent with a stable name. Both directions of one road are one road."""
    out = [("place %s" % l.name, l, l.name) for l in e.locations]
    for l in e.locations:
        for k in l.links:
            out.append(("road %s-%s" % (l.name, k.endpoint.name), k, "road " + "-".join(sorted((l.name, k.endpoint.name)))))
    out += [("agent %d" % i, a, i) for i, a in enumerate(e.agents)]
    return out


def assign(x, how, v):
    if how == "set":
        if hasattr(x, "setAttribute"):
            x.setAttribute("x", v)
        else:
            x.attributes["x"] = v
    elif how == "new":
        x.attributes["new"] = v
    elif how == "remove":
        x.attributes.pop("x", None)
    elif how == "replace":
        x.attributes = {"x": v}
    elif how == "clear":
        x.attributes.clear()


def objects(ctx, make, size, steps):
    what = "%s, processes %d, %d steps" % (make.__name__, size, steps)
    cfg = dict(move_rules=dict(MV, default_movechance=1.0), spawn_rules=dict(insert_day0=True, sum_from_camps=False))

    def two():
        """Two ecosystems made in the same way."""
        if size:
            W = fakempi.World(1)
            m = W.m[0]
        else:
            m = w.mods()
        m.S.ReadFromYML(w.yml_path(cfg))
        es = []
        for _ in range(2):
            e = m.F.Ecosystem()
            e.print_location_output = False
            make(m, e)
            es.append(e)
        for _ in range(steps):
            for e in es:
                e.evolve()
        return es

    def run():
        es = two()
        t = [("%s of simulation %d" % (n, k), x, (k, i)) for k, e in enumerate(es) for n, x, i in things(e)]
        base = [dict(x.attributes) for _, x, _ in t]
        n = 0
        for how1, how2 in product(("set", "new", "remove", "replace", "clear"), repeat=2):
            for i in range(len(t)):
                for j in ([i] if how1 != "set" else range(len(t))):
                    assign(t[i][1], how1, 11)
                    assign(t[j][1], how2, 12)
                    n += 1
                    for k, (nm, x, road) in enumerate(t):
                        if road not in (t[i][2], t[j][2]) and dict(x.attributes) != base[k]:
                            return ("%s: %s changed from %r to %r when %s was %s and %s was %s" % (what, nm, base[k], dict(x.attributes), t[i][0], how1, t[j][0], how2)), n
                    if i != j and t[i][2] != t[j][2] and t[i][1].attributes != expected(base[i], how1, 11):
                        return ("%s: after %s, %s has %r" % (what, how1, t[i][0], t[i][1].attributes)), n
                    if i == j and t[i][1].attributes != expected(expected(base[i], how1, 11), how2, 12):
                        return ("%s: after %s and %s, %s has %r" % (what, how1, how2, t[i][0], t[i][1].attributes)), n
                    for k, (nm, x, road) in enumerate(t):
                        if road in (t[i][2], t[j][2]):
                            x.attributes = dict(base[k])
        return None, n
    # the executions of the random draws do not matter here: the first one
    p, (bad, n), tr = forked(lambda: Forward().one(run, []), size)
    if bad:
        ctx.fail(bad)
    ctx.transitions += n
    ctx.traces += 1
    ctx.state(what)


def expected(d, how, v):
    d = dict(d)
    if how == "set":
        d["x"] = v
    elif how == "new":
        d["new"] = v
    elif how == "remove":
        d.pop("x", None)
    else:
        d = {"x": v} if how == "replace" else {}
    return d


def check(ctx):
    items = []
    for size, sims in ((0, SIMS), (2, PARALLEL)) + (((3, PARALLEL),) if ctx.thorough else ()):
        for b in sims:
            items.append([("%s after %s, processes %d" % (b.__name__, a.__name__, size), after, a, b, size) for a in sims])
    for a, b in SAME:
        na, nb = a.days + 1, b.days + 1
        orders = [tuple(0 if i in c else 1 for i in range(na + nb)) for c in combinations(range(na + nb), na)]
        items.append([("%s and %s in the order %r, processes 0" % (a.__name__, b.__name__, o), interleaved, a, b, o, 0) for o in orders])
    for make in MADE:
        for size in (0, 1):
            items.append([("objects %s, processes %d, %d steps" % (make.__name__, size, k), objects, make, size, k) for k in (0, 2)])

    def batch(c, part, parts):
        for group in items[part::parts]:
            for x in group:
                c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, len(items))
    ctx.bounds = dict(simulations=len(SIMS), parallel_simulations=len(PARALLEL), ordered_pairs=len(SIMS) ** 2 + len(PARALLEL) ** 2, days=3, side_by_side=len(SAME), assignments_in_a_row=2)
