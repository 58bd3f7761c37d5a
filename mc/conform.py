"""The same story on the MPI stand-in and on the real MPI: python -m mc.conform REPO OUT MODE LATENCY under mpirun."""
import json
import os
import shutil
import subprocess
import sys

import numpy as np

LOCS = [("A", "conflict_zone", 40), ("B", "town", 10), ("C", "camp", 0), ("D", "idpcamp", 4), ("E", "town", 5), ("F", "camp", 0), ("G", "town", 3)]
ROADS = [("A", "B", 150.0), ("B", "C", 150.0), ("D", "E", 90.0), ("E", "F", 700.0), ("G", "F", 120.0)]
RULES = dict(awareness_level=2, conflict_movechance=1.0, default_movechance=1.0, camp_movechance=0.0, idpcamp_movechance=1.0,
             max_move_speed=200.0, start_on_foot=False, foreign_weight=1.5)


def look(P, e):
    """What one process holds."""
    return dict(time=e.time, total=int(e.numAgents()), own=int(e.numAgentsOnRank()), idps=int(e.numIDPs()), rank0=bool(e.getRankN(0)),
                places=[[l.name, int(l.numAgents), [[k.endpoint.name, int(k.numAgents)] for k in l.links], len(l.closed_links),
                         float(l.getScore(1)), int(l.numAgentsSpawned), sorted((k, [float(v[0]), list(v[1])]) for k, v in l.routes.items())] for l in e.locations],
                agents=[[a.location.name if not a.travelling else a.location.startpoint.name + ">" + a.location.endpoint.name,
                         float(a.distance_travelled_on_link), sorted(a.attributes.items())] for a in e.agents],
                arrivals=[int(x) for x in e.num_arrivals])


def story(P, S, yml, mode, latency, fixed):
    """A story without chance: every place has at most one road out."""
    S.ReadFromYML(yml)
    e = P.Ecosystem()
    e.parallel_mode, e.latency_mode = mode, latency
    seen = []
    for n, t, pop in LOCS:
        e.addLocation(name=n, location_type=t, pop=pop, foreign=n in "CF", capacity=6 if t == "camp" else -1)
    by = {l.name: l for l in e.locations}
    for a, b, d in ROADS:
        e.linkUp(a, b, d, attributes={"max_move_speed": "120"} if a == "E" else {})
        e.remove_link(b, a, twoway=False)
    e.addAgent(by["A"], {"x": "1"})
    e.addAgent(by["D"], {})
    e.insertAgents(by["E"], 3)
    seen.append(look(P, e))
    for t in range(7):
        if t in (1, 2):
            for l in e.pick_spawn_locations(2):
                e.addAgent(l, {"t": str(t)})
        if t == 2:
            e.close_link("E", "F", twoway=False)
            e.insertAgent(by["G"], {})
        if t == 3:
            e.clearLocationsFromAgents(["D", "G", "Z"])
            e.set_conflict_intensity("B", 0.5)
        if t == 4:
            e.reopen_link("E", "F", twoway=False)
            e.change_location_type("G", "idpcamp")
            e.insertAgents(by["G"], 2)
        if t == 5:
            e.addLocation(name="H", location_type="town", pop=2)
            e.addAgent(e.locations[-1], {})
        e.evolve()
        seen.append(look(P, e))
        if t == 2:
            seen.append([int(x) for x in e.mpi.CalcCommWorldTotal(np.array([e.numAgentsOnRank(), 1], dtype="i"))])
            seen.append(float(e.mpi.CalcCommWorldTotalSingle(e.numAgentsOnRank())))
    return seen


def write_yml(path, fixed):
    with open(path, "w") as f:
        f.write("log_levels:\n  camp: 1\nspawn_rules:\n  take_from_population: true\nmove_rules:\n  fixed_routes: %s\n" % str(bool(fixed)).lower())
        for k, v in RULES.items():
            f.write("  %s: %s\n" % (k, str(v).lower() if isinstance(v, bool) else v))


def launch(size, args, cwd):
    """(return code, stderr) of mpirun; None when there is no usable MPI here."""
    if not shutil.which("mpirun"):
        return None
    e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        p = subprocess.run(["mpirun", "--oversubscribe", "-n", str(size), sys.executable] + args, cwd=cwd, env=e, capture_output=True,
                           text=True, timeout=120, stdin=subprocess.DEVNULL)
    except (OSError, subprocess.TimeoutExpired) as ex:
        return 99, str(ex)
    return p.returncode, p.stderr


if __name__ == "__main__":
    repo, out, yml, mode, latency, fixed = sys.argv[1:7]
    if repo == "hello":
        from mpi4py import MPI
        n = MPI.COMM_WORLD.allreduce(1)
        open("%s.%d" % (out, MPI.COMM_WORLD.Get_rank()), "w").write(str(n))
        sys.exit(0)
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    from flee import pflee
    from flee.SimulationSettings import SimulationSettings
    import mpi4py.MPI as M
    r = story(pflee, SimulationSettings, yml, mode, latency, fixed == "1")
    with open("%s.%d" % (out, M.COMM_WORLD.Get_rank()), "w") as f:
        json.dump(r, f)
