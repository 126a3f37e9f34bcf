"""C14, C15 and the restriction to intervals of C13: Composition.tla."""
import fw

INV = ["DerivExact", "SoundDep", "DiffNeutral", "WellSized"]


def covers(e, o, op, t):
    """What must be declared active is."""
    return isinstance(o, list) and len(o) == len(e) and all(b is True for a, b in zip(e, o) if a)


def relation(e, o, op, t):
    """The relation expected, and in any case an equivalence."""
    n = len(e)
    if not (isinstance(o, list) and len(o) == n and fw.same(e, o)):
        return False
    return all(isinstance(x, bool) for r in o for x in r) and all(o[i][i] for i in range(n)) and \
        all(o[i][j] == o[j][i] for i in range(n) for j in range(n)) and \
        all(o[i][k] or not (o[i][j] and o[j][k]) for i in range(n) for j in range(n) for k in range(n))


def near(e, o, op, t):
    return fw.same(e, o, 2e-4)


COMPARE = dict(act=covers, actD=covers, eq=relation, eqc=relation, fd=near)


def explore(c, sim=(600, 12000), depth=30, procs=4, saves=False):
    S = "TRUE" if saves else "FALSE"
    bfs = lambda: fw.tlc("Composition", fw.cfg(constants=dict(Mode='"bfs"', Depth=0, Saves=S), invariants=INV, action_constraints=["Emit"], view="bfsview"), timeout=800)
    sm = lambda: fw.tlc_sim_parallel("Composition", fw.cfg(spec="SimSpec", constants=dict(Mode='"sim"', Depth=depth, Saves=S), invariants=INV, constraints=["EmitSim"]),
                                     c.seed * 7, procs, c.pick(*sim), depth + 1, timeout=800)
    b, s = fw.parallel(bfs, sm)
    c.model("Composition exhaustive", b, "13 leaf functions, every composite of each over 7 configuration spaces, every point of a grid")
    c.model("Composition random", s)
    return [dict(ops=l) for l in b["lines"] + s["lines"]]


def c13(c):
    import checks_problem as p
    p.c13(c)
    c.build("problem", "composition")
    tests = [t for t in explore(c) if any(o["op"] == "mk" and o["f"]["kind"] == "extract" for o in t["ops"])]
    for t in tests:
        for o in t["ops"]:
            if o["op"] == "eval" and not o.get("time"):
                o.pop("exp", None)
    c.replay("composition", [t for t in tests if any(o["op"] == "eval" and "exp" in o for o in t["ops"])], fields={"val", "jac"}, label="restriction to an interval", compare=COMPARE)


def c14(c):
    c.build("composition")
    c.replay("composition", explore(c), fields={"nq", "nv", "onq", "onv", "act", "actD", "val", "jac", "sound", "fd"}, label="composition", compare=COMPARE)


def c15(c):
    c.build("composition")
    c.replay("composition", explore(c), fields={"eq", "eqc", "made"}, label="equality", compare=COMPARE)
    import checks_robot as r
    r.c15_robot(c)
    r.c15_placement(c)


def c12_functions(c):
    """Functions restored from archives, alone and as parts of others (for C12)."""
    import checks_robot as r
    c.build("composition")
    f = {"saved", "nq", "nv", "onq", "onv", "act", "actD", "val", "jac", "sound", "fd", "eq"}
    tests = [t for t in explore(c, sim=(300, 6000), saves=True) if any(o["op"] == "save" for o in t["ops"])]
    for t in tests:
        # what comes before the first restored function is judged elsewhere
        k = next(i for i, o in enumerate(t["ops"]) if o["op"] == "save")
        for o in t["ops"][:k]:
            o.pop("exp", None)
    c.replay("composition", tests, fields=f, label="restored", compare=COMPARE)
