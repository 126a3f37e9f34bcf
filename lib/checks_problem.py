"""C05-C08, C11, C13, C19, C20 on constraint problems: Problem.tla."""
import fw, checks_robot

STRUCT = {"ret", "cons", "explicit", "stacks", "contains", "dim", "redDim", "errSize", "rhsSize", "free", "impDof", "actQ", "actV", "subm", "rd2"}
INV = ["Placed", "NoDup", "Partition", "Acyclic", "RhsShape", "FromOk", "ResolveOk"]


def explore(c, bfs=True, sim=(100, 2500), linear=True, general=True, depth=40, saves=False):
    jobs = []
    T5 = '<<"R", "C", "R", "S", "R">>'
    if bfs:
        cb = fw.cfg(constants=dict(Types=T5, Mode='"bfs"', Depth=0, MaxCons=c.pick(2, 3), MaxPrio=1, LinearOnly="FALSE", Solving="FALSE", Saves="TRUE" if saves else "FALSE"),
                    invariants=INV, action_constraints=["Emit"], view="view")
        jobs.append(("Problem exhaustive", lambda: fw.tlc("Problem", cb, timeout=800, heap="8g"),
                     "every problem of up to %d constraints of a pool of 11, two priority levels, over %s" % (c.pick(2, 3), T5)))
    sims = []
    if general:
        sims.append(('<<"R", "C", "R", "S", "R", "C", "R">>', "FALSE"))
    if linear:
        sims.append(('<<"R", "R", "R", "S", "R", "R">>', "TRUE"))
    for k, (T, lin) in enumerate(sims):
        cs = fw.cfg(spec="SimSpec", constants=dict(Types=T, Mode='"sim"', Depth=depth, MaxCons=7, MaxPrio=2, LinearOnly=lin, Solving="FALSE", Saves="TRUE" if saves else "FALSE"),
                    invariants=["Placed", "NoDup", "Partition", "RhsShape", "FromOk"], constraints=["EmitSim"])
        jobs.append(("Problem random behaviours %s%s" % (T, " affine" if lin == "TRUE" else ""),
                     lambda cs=cs, k=k: fw.tlc_sim_parallel("Problem", cs, c.seed * 10 + k, c.pick(3, 4), c.pick(*sim), depth + 1, timeout=800), None))
    tests = []
    for (name, _, ex), r in zip(jobs, fw.parallel(*[j[1] for j in jobs])):
        c.model(name, r, ex)
        tests += [dict(ops=l) for l in r["lines"]]
    return tests


def run(c, fields, **kw):
    c.build("problem")
    c.replay("problem", explore(c, **kw), fields=fields, label="problem")


def c06(c):
    run(c, STRUCT)


SETTERS = ("setRhs", "setAll", "reread", "from", "from1")


def c07(c):
    c.build("problem", "explset")
    f = {o + "." + x for o in SETTERS for x in ("each", "all", "ret")}
    c.replay("problem", explore(c, linear=False), fields=f, label="problem")
    import checks_explicit as e
    c.replay("explset", e.explore(c, bfs=c.thorough), fields=e.RHS, label="explicit-set")


def c08(c):
    c.build("problem", "explset")
    c.replay("problem", explore(c, linear=False), fields={"check." + x for x in ("ok", "err", "each", "eachErr")}, label="problem")
    import checks_explicit as e
    c.replay("explset", e.explore(c, bfs=c.thorough), fields=e.VERDICT, label="explicit-set")
    import checks_robot
    checks_robot.placement_task(c, ["serr"])


def c11(c):
    c.build("problem", "explset")
    f = {"indep", "like"}
    for o in ("copy", "extract", "swap", "merge"):
        f |= {o + "." + x for x in STRUCT | {"each", "all", "opts"}}
    c.replay("problem", explore(c, linear=False), fields=f, label="problem")
    import checks_explicit as e
    c.replay("explset", e.explore(c, bfs=c.thorough), fields={o + "." + x for o in ("copy", "swap") for x in e.STRUCT | {"rhs", "each"}}, label="explicit-set")


def c12(c):
    """Problems saved in text, XML and binary archives and restored, by value and by pointer: the restored problem has the
    state the specification gives the original, and from then on everything asked to one is asked to the other."""
    c.build("problem")
    f = {"mirror"} | {"save." + x for x in (STRUCT - {"subm"}) | {"each", "all", "opts", "like"}}
    c.replay("problem", explore(c, saves=True, sim=(150, 3000)), fields=f, label="problem")
    checks_robot.c12_robot(c)
    import checks_functions
    checks_functions.c12_functions(c)


def c13(c):
    run(c, {"at.each", "at.all"}, linear=False)


def c19(c):
    run(c, {"step.Jdq", "step.fixed", "solve.lvl"}, general=False, sim=(300, 6000))


def c20(c):
    run(c, {"proj.res"}, sim=(150, 3000))


SOLVE_INV = ["SuccessIsSatisfying", "WithinBudget", "AcceptedAsIs", "AcceptedStart", "NotMadeWorse", "MaxMeansBudget",
             "ErrorMeansThree", "OptimumKept", "FailureIsHonest"]


def recorded(c, num):
    """Behaviours with solver executions, for the trace specification."""
    T = '<<"R", "C", "R", "S", "R", "C", "R">>'
    cs = fw.cfg(spec="SimSpec", constants=dict(Types=T, Mode='"sim"', Depth=40, MaxCons=6, MaxPrio=2, LinearOnly="FALSE", Solving="TRUE", Saves="FALSE"),
                constraints=["EmitSim"])
    r = fw.tlc_sim_parallel("Problem", cs, c.seed * 10 + 7, 4, num, 41, timeout=800)
    c.model("Problem random behaviours with solver executions", r)
    return [dict(ops=l) for l in r["lines"]]


def c09(c):
    """Outcome of the solver: the abstract loop satisfies the guarantees (exhaustive), recorded executions are behaviours
    of the abstract loop (trace validation), affine problems end exactly where the specification says (replay)."""
    c.build("problem")
    loop = lambda: fw.tlc("SolveLoop", fw.cfg(spec="SpecX", constants=dict(MaxIts=c.pick("{0, 1, 2, 3, 4, 5}", "{0, 1, 2, 3, 4, 5, 6, 7}")),
                                              invariants=SOLVE_INV, properties=["Terminates"]), workers=4)
    rl, recs, aff = fw.parallel(loop, lambda: recorded(c, c.pick(400, 3500)),
                                lambda: explore(c, bfs=False, general=False, sim=(150, 3000)))
    c.model("SolveLoop exhaustive", rl, "every execution of the abstract solver loop with an iteration budget of up to %d" % c.pick(5, 7))
    c.validate("SolveTrace", "problem", recs, label="solver executions", constants=dict(MaxIts="{0}"), timeout=800)
    c.replay("problem", aff, fields={"solve.st", "solve.q", "solve.st2", "solve.q2"}, label="affine problems")
    import checks_robot
    checks_robot.placement_task(c, ["honest"])
