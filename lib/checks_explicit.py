"""C03, C04, C05 and the explicit parts of C07, C08, C11: ExplicitSet.tla."""
import fw

STRUCT = {"ret", "contains", "containsNew", "outArgs", "notOutArgs", "inArgs", "outDers", "notOutDers", "inDers", "derFn", "errSize"}
RESOLVE = {"q", "again", "sat"}
DERIV = {"J", "fill", "dep", "dofDep"}
RHS = {"rhs", "setRhs.each", "setAllRhs.each", "reread.each", "fromInput.each", "fromInput1.each", "fromInput.ret"}
VERDICT = {"err", "ok", "check.each", "sat"}


def explore(c, bfs=True, sim=(150, 3000), types=None, depth=40):
    """All behaviours of the specification used by the checks, as tests."""
    jobs = []
    if bfs:
        T = types or c.pick('<<"S", "R", "C", "R">>', '<<"R", "C", "R", "S", "R">>')
        cb = fw.cfg(constants=dict(Types=T, Mode='"bfs"', Depth=0, MaxCs=3),
                    invariants=["TypeOK", "Partition", "Acyclic", "Resolved", "OrderFree"], action_constraints=["Emit"], view="view")
        jobs.append(("ExplicitSet exhaustive %s" % T, lambda: fw.tlc("ExplicitSet", cb, timeout=800),
                     "every sequence of candidate constraints over %s, then resolution" % T))
    for k, T in enumerate(['<<"R", "C", "R", "S", "R", "C", "R">>', '<<"C", "R", "R", "R", "S", "R", "R", "R">>']):
        cs = fw.cfg(spec="SimSpec", constants=dict(Types=T, Mode='"sim"', Depth=depth, MaxCs=6),
                    invariants=["TypeOK", "Partition", "Acyclic"], constraints=["EmitSim"])
        jobs.append(("ExplicitSet random behaviours %s" % T,
                     lambda cs=cs, k=k: fw.tlc_sim_parallel("ExplicitSet", cs, c.seed * 10 + k, 2, c.pick(*sim), depth + 1), None))
    tests = []
    for (name, _, ex), r in zip(jobs, fw.parallel(*[j[1] for j in jobs])):
        c.model(name, r, ex)
        tests += [dict(ops=l) for l in r["lines"]]
    return tests


def run(c, fields, **kw):
    c.build("explset")
    tests = explore(c, **kw)
    c.replay("explset", tests, fields=fields, label="explicit-set")


def c03(c):
    run(c, STRUCT)


def c04(c):
    run(c, RESOLVE)


def c05(c):
    run(c, DERIV)
    import checks_problem as p
    c.build("explset", "problem")
    c.replay("problem", p.explore(c), fields={"jac.J", "jac.J2"}, label="problem")
    import checks_robot
    checks_robot.placement_task(c, ["redJ"])
