"""C01, C02: index lists and matrix views."""
import fw


def singles(lines):
    return [dict(ops=[l]) for l in lines]


def c01(c):
    c.build("index")
    U, segs = c.pick((4, 2), (5, 2))
    cf = fw.cfg(constants=dict(U=U, MaxSegs=segs, Mode='"bfs"', Depth=0),
                invariants=["TypeOK", "NormalIsCanonical", "NormalUnique", "NormalCounts", "SortKeepsSet"],
                action_constraints=["Emit"], view="view")
    r = fw.tlc("Intervals", cf)
    c.model("Intervals exhaustive U=%d segs=%d" % (U, segs), r, "every operation from every list of at most %d intervals of 0..%d" % (segs, U - 1))
    c.replay("index", singles(r["lines"]), label="intervals-transitions")
    depth = 25
    cf = fw.cfg(spec="SimSpec", constants=dict(U=14, MaxSegs=6, Mode='"sim"', Depth=depth),
                invariants=["TypeOK", "NormalUnique"], constraints=["EmitSim"])
    r = fw.tlc_sim_parallel("Intervals", cf, c.seed, 4, c.pick(250, 4000), depth + 1)
    c.model("Intervals random behaviours U=14", r)
    c.replay("index", [dict(ops=l) for l in r["lines"]], label="intervals-behaviours")


def c02(c):
    c.build("index")
    cf = fw.cfg(constants=dict(NR=3, NC=3, MaxSegs=2, Mode='"bfs"', Depth=0),
                invariants=["ReadBack"], properties=["Untouched"], action_constraints=["Emit"])
    r = fw.tlc("Views", cf)
    c.model("Views exhaustive 3x3, <=2 segments", r, "every operation on every selection of at most 2 disjoint intervals per dimension of a 3x3 matrix")
    c.replay("index", singles(r["lines"]), label="views-transitions")
    depth = 30
    cf = fw.cfg(spec="SimSpec", constants=dict(NR=6, NC=7, MaxSegs=4, Mode='"sim"', Depth=depth),
                invariants=["ReadBack"], properties=[], constraints=["EmitSim"])
    r = fw.tlc_sim_parallel("Views", cf, c.seed, 4, c.pick(250, 4000), depth + 1)
    c.model("Views random behaviours 6x7", r)
    c.replay("index", [dict(ops=l) for l in r["lines"]], label="views-behaviours")
