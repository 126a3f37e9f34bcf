"""C10 and the geometric properties: specifications that describe robots."""
import math
import fw
import checks_problem as problem

SAT_INV = ["WithinBounds", "Idempotent", "OthersKept", "FlagSide", "NoFlag"]


def c10(c):
    """Clamping (Saturation.tla, every box and configuration of a small range, then random robots), and its effect on the
    steps of a solver (Problem.tla, affine problems, exact)."""
    c.build("saturation", "problem")
    bfs = lambda: fw.tlc("Saturation", fw.cfg(constants=dict(Mode='"bfs"', Depth=0), invariants=SAT_INV, action_constraints=["Emit"], view="bfsview"), timeout=800)
    sim = lambda: fw.tlc_sim_parallel("Saturation", fw.cfg(spec="SimSpec", constants=dict(Mode='"sim"', Depth=20), invariants=SAT_INV, constraints=["EmitSim"]),
                                      c.seed, 3, c.pick(300, 6000), 21, timeout=800)
    b, s, p = fw.parallel(bfs, sim, lambda: problem.explore(c, bfs=False, general=False, sim=(250, 5000)))
    c.model("Saturation exhaustive", b, "every box of three entries with bounds of a pool of 4, five maps to velocity variables, every configuration of -2..2")
    c.model("Saturation random robots and boxes", s)
    c.replay("saturation", [dict(ops=l) for l in b["lines"] + s["lines"]], label="saturation")
    c.replay("problem", p, fields={"bstep.q", "bstep.q2", "bstep.inside"}, label="steps within bounds")


def scaled(e, o, op, t):
    """e is n/d (n a vector or a matrix), a pose, or a matrix of fractions."""
    if isinstance(e, dict) and "half" in e and e["half"]:
        return isinstance(o, list) and fw.same(e["n"][:3], o[:3])  # the logarithm of half a turn has no derivative
    if isinstance(e, dict) and "pose" in e:
        return fw.same(e["pose"], o)
    if isinstance(e, dict) and "mat" in e:
        return fw.same(e["mat"], o)
    d = e["d"]

    def div(x):
        return [div(y) for y in x] if isinstance(x, list) else {"n": x, "d": d}
    return fw.same(div(e["n"]), o)


CALC_INV = ["DerivExact", "FreshClosed", "Positive"]


def c16(c):
    """Expressions in the poses of joints (Calculus.tla)."""
    c.build("calculus")
    bfs = lambda: fw.tlc("Calculus", fw.cfg(constants=dict(Mode='"bfs"', Depth=0), invariants=CALC_INV, action_constraints=["Emit"], view="bfsview"), timeout=800, workers=4)
    sim = lambda: fw.tlc_sim_parallel("Calculus", fw.cfg(spec="SimSpec", constants=dict(Mode='"sim"', Depth=30), invariants=CALC_INV, constraints=["EmitSim"]),
                                      c.seed * 3, 4, c.pick(300, 6000), 31, timeout=800)
    b, s = fw.parallel(bfs, sim)
    c.model("Calculus exhaustive", b, "a robot of three joints, every pair of 8 leaf expressions under every operator, every order of two computations, before and after a change of configuration")
    c.model("Calculus random robots and expressions", s)
    cmp = dict(val=scaled, jac=scaled, cross=scaled, pjac=scaled)
    c.replay("calculus", [dict(ops=l) for l in b["lines"] + s["lines"]], label="calculus", compare=cmp)


# ---------------------------------------------------------------- closed forms of logarithms
def _mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def _mv(a, v):
    return [sum(x * y for x, y in zip(r, v)) for r in a]


def _tr(a):
    return [list(x) for x in zip(*a)]


def _skew(v):
    return [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]


def log3(R):
    """Logarithm of a rotation; of half a turn: one of the two."""
    c = max(-1.0, min(1.0, (R[0][0] + R[1][1] + R[2][2] - 1) / 2))
    if c < -1 + 1e-9:
        n = [math.sqrt(max(0.0, (R[i][i] + 1) / 2)) for i in range(3)]
        k = max(range(3), key=lambda i: n[i])
        n = [n[i] if i == k else (R[i][k] + R[k][i]) / (4 * n[k]) for i in range(3)]
        return [math.pi * x for x in n]
    a = [R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]]
    s = math.sqrt(sum(x * x for x in a)) / 2
    th = math.atan2(s, c)
    f = 0.5 if s < 1e-9 else th / (2 * s)
    return [f * x for x in a]


def jlog3(r):
    """r' = J w where w is the angular velocity on the left of the rotation."""
    th = math.sqrt(sum(x * x for x in r))
    S = _skew(r)
    S2 = _mm(S, S)
    k = 1.0 / 12 if th < 1e-6 else 1 / th ** 2 - (1 + math.cos(th)) / (2 * th * math.sin(th))
    return [[(1.0 if i == j else 0) - S[i][j] / 2 + k * S2[i][j] for j in range(3)] for i in range(3)]


def exp3(w):
    th = math.sqrt(sum(x * x for x in w))
    S = _skew(w)
    S2 = _mm(S, S)
    a, b = (1.0, 0.5) if th < 1e-9 else (math.sin(th) / th, (1 - math.cos(th)) / th ** 2)
    return [[(1.0 if i == j else 0) + a * S[i][j] + b * S2[i][j] for j in range(3)] for i in range(3)]


def log6(R, t):
    """Translation part first."""
    r = log3(R)
    th = math.sqrt(sum(x * x for x in r))
    S = _skew(r)
    S2 = _mm(S, S)
    k = 1.0 / 12 if th < 1e-6 else 1 / th ** 2 - math.sin(th) / (2 * th * (1 - math.cos(th)))
    V = [[(1.0 if i == j else 0) - S[i][j] / 2 + k * S2[i][j] for j in range(3)] for i in range(3)]
    return _mv(V, t) + r


def quat_rot(v):
    x, y, z, w = v
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def _pick(m, xs):
    return [x for k, x in zip(m, xs) if k]


def _conf_diff(e, dev=None):
    """Differences, variable by variable; dev = (joint, variable, step) moves the configuration first."""
    d = []
    for k, j in enumerate(e["conf"]):
        mv = (dev[1], dev[2]) if dev and dev[0] == k else None
        if "v" in j:
            d.append(j["v"] - (mv[1] if mv else 0))
        elif "qt" in j:
            d.append(j["qt"] * math.pi / 2 - (mv[1] if mv else 0))
        elif "d" in j:
            d += [x - (mv[1] if mv and mv[0] == i else 0) for i, x in enumerate(j["d"])]
        else:
            R, t = j["R"], j.get("t")
            if mv:
                w = [0.0, 0.0, 0.0]
                if t is not None and mv[0] < 3:
                    t = [x - (mv[1] if i == mv[0] else 0) for i, x in enumerate(t)]
                else:
                    w[mv[0] - (3 if t is not None else 0)] = -mv[1]
                    X = exp3(w)
                    R = _mm(X, R)
                    t = _mv(X, t) if t is not None else None
            d += log3(R) if t is None else log6(R, t)
    return d + [2.0] * e["extra"]  # extra variables: the harness gives them 1, 2... and 3, 4... as a goal


def _width(j):
    return 1 if "v" in j or "qt" in j else 6 if "t" in j else 3


def _half(e):
    return any(j.get("half") or j.get("qt") == 2 for j in e["conf"])


def _conf_value(e, dev=None):
    return 0.5 * sum(w * x * x for w, x in zip(e["weights"], _conf_diff(e, dev)))


def geo_val(e, o, op, t):
    if not isinstance(o, list):
        return False
    if "conf" in e:
        if any(j.get("half") and "t" in j for j in e["conf"]):
            return len(o) == 1
        return fw.same([_conf_value(e)], o)
    if "sq" in e:
        return fw.same([math.sqrt(e["sq"]) - 0.5 * e["less"]], o)
    if "frac" in e:
        return fw.same(e["frac"], o)
    if "det" in e:
        if e["det"] == 0:
            return len(o) == 1 and o[0] > 4
        return fw.same([max(-0.5 * math.log10(e["det"] / e["d"] ** (2 * e["rows"])), 0.0)], o)
    if "pos" not in e:
        return scaled(e, o, op, t)
    n = len(e["pos"])
    if not fw.same(e["pos"], o[:n]):
        return False
    v = o[n:]
    if e["quat"]:
        return len(v) == 4 and fw.same(e["rot"], quat_rot(v))
    r = log3(e["rot"])
    return any(fw.same(_pick(e["om"], [s * x for x in r]), v) for s in ((1, -1) if e["rot"][0][0] + e["rot"][1][1] + e["rot"][2][2] == -1 else (1,)))


def geo_jac(e, o, op, t):
    if not isinstance(o, list):
        return False
    if "skip" in e:
        return True
    if "conf" in e:
        if _half(e):
            return len(o) == 1
        row, h = [], 1e-5
        for k, j in enumerate(e["conf"]):
            for i in range(_width(j)):
                row.append((_conf_value(e, (k, i, h)) - _conf_value(e, (k, i, -h))) / (2 * h))
        row += [-2.0 * w for w in e["weights"][len(row):]]
        return fw.same([row], o, 1e-5)
    if "sq" in e:
        return fw.same([[x / math.sqrt(e["sq"]) for x in r] for r in e["n"]], o)
    if "pos" not in e:
        return scaled(e, o, op, t)
    n = len(e["pos"])
    if len(o) != n + sum(e["om"]) or not fw.same(e["pos"], o[:n]):
        return False
    if e["quat"]:
        return fw.same(_pick(e["om"], e["w"]), o[n:])
    if e["half"]:
        return True
    return fw.same(_pick(e["om"], _mm(jlog3(log3(e["rot"])), e["w"])), o[n:])


def covers(e, o, op, t):
    """What is declared covers what matters."""
    return isinstance(o, list) and len(e) == len(o) and all(b or not a for a, b in zip(e, o))


GEO_INV = ["DerivExact", "OffPath", "Exchange"]


def _tf(b):
    return "TRUE" if b else "FALSE"


def geometry_tests(c, alone=False, saves=False):
    bfs = lambda: fw.tlc("Geometry", fw.cfg(constants=dict(Mode='"bfs"', Depth=0, Saves=_tf(saves)), invariants=GEO_INV, action_constraints=["Emit"], view="bfsview"), timeout=800, workers=4)
    sim = lambda: fw.tlc_sim_parallel("Geometry", fw.cfg(spec="SimSpec", constants=dict(Mode='"sim"', Depth=40, Saves=_tf(saves)), invariants=GEO_INV, constraints=["EmitSim"]),
                                      c.seed * 5, 4, c.pick(400, 8000), 41, timeout=800)
    b, s = fw.parallel(bfs, sim) if not alone else (dict(lines=[]), sim())
    if not alone:
        c.model("Geometry exhaustive", b, "ten classes of relative pose functions, five pairs of joints, four placements of each frame, two masks, two configurations")
    c.model("Geometry random robots, functions and changes of frames", s)
    return [dict(ops=l) for l in b["lines"] + s["lines"]]


GEO_CMP = dict(val=geo_val, jac=geo_jac, active=covers, activeD=covers)


def c21(c):
    """Functions of the pose of robots (Geometry.tla)."""
    c.build("geometry")
    t = geometry_tests(c)
    c.replay("geometry", t, label="geometry", compare=GEO_CMP, fields={"val", "jac", "active", "activeD", "pair", "ref", "nq", "nv"})


# ------------------------------------------------------------------- contacts
def _logs(R):
    r = log3(R)
    return (r, [-x for x in r]) if R[0][0] + R[1][1] + R[2][2] == -1 else (r,)


def _con_rows(kind, x, r, e, M):
    con = [x[0] + e["m"]] + ([0, 0] if e["inside"] else x[1:3]) + ([0, 0] if e["point"] else r[1:3])
    com = [(x[1] if e["inside"] else 0) + 2 * e["k"] * M, (x[2] if e["inside"] else 0) + 2 * e["i"] * M, r[0]]
    return {"contact": con, "compl": com, "hold": con + com}[kind]


def con_val(e, o, op, t):
    if not isinstance(o, dict) or o["radius"] < math.sqrt(e["r2"]) - 1e-9:
        return False
    return any(fw.same(_con_rows(e["kind"], e["x"], r, e, o["radius"]), o["v"]) for r in _logs(e["rot"]))


def con_jac(e, o, op, t):
    if not isinstance(o, list):
        return False
    z = [0] * len(e["pos"][0])
    w = _mm(jlog3(log3(e["rot"])), e["w"]) if not e["half"] else [["any"] * len(z)] * 3
    con = [e["pos"][0]] + ([z, z] if e["inside"] else e["pos"][1:3]) + ([z, z] if e["point"] else list(w[1:3]))
    com = (e["pos"][1:3] if e["inside"] else [z, z]) + [w[0]]
    return fw.same({"contact": con, "compl": com, "hold": con + com}[e["kind"]], o)


def con_dist(e, o, op, t):
    d = math.sqrt(e["sq"]["n"] / e["sq"]["d"])
    return isinstance(o, (int, float)) and fw.same(-d if e["inside"] else d, o)


def con_align(e, o, op, t):
    if o == "skip":
        return True
    if not isinstance(o, dict):
        return False
    if "frame" in e:
        return fw.same(e["frame"], o)
    n, l = e["n"], math.sqrt(sum(x * x for x in e["y"]))
    y = [x / l for x in e["y"]]
    z = [n[1] * y[2] - n[2] * y[1], n[2] * y[0] - n[0] * y[2], n[0] * y[1] - n[1] * y[0]]
    return fw.same(dict(R=[list(r) for r in zip(n, y, z)], t=e["c"]), o)


def con_forces(e, o, op, t):
    if not isinstance(o, list) or len(o) != e["n"]:
        return False
    def match(a, b):
        return all(fw.same(a[k], b[k]) for k in ("j", "s", "pts")) and (fw.same(a["n"], b["n"]) or fw.same([-x for x in a["n"]], b["n"]))
    return all(any(match(a, b) for b in o) for a in e["set"]) and all(any(match(a, b) for a in e["set"]) for b in o)


CON_CMP = dict(val=con_val, jac=con_jac, dist=con_dist, align=con_align, forces=con_forces, active=covers, activeD=covers, cut=scaled, pt=scaled,
               out=lambda e, o, op, t: pl_out(e, o, op, t), solved=lambda e, o, op, t: pl_out(e, o, op, t))
CON_INV = ["Orientation", "NoCloser", "FrameOk", "Height", "Placing", "SolveOk"]


def contact_tests(c):
    bfs = lambda: fw.tlc("Contact", fw.cfg(constants=dict(Mode='"bfs"', Depth=0), invariants=CON_INV, action_constraints=["Emit"], view="bfsview"), timeout=800, workers=4)
    sim = lambda: fw.tlc_sim_parallel("Contact", fw.cfg(spec="SimSpec", constants=dict(Mode='"sim"', Depth=40), invariants=CON_INV, constraints=["EmitSim"]),
                                      c.seed * 7, 4, c.pick(300, 6000), 41, timeout=800)
    b, s = fw.parallel(bfs, sim)
    c.model("Contact exhaustive", b, "nine polygons, three sets of floors and four of objects, three configurations, points around each polygon")
    c.model("Contact random robots, surfaces and functions", s)
    return [dict(ops=l) for l in b["lines"] + s["lines"]]


def c17(c):
    """Contacts between plane surfaces (Contact.tla)."""
    c.build("contact")
    c.replay("contact", contact_tests(c), label="contact", compare=CON_CMP,
             fields=set("center normal frame dim same dist within through cut align pt nq val jac decode forces active activeD pair inC inV outC outV comp out outjac solved kept ok".split()))


def c15_robot(c):
    """Equality of functions of the pose of robots (for C15)."""
    c.build("geometry", "contact")
    c.replay("geometry", [t for t in geometry_tests(c, True) if any(o["op"] == "eq" for o in t["ops"])], label="equality of functions of the pose", fields={"equal", "sym"})
    c.replay("contact", contact_tests(c), label="contact equality", compare=CON_CMP, fields={"equal"})


# ----------------------------------------------- configurations given by a constraint
def _conf_is(e, o):
    if "parts" in e:
        for x in e["parts"]:
            n = len(x["v"]) if "v" in x else 2 if "qt" in x else len(x.get("t", [])) + 4
            if not _conf_is(x, o[:n]):
                return False
            o = o[n:]
        return not o
    if "v" in e:
        return fw.same(e["v"], o)
    if "qt" in e:
        return fw.same([[1, 0, -1, 0][e["qt"]], [0, 1, 0, -1][e["qt"]]], o)
    t = e.get("t", [])
    return len(o) == len(t) + 4 and fw.same(t, o[:len(t)]) and fw.same(e["R"], quat_rot(o[len(t):]))


def pl_out(e, o, op, t):
    return isinstance(o, list) and _conf_is(e, o)


def _logs_of(e):
    """Logarithms of an increment."""
    if "v" in e:
        return [e["v"]]
    if "qt" in e:
        k = e["qt"]
        return [[k * math.pi / 2]] + ([[-math.pi]] if k == 2 else []) + ([[-math.pi / 2]] if k == 3 else [])
    if "t" not in e:
        return list(_logs(e["R"]))
    return [log6(e["R"], e["t"])]


def pl_fn(e, o, op, t):
    if not isinstance(o, list):
        return False
    if "parts" in e:
        for x in e["parts"]:
            n = len(_logs_of(x)[0])
            if not pl_fn(x, o[:n], op, t):
                return False
            o = o[n:]
        return not o
    if "R" in e and len(o) == 7:  # a pose
        return fw.same(e["t"], o[:3]) and fw.same(e["R"], quat_rot(o[3:]))
    if "R" in e and "t" in e and HALF(e["R"]):
        return len(o) == 6
    return any(fw.same(x, o) for x in _logs_of(e))


def HALF(R):
    return R[0][0] + R[1][1] + R[2][2] == -1


def pl_fnjac(e, o, op, t):
    if not isinstance(o, list):
        return False
    if "rows" in e:
        return fw.same(e["rows"], o)
    if "parts" in e:
        for x in e["parts"]:
            n = len(_logs_of(x["diff"])[0])
            if not pl_fnjac(x, o[:n], op, t):
                return False
            o = o[n:]
        return not o
    d = e["diff"]
    n = len(_logs_of(d)[0])
    J = [[0.0] * n for _ in range(n)]
    if "R" not in d:
        for i in range(n):
            J[i][i] = 1.0
    elif HALF(d["R"]):
        return len(o) == n
    else:
        h = 1e-5
        for c in range(n):
            col = []
            for s in (h, -h):
                w = [0.0] * 3
                tr = list(d.get("t", [0, 0, 0]))
                R = d["R"]
                if n == 6 and c < 3:
                    u = [0.0] * 3
                    u[c] = s
                    tr = [a + b for a, b in zip(tr, _mv(R, u))]
                else:
                    w[c % 3] = s
                    R = _mm(R, exp3(w))
                col.append(log3(R) if n == 3 else log6(R, tr))
            for i in range(n):
                J[i][c] = (col[0][i] - col[1][i]) / (2 * h)
    if "cols" in e:
        return fw.same([[sum(r[i] * k[i] for i in range(n)) for k in e["cols"]] for r in J], o, 1e-5)
    rows = [[0.0] * e["first"] + r + [0.0] * (e["size"] - e["first"] - n) for r in J]
    return fw.same(rows, o, 1e-5)


def pl_serr(e, o, op, t):
    x = e["err"]
    if HALF(x["R"]):
        return isinstance(o, list) and len(o) == 6
    v = list(x["t"]) + list(log3(x["R"]))
    return fw.same([a if m else 0 for a, m in zip(v, e["mask"])], o)


def pl_redj(e, o, op, t):
    if not isinstance(o, list):
        return False
    n = len(e["pos"][0])
    R = e["err"]["R"]
    ang = [["any"] * n] * 3 if HALF(R) else _mm(jlog3([-x for x in log3(R)]), e["ang"]) if n else [[]] * 3
    rows = [r for r, m in zip(list(e["pos"]) + list(ang), e["mask"]) if m]
    if not o:  # left out of the problem: does not depend on what is left free
        return all(x == 0 for r in e["pos"] + e["ang"] for x in r)
    return fw.same(rows, o)


PL_CMP = dict(serr=pl_serr, redJ=pl_redj, out=pl_out, solved=pl_out, fn=pl_fn, fnjac=pl_fnjac)
PL_INV = ["Agree", "OnlyInputs", "Tangent", "Idempotent"]


def placement_tests(c, alone=False, saves=False):
    bfs = lambda: fw.tlc("Placement", fw.cfg(constants=dict(Mode='"bfs"', Depth=0, Saves=_tf(saves)), invariants=PL_INV, action_constraints=["Emit"], view="bfsview"), timeout=800, workers=4)
    sim = lambda: fw.tlc_sim_parallel("Placement", fw.cfg(spec="SimSpec", constants=dict(Mode='"sim"', Depth=40, Saves=_tf(saves)), invariants=PL_INV, constraints=["EmitSim"]),
                                      c.seed * 11, 4, c.pick(400, 8000), 41, timeout=800)
    b, s = fw.parallel(bfs, sim) if not alone else (dict(lines=[]), sim())
    if not alone:
        c.model("Placement exhaustive", b, "seven pairs of joints, two placements of each frame, two kinds of comparison, joints of all kinds locked, in whole or in part; three right hand sides, two configurations")
    c.model("Placement random robots and constraints", s)
    return [dict(ops=l) for l in b["lines"] + s["lines"]]


def c18(c):
    """Constraints that place an object or lock a joint (Placement.tla)."""
    c.build("placement")
    c.replay("placement", placement_tests(c), label="placement", compare=PL_CMP, fields=set("inC inV outC outV pair dep xdep nv out outjac fn fnjac solved kept ok".split()))


def placement_task(c, fields):
    """A pose function in a problem of the robot, with an explicit constraint or without (for C05, C08, C09)."""
    c.build("placement")
    c.replay("placement", [t for t in placement_tests(c, True) if any(o["op"] == "task" for o in t["ops"])], label="problems on robots", compare=PL_CMP, fields=set(fields))


def c15_placement(c):
    c.build("placement")
    c.replay("placement", [t for t in placement_tests(c, True) if any(o["op"] == "eq" for o in t["ops"])], label="equality of placements", fields={"equal", "sym"})


def _restored(op, t):
    """Whether the operation is on an object that was restored from an archive."""
    n, back = 0, set()
    for o in t["ops"]:
        if o is op:
            break
        if o["op"] in ("mk", "copy", "save"):
            n += 1
            if o["op"] == "save" or (o["op"] == "copy" and o["i"] in back):
                back.add(n)
        elif o["op"] == "robot":
            n, back = 0, set()
    return op["op"] == "save" or op.get("i") in back or (op["op"] == "eq" and op["k"] in back)


def _only_restored(cmp, fields):
    def one(f):
        g = cmp.get(f, lambda e, o, op, t: fw.same(e, o))
        return lambda e, o, op, t: not _restored(op, t) or g(e, o, op, t)
    return {f: one(f) for f in fields}


def c12_robot(c):
    """Functions and constraints on a robot restored from archives (for C12)."""
    c.build("geometry", "placement")
    f = set("saved val jac active activeD pair ref nq nv equal".split())
    c.replay("geometry", [t for t in geometry_tests(c, saves=True) if any(o["op"] == "save" for o in t["ops"])], label="restored functions", fields=f, compare=_only_restored(GEO_CMP, f))
    f = set("saved inC inV outC outV pair nv out outjac fn fnjac solved kept ok equal serr redJ honest".split())
    c.replay("placement", [t for t in placement_tests(c, saves=True) if any(o["op"] == "save" for o in t["ops"])], label="restored placements", fields=f, compare=_only_restored(PL_CMP, f))
