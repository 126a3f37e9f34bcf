"""Which checks exist, and how MANIFEST.json describes them."""
T = "explicit TLA+ specification model-checked with TLC; its behaviours replayed step by step into the real code"
N = ("TLC visits every state of the bounded model and checks the design invariants; one test of the real code is run per "
     "model transition, plus seeded long random behaviours of the model. Trusts TLC, the driver's projection of the public API, and the bounds stated in the evidence.")
REG = {
    "C01": dict(mod="checks_index", fn="c01", technique=T, note=N),
    "C02": dict(mod="checks_index", fn="c02", technique=T, note=N),
    "C03": dict(mod="checks_explicit", fn="c03", technique=T, note=N),
    "C04": dict(mod="checks_explicit", fn="c04", technique=T, note=N),
    "C05": dict(mod="checks_explicit", fn="c05", technique=T, note=N),
    "C06": dict(mod="checks_problem", fn="c06", technique=T, note=N),
    "C07": dict(mod="checks_problem", fn="c07", technique=T, note=N),
    "C08": dict(mod="checks_problem", fn="c08", technique=T, note=N),
    "C09": dict(mod="checks_problem", fn="c09",
                technique=T + "; solver executions recorded from the real code checked against a TLA+ trace specification of the solver loop", note=N),
    "C10": dict(mod="checks_robot", fn="c10", technique=T, note=N),
    "C11": dict(mod="checks_problem", fn="c11", technique=T, note=N),
    "C12": dict(mod="checks_problem", fn="c12", technique=T, note=N),
    "C13": dict(mod="checks_functions", fn="c13", technique=T, note=N),
    "C14": dict(mod="checks_functions", fn="c14", technique=T, note=N),
    "C15": dict(mod="checks_functions", fn="c15", technique=T, note=N),
    "C16": dict(mod="checks_robot", fn="c16", technique=T, note=N),
    "C17": dict(mod="checks_robot", fn="c17", technique=T, note=N),
    "C18": dict(mod="checks_robot", fn="c18", technique=T, note=N),
    "C21": dict(mod="checks_robot", fn="c21", technique=T, note=N),
    "C19": dict(mod="checks_problem", fn="c19", technique=T, note=N),
    "C20": dict(mod="checks_problem", fn="c20", technique=T, note=N),
}
NOT_APPLICABLE = {}
