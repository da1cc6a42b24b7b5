"""C09 time stepping: Stepper.tla (clock machine, order conditions) against the real steppers and whole runs."""
import json, os
from vlib import Violation, CheckError
import gen, sim


def check(c):
    h = c.harness("stepper", opt="-O1")
    drv = sim.build(c, ["rkdg"], opt="-O0")
    c.model("Stepper", consts="SPECIFICATION Spec\nCONSTANT MaxSteps = %d\nINVARIANTS CountersAgree SplitInStep "
            "SplitSymmetric\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n" % (200 if c.thorough else 30))
    trees = c.gen("StepperGen")
    exe = h.result()
    runs = []
    dts = [(1.0, 0), (0.375, 0.01), (86400.0, 30.0)] + ([(1e-5, 2e-9), (12.34, 0), (600.0, 1.5)] if c.thorough else [])
    for dt, ramp in dts:
        r = c.run([exe, "clock", str(40 if c.thorough else 6), "%.17g" % dt, "%.17g" % ramp])
        runs += [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith("{")]
    c.conform("StepperTrace", {"RUNS": runs}, len(runs), what="the clock of a stepper does not follow the specification")
    c.sample({k: v for k, v in runs[1].items() if k != "ev"})
    r = c.run([exe, "order"], stdin="\n".join(json.dumps(t) for t in trees).encode())
    ords = [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith("{")]
    # whole runs: number of steps made for a requested duration
    d = drv["rkdg"].result()
    m = gen.walls(gen.grid(1, 1, 1000, 1000))
    nst = []
    cases = [(10, 5, 2), (10, 3, 1), (7, 7, 1), (7, 8, 1), (1, 1, 64), (60, 7, 8), (3600, 100, 1), (1, 3, 1), (5, 3, 4)]
    cases += [(c.rng.randint(1, 300), c.rng.randint(1, 300), 2 ** c.rng.randint(0, 5)) for _ in range(40 if c.thorough else 8)]
    for T, a, b in cases:
        rec = sim.run(c, d, m, "nst", dry=True, dt=a / b, end=T)
        nst.append({"T": T, "a": a, "b": b, "n": rec[-1]["steps"]})
    c.conform("StepperOrder", {"ORD": ords, "NST": nst}, len(ords) + len(nst),
              what="order conditions or number of steps violated")
    c.sample(ords[3])
    c.sample(nst[0])
    c.assumptions += ["time steps in whole-run step counts are dyadic, so that ceil(T/dt) is exact",
                      "order conditions are checked to 5e-9 (the coefficient tables carry 14-15 digits)"]
