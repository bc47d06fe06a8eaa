"""One function per property: design model -> behaviours -> replay -> conformance."""
import vlib
from vlib import THOROUGH, SEED


def C01(c):
    a, b = (5, 3) if not THOROUGH else (6, 4)
    c.model("MC_Layout", f"SPECIFICATION Spec\nINVARIANT Correct\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS MaxSeg={a} MaxN={b}\n", f"every count list up to {a} segments of up to {b} intervals")
    a, b, r = (4, 4, 40) if not THOROUGH else (5, 5, 400)
    cases = c.generate("Gen_Layout", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxSeg={a} MaxN={b} "
                       f"RandomLists={r} RandomLen=40 RandomN=1000000\n", num=1, depth=10**6)
    c.conform(vlib.util_driver(), cases, "Trace_Layout", what="sample layout", chunk=200)


def C07(c):
    lim, n = (60, 4) if not THOROUGH else (100, 6)
    c.model("MC_Interp", f"SPECIFICATION Spec\nINVARIANTS Exists Unique ShortWay OnTheLine EndsRight Shortest\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS M=24 Lim={lim} MaxN={n}\n", f"all pairs of headings within +-{lim} units of 1/24 turn")
    r = 60 if not THOROUGH else 600
    cases = c.generate("Gen_Interp", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Behaviours={r} Batch=40\n", num=1, depth=10**6)
    c.conform(vlib.util_driver(), cases, "Trace_Interp", what="interpolation", chunk=1000)


NODL = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def world_judge(c, cases, parts, what, chunk=1500, name="run"):
    parts = "{" + ",".join(f'"{p}"' for p in parts) + "}"
    cfg = f"SPECIFICATION TraceSpec\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\nCONSTANT Parts = {parts}\n"
    return c.conform(vlib.world(), cases, "Trace_World", what=what, chunk=chunk, cfg=cfg, name=name)


def rust_judge(c, cases, parts, what, chunk, name):
    parts = "{" + ",".join(f'"{p}"' for p in parts) + "}"
    cfg = f"SPECIFICATION RustTraceSpec\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\nCONSTANT Parts = {parts}\n"
    c.conform(vlib.rust_driver(), cases, "Trace_Rust", what=what, chunk=chunk, cfg=cfg, name=name)


def together(c, cases, parts, what, name, size=4):
    """Several worlds at once, each on a thread of its own, under the race detector."""
    groups = [cases[i:i + size] for i in range(0, len(cases), size)]
    merged = ['{"worlds":[' + ",".join(g) + "]}" for g in groups]
    parts = "{" + ",".join(f'"{p}"' for p in parts) + "}"
    cfg = f"SPECIFICATION TraceSpec\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\nCONSTANT Parts = {parts}\n"
    c.conform(vlib.world_threads(), merged, "Trace_World", what=what, chunk=1000, cfg=cfg, name=name, confirm=5)


def simulate(c, module, num, depth, consts):
    return c.generate(module, NODL + "CONSTANTS " + " ".join(f"{k}={v}" for k, v in consts.items()) + "\n", num=num, depth=depth)


def model_builder(c):
    w, n = (3, 3) if not THOROUGH else (3, 4)
    c.model("MC_Builder", NODL + "INVARIANTS Shape CountsKept SamplesAsked\nPROPERTY Grows\n"
            f"CONSTANTS MaxW={w} Calls={n}\n", f"all histories of {n} builder calls on {w + 1} waypoints")


def C02(c):
    model_builder(c)
    n = 120 if not THOROUGH else 2000
    cases = simulate(c, "Gen_Builder", n, 20, {"Calls": 14, "MaxW": 4})
    world_judge(c, cases, ["path", "guess"], "builder histories")
    n = 6 if not THOROUGH else 100
    cases = simulate(c, "Gen_Builder", n, 50, {"Calls": 40, "MaxW": 24})
    world_judge(c, cases, ["path", "guess"], "long builder histories on many waypoints", name="long")


def batch(c, module, consts, **kw):
    """Behaviours from a generator that draws them one per step."""
    if module in ("Gen_Cons", "Gen_Obst", "Gen_Place", "Gen_Guess", "Gen_Robot"):
        consts = {"Lang": '"cpp"', **consts}
    return c.generate(module, NODL + "CONSTANTS " + " ".join(f"{k}={v}" for k, v in consts.items()) + "\n", num=1, depth=10**6, **kw)


def C03(c):
    model_builder(c)
    n = 160 if not THOROUGH else 2500
    cases = batch(c, "Gen_Place", {"MaxSeg": 3, "MaxN": 3, "MaxCons": 6, "Behaviours": n})
    world_judge(c, cases, ["probe"], "constraints at samples", chunk=60)


def model_cons(c, inv):
    k, d = (1, 2) if not THOROUGH else (2, 6)
    consts = f"CONSTANTS L={k} MaxD={d}\n"
    c.model("MC_Cons", NODL + f"INVARIANTS {inv}\n" + consts, f"points of -{k}..{k}, distances of up to {d}")
    if "Listing" in inv:
        c.refute("MC_Cons", NODL + "INVARIANT CornersEnough\nCONSTANTS L=1 MaxD=2\n", "keeping only the corners apart")


def C04(c):
    model_cons(c, "Segment Tolerance")
    n = 400 if not THOROUGH else 8000
    cases = batch(c, "Gen_Cons", {"Behaviours": n, "States": 40})
    world_judge(c, cases, ["probe"], "constraint semantics", chunk=300)


def C05(c):
    model_cons(c, "Segment Listing")
    n = 450 if not THOROUGH else 8000
    cases = batch(c, "Gen_Obst", {"Behaviours": n, "Poses": 36})
    world_judge(c, cases, ["probe"], "obstacle avoidance", chunk=200)


def C06(c):
    w, n, p = (3, 5, 3) if not THOROUGH else (3, 9, 5)
    c.model("MC_Guess", NODL + f"INVARIANT Good\nCONSTANTS MaxW={w} MaxN={n} MaxP={p}\n",
            f"up to {w} segments of 0..{n} intervals with up to {p} guess points")
    n = 300 if not THOROUGH else 6000
    cases = batch(c, "Gen_Guess", {"Behaviours": n, "MaxSeg": 4, "MaxN": 25, "Lim": 50, "Start": "FALSE"})
    world_judge(c, cases, ["guess"], "initial guess", chunk=300)


def C20(c):
    n = 300 if not THOROUGH else 6000
    cases = batch(c, "Gen_Guess", {"Behaviours": n, "MaxSeg": 3, "MaxN": 4, "Lim": 5, "Start": "TRUE"})
    world_judge(c, cases, ["start"], "solver start", chunk=400)


def model_robot(c, inv):
    k = (2, 2, 2) if not THOROUGH else (3, 2, 1)
    c.model("MC_Robot", NODL + f"INVARIANTS {inv}\nCONSTANTS Steps={k[0]} MaxV={k[1]} MaxDt={k[2]} MaxF=1\n",
            f"a robot of two modules, up to {k[0]} steps")


def robot(c, focus, parts, n):
    cases = batch(c, "Gen_Robot", {"Behaviours": n, "Mutants": 40, "Focus": f'"{focus}"'})
    world_judge(c, cases, parts, focus, chunk=250)


def C08(c):
    model_robot(c, "TurnsRight Determined HeadingsDetermined")
    c.refute("MC_Robot", NODL + "INVARIANT HalfTurnEnough\nCONSTANTS Steps=1 MaxV=1 MaxDt=1 MaxF=1\n", "headings linked up to a half turn")
    robot(c, "motion", ["probe"], 120 if not THOROUGH else 3000)


def C09(c):
    model_robot(c, "Momentum Spin ForcesDetermined Symmetric")
    robot(c, "dynamics", ["probe"], 120 if not THOROUGH else 3000)


def C10(c):
    model_robot(c, "IsPhysical Clock")
    robot(c, "step", ["probe", "cost"], 120 if not THOROUGH else 3000)


def lifecycle(c, mix, parts, n, ops=40):
    cases = simulate(c, "Gen_Lifecycle", n, ops + 6, {"Ops": ops, "Mix": f'"{mix}"'})
    world_judge(c, cases, parts, "lifecycle: " + mix, name=mix)


def model_lifecycle(c):
    k, adv, now = (7, "{100,167}", 500) if not THOROUGH else (10, "{1,100,167}", 700)
    consts = f"CONSTANTS Gens=2 Advances={adv} MaxNow={now} MaxOps={k} "
    inv = NODL + "INVARIANTS NeverPoisoned AlwaysStopped NotTooSoon NeverMissed\n"
    ref = inv + "PROPERTY Refines\n"
    c.inductive("Lifecycle", "Good", "Any", "NotGood", "four generations, any number of steps, any times")
    c.model("MC_Lifecycle", ref + consts + "Slow=100 Asks=FALSE StampAfter=FALSE\n",
            f"two generations, a cancellation flag, slow callbacks and a clock: every history of {k} steps")
    c.model("MC_Lifecycle", ref + consts + "Slow=0 Asks=TRUE StampAfter=FALSE\n",
            f"the same with callbacks that request cancellation: every history of {k} steps")
    c.refute("MC_Lifecycle", inv + consts + "Slow=100 Asks=FALSE StampAfter=TRUE\n", "time stamps taken after the callbacks")
    c.refute("MC_Lifecycle", NODL + "PROPERTY Refines\n" + consts + "Slow=100 Asks=FALSE StampAfter=TRUE\n", "that this is Lifecycle")
    c.refute("MC_Lifecycle", NODL + "INVARIANT AlwaysStoppedIdeal\n" + consts + "Slow=0 Asks=FALSE StampAfter=FALSE\n",
             "that no start wipes out a request (the recorded finding)")


def C11(c):
    lifecycle(c, "result", ["result"], 150 if not THOROUGH else 3000)


def C12(c):
    robot(c, "solution", ["solution", "roles", "probe"], 150 if not THOROUGH else 4000)
    lifecycle(c, "result", ["solution"], 80 if not THOROUGH else 2000)


def C13(c):
    model_lifecycle(c)
    lifecycle(c, "cancel", ["stop"], 150 if not THOROUGH else 3000)
    cases = simulate(c, "Gen_Lifecycle", 60 if not THOROUGH else 1000, 30, {"Ops": 15, "Mix": '"storm"'})
    together(c, cases, ["stop"], "generations running freely", "storm", size=1)
    cases = simulate(c, "Gen_Rust", 50 if not THOROUGH else 1000, 70, {"Ops": 60})
    rust_judge(c, cases, ["stop"], "cancelling through Rust", 600, "rust")


def C14(c):
    model_lifecycle(c)
    lifecycle(c, "deliver", ["deliver"], 150 if not THOROUGH else 3000)
    cases = simulate(c, "Gen_Lifecycle", 48 if not THOROUGH else 1000, 36, {"Ops": 30, "Mix": '"deliver"'})
    together(c, cases, ["deliver"], "worlds delivering at the same time", "worlds")


def C15(c):
    k, d = (6, 3) if not THOROUGH else (8, 4)
    c.model("MC_Convert", NODL + f"INVARIANT Steps\nCONSTANTS MaxN={k} MaxDt={d}\n", f"every list of up to {k} time steps of 0..{d}")
    n = 40 if not THOROUGH else 1000
    cases = batch(c, "Gen_Convert", {"Behaviours": n, "Batch": 10, "MaxN": 40})
    c.conform(vlib.convert_driver(), cases, "Trace_Convert", what="conversion to a trajectory", chunk=100)


def C16(c):
    inv = NODL + "INVARIANTS NothingDead NoTemporary Allowed\n"
    c.model("MC_Expected", inv + "CONSTANT Careless=FALSE\n",
            "every assignment, emplacement and swap of two boxes, every kind of element, every point at which an element throws")
    c.refute("MC_Expected", inv + "CONSTANT Careless=TRUE\n", "destroying first, whatever the elements promise")
    n = 250 if not THOROUGH else 6000
    cases = batch(c, "Gen_Expected", {"Behaviours": n, "Ops": 40})
    c.conform(vlib.expected_driver(), cases, "Trace_Expected", what="result type", chunk=2000)


def C17(c):
    m = 1 if not THOROUGH else 2
    c.model("MC_Geometry", NODL + f"INVARIANTS VectorSpace Bilinear Group Action PoseAction\nCONSTANT M={m}\n",
            f"the laws of plane geometry on translations with entries up to {m} and {{1, 2}} as denominators")
    n = 150 if not THOROUGH else 4000
    cases = batch(c, "Gen_Geometry", {"Behaviours": n, "Length": 25, "Sets": 4, "Bound": 20000})
    try:
        driver = vlib.geometry_driver()
    except vlib.DoesNotCompile as x:
        # the same expressions on plain numbers compile, or this is not a verdict
        if x.src.name not in ("geometry_vars.cpp", "geometry_mixed.cpp"):
            raise
        vlib.geometry_plain()
        c.violation("geometry expressions that the specification offers for optimization variables do not compile", x.out)
        return
    c.conform(driver, cases, "Trace_Geometry", what="geometry expressions", chunk=600)


def C19(c):
    parts = ["probe", "path", "guess", "start", "solution", "result", "deliver", "stop"]
    lifecycle(c, "snapshot", parts, 100 if not THOROUGH else 2000)
    lifecycle(c, "repeat", parts, 40 if not THOROUGH else 1000)
    lifecycle(c, "redraw", parts, 60 if not THOROUGH else 1000)
    n = 1 if not THOROUGH else 20
    cases = [x for group in zip(simulate(c, "Gen_Lifecycle", 20 * n, 26, {"Ops": 20, "Mix": '"snapshot"'}),
                                simulate(c, "Gen_Builder", 20 * n, 20, {"Calls": 10, "MaxW": 4}),
                                batch(c, "Gen_Guess", {"Behaviours": 20 * n, "MaxSeg": 3, "MaxN": 4, "Lim": 5, "Start": "TRUE"}),
                                batch(c, "Gen_Robot", {"Behaviours": 20 * n, "Mutants": 3, "Focus": '"dynamics"'}),
                                batch(c, "Gen_Obst", {"Behaviours": 20 * n, "Poses": 4}))
             for x in group]
    together(c, cases, parts, "independent worlds on several threads", "worlds")


def C18(c):
    n = 1 if not THOROUGH else 20

    def go(cases, what, chunk, name):
        rust_judge(c, cases, ["path", "guess", "start", "roles", "probe", "result", "stop", "deliver", "solution"], what, chunk, name)

    rust = {"Lang": '"rust"'}
    go(simulate(c, "Gen_Rust", 60 * n, 70, {"Ops": 60}), "histories through Rust", 600, "life")
    go(batch(c, "Gen_Cons", {"Behaviours": 150 * n, "States": 30, **rust}), "constraints through Rust", 200, "cons")
    go(batch(c, "Gen_Obst", {"Behaviours": 60 * n, "Poses": 40, **rust}), "obstacles through Rust", 100, "obst")
    go(batch(c, "Gen_Place", {"MaxSeg": 3, "MaxN": 2, "MaxCons": 6, "Behaviours": 80 * n, **rust}), "placement through Rust", 40, "place")
    go(batch(c, "Gen_Guess", {"Behaviours": 100 * n, "MaxSeg": 3, "MaxN": 8, "Lim": 50, "Start": "FALSE", **rust}), "guesses through Rust", 300, "guess")
    go(batch(c, "Gen_Robot", {"Behaviours": 25 * n, "Mutants": 20, "Focus": '"dynamics"', **rust}), "dynamics through Rust", 80, "robot")
