"""C24: what a run leaves."""
import copy
import e2e
import gen

RENAME = "?rename,?renameat,?renameat2"
CALLS = [RENAME, RENAME, "openat", "write", "?unlink,?unlinkat", "close", "fsync,fdatasync", "?chmod,fchmod,fchmodat", "ftruncate"]
FAULTS = ["flags", "config", "load", "specs", "merge", "resolve", "format", "open"]


def profile(r):
    return e2e.Profile(npkgs=(1, 3), specs=(0, 2), missing=0, decoys=.1, types=dict(bad=0), refs=(0, 3), extends=0)


def project(r):
    P = e2e.Project(r, profile(r))
    P.specs()
    return P, P.config()


def large(r, cfg):
    """A document that does not fit into what a file may have in it."""
    cfg = dict(cfg)
    cfg["info"] = e2e.setdoc(cfg.get("info", gen.obj({})), ["description"], gen.t(r.choice("xyz") * r.choice([600, 3000])))
    return cfg


def inject(r, kill, sys=""):
    return {"sys": sys or r.choice(CALLS), "what": "signal=KILL" if kill else "error=" + r.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS"]),
            "when": r.choice(["1", "1", "1", "2"]), "kill": "yes" if kill else "no"}


def history(r, h, tracing):
    """Runs one after another in one directory, of a project whose specifications change."""
    P, cfg = project(r)
    steps = []
    out = r.choice(["/W/out/doc", "/W/doc.json", "/W/out/x y.yaml"])
    for i, s in enumerate(h):
        Q = copy.deepcopy(P)
        Q.r = r
        if i > 0:
            if r.random() < .7:        # other content, often less
                for pk in Q.pkgs:
                    pk["files"] = []
                if r.random() < .7:
                    Q.specs()
            Q.names0 = P.names0
        fault = s["fault"]
        late = "kill" if s["killed"] else fault if fault in ("write", "place") else ""
        if late:
            fault = "none"
        dest = "file" if fault == "open" else s["dest"]
        state = "file" if out == "/W/out/doc" and r.random() < .5 else "absent"
        c = e2e.faulty(r, Q, large(r, cfg) if late == "write" else cfg, fault, dest, state, out, again=i > 0)
        if late == "write":
            c["fsize"] = 1
        elif late and tracing:
            c["inject"] = dict(inject(r, late == "kill", "" if late == "kill" else RENAME), path=out)
        if i == 0:
            P.names0 = Q.names0
            if state != "file" or dest != "file" or fault == "open":
                c["files"].append({"path": e2e.dirname(out), "dir": True})
        if dest == "file" and fault != "open":
            c["before"] = [{"path": out, "state": "file"}]
        else:
            c["before"] = c["before"] + [{"path": out, "state": "file"}]
        steps.append(c)
    return {"m": "clihist", "want": "history", "steps": steps}


def check(ctx):
    r = ctx.rnd
    ctx.mc("CliSteps", {"MaxRuns": "2", "Signals": "TRUE", "Emit": "FALSE"},
           inv=["Outcome", "LastGood", "Untouched", "Whole", "Clean"], props=["Ends"], what="histories of two runs with faults, signals and kills")
    cases = []
    for f in FAULTS:
        for dest in ["file", "stdout", "stderr"]:
            if f == "open" and dest != "file":
                continue
            for _ in range(ctx.n(7 if dest != "file" else 14, 60)):
                P, cfg = project(r)
                cases.append(e2e.faulty(r, P, cfg, f, dest, r.choice(["absent", "file"])))
    for dest in ["file", "file", "stdout", "stderr"]:
        for _ in range(ctx.n(25, 250)):
            P, cfg = project(r)
            cases.append(e2e.faulty(r, P, cfg, "none", dest, r.choice(["absent", "file"])))
    e2e.judge(ctx, cases, "runs with a fault in each phase, and without")
    cases = []
    for _ in range(ctx.n(24, 240)):
        P, cfg = project(r)
        c = e2e.faulty(r, P, large(r, cfg), "none", r.choice(["file", "file", "file", "stdout"]), r.choice(["absent", "file", "file"]), want="stop")
        c["fsize"] = 1
        cases.append(c)
    e2e.judge(ctx, cases, "runs whose output does not fit")
    cases = []
    for _ in range(ctx.n(24, 240)):
        P, cfg = project(r)
        dest = r.choice(["file", "stdout", "stdout", "stderr"])
        c = e2e.faulty(r, P, cfg, r.choice(["none"] * 6 + ["resolve"]), dest, r.choice(["absent", "file"]))
        c["full"] = dest if dest != "file" and r.random() < .8 else r.choice(["stdout", "stderr"])
        cases.append(c)
    e2e.judge(ctx, cases, "runs with a full device for stdout or stderr")
    tracing = ctx.execute([{"m": "strace"}])[0]["out"].get("ok") is True
    cases = []
    for kill in [True, False]:
        for _ in range(ctx.n(30, 300) if tracing else 0):
            P, cfg = project(r)
            c = e2e.faulty(r, P, cfg, "none", "file", r.choice(["absent", "file", "file"]), want="kill" if kill else "stop")
            c["inject"] = dict(inject(r, kill), path="/W/out/doc")
            cases.append(c)
    if cases:
        e2e.judge(ctx, cases, "runs killed at, or failing in, a system call on the output")
    else:
        ctx.log("no system call traces here: kills at the output not tried")
    hs = ctx.behaviours("CliSteps", {"MaxRuns": "3", "Signals": "FALSE", "Emit": "TRUE"}, ctx.n(3000, 20000), 60,
                        what="histories of three runs", inv=["Outcome", "EmitHist"])
    good = lambda h: sum(x["fault"] == "none" for x in h["runs"])
    files = lambda h: sum(x["dest"] == "file" for x in h["runs"])
    hs.sort(key=lambda h: -good(h) - files(h))
    hs = hs[:len(hs) // 3]
    e2e.judge(ctx, [history(r, h["runs"], tracing) for h in r.sample(hs, min(len(hs), ctx.n(100, 800)))], "histories of runs")
    stops = []
    for _ in range(ctx.n(16, 150)):
        P, cfg = project(r)
        c = e2e.faulty(r, P, cfg, r.choice(["none", "none", "none", "resolve"]), r.choice(["file", "file", "stdout", "stderr"]),
                       r.choice(["absent", "file"]), want="stop")
        c["kill"] = [-1] + [r.choice([0, 1, 5]) if r.random() < .1 else r.randint(0, 1000) for _ in range(8)]
        stops.append(c)
    e2e.judge(ctx, stops, "runs stopped by a signal")
