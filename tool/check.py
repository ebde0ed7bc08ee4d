"""check.py PROP [quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE           replay a recorded violation on the real code
exit 0 held / 1 VIOLATION / 2 undecided or tool error"""
import sys, os, json, time, random, hashlib, subprocess, traceback, resource
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, "contracts")]
sys.setrecursionlimit(20000)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import load, mon, explore
from load import ElabError
from sim import Sim
GOLD = os.path.join(V, "golden")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def useed(u, k=0):
    return int(hashlib.sha256(("%d %s %d" % (SEED, u.name, k)).encode()).hexdigest()[:8], 16)


def to_trace(m, v):
    """violation trace -> list of {port: value}"""
    names = v["inputs"]
    return [{n: t[j] for j, n in enumerate(names)} for t in v["trace"]]


def resim(m, trace, init):
    """run the extracted design on a trace; rows of watched ports and clause truth"""
    watch = {}
    for k, (n, x) in enumerate(m.reqs):
        watch["r:" + n] = x.i
    for k, (n, x) in enumerate(m.ens):
        watch["e:" + n] = x.i
    ports = [n for n in m.watch_ports]
    for n in ports:
        watch["p:" + n] = m.watch_ports[n]
    sim = Sim(m.s, watch)
    sim.reset()
    for j, r in enumerate(sim.regs):
        if m.s.regs[r][1] is None:
            sim.S[j] = (init or {}).get(r, 0)
    rows = []
    for t in trace:
        sim.I = [t.get(n, 0) for n in sim.inputs]
        w = sim.tick()
        rows.append({k: w[j] for k, j in sim.widx.items()})
    return rows, ports


def confirm(u, m, trace, init):
    """replay on the real code (pysim).  Returns dict(confirmed, clause, cycle, why, real rows)"""
    rows, ports = resim(m, trace, init)
    bad = None
    for c, r in enumerate(rows):
        if not all(v for k, v in r.items() if k.startswith("r:")):
            return dict(confirmed=False, why="precondition broken at cycle %d" % c)
        f = [k[2:] for k, v in r.items() if k.startswith("e:") and not v]
        if f:
            bad = (c, f)
            break
    if bad is None:
        return dict(confirmed=False, why="no clause fails on the executed trace")
    c = bad[0]
    tr = trace[:c + 1]
    real_in = [{k: v for k, v in t.items() if not k.startswith("?") and k in m.s.inputs and not k.startswith("rst")}
               for t in tr]
    if u.cut:
        return dict(confirmed=False, cycle=c, clause=bad[1], why="contract of a composition: callees are replaced "
                    "by their contracts, so there is no whole-design input to run")
    real_in = [{k: v for k, v in t.items() if is_port(m, k)} for t in real_in]
    out = load.real(u.module, u.expr, real_in, ports)
    for k in range(c + 1):
        for p, x in zip(ports, out[k]):
            if rows[k]["p:" + p] != x:
                return dict(confirmed=False, mismatch=True, why="extraction and real code disagree at cycle %d on %s"
                            % (k, p))
    return dict(confirmed=True, cycle=c, clause=bad[1], ports=ports, rows=out)


def is_port(m, name):
    if not hasattr(m, "_pn"):
        m._pn = set()

        def walk(x, n):
            if isinstance(x, int):
                if m.s.uname[x] == n:
                    m._pn.add(n)
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    walk(y, "%s[%d]" % (n, i))
            elif isinstance(x, dict):
                for k, y in x.items():
                    walk(y, "%s.%s" % (n, k))
        for k, v in m.s.ir["ports"].items():
            walk(v, k)
    return name in m._pn


def xcheck(u, m, rng, cycles=60):
    """extraction cross-check: the real code under nMigen's simulator and the extracted design agree"""
    sim = Sim(m.s, {"p:" + n: i for n, i in m.watch_ports.items()})
    st = explore.Stim(m, rng, u.bias)
    st.modes()
    s2 = explore.make_sim(m)
    explore.reset_sim(s2, m, rng)
    ri = [s2.widx["r%d" % k] for k in range(len(m.reqs))]
    trace = []
    rows = []
    ports = list(m.watch_ports)
    for c in range(cycles):
        if c % 15 == 14:
            st.modes()
        if not st.apply(s2, ri):
            break
        trace.append({n: s2.I[j] for n, j in s2.iidx.items() if is_port(m, n)})
        w = s2.tick()
        rows.append([w[s2.widx["p:" + n]] for n in ports])
    out = load.real(u.module, u.expr, trace, ports)
    for c, (a, b) in enumerate(zip(rows, out)):
        for p, x, y in zip(ports, a, b):
            if x != y:
                return "cycle %d port %s: extracted %d, real %d" % (c, p, x, y)
    return None


def bmc(m, depth, tlimit):
    """refutation search from power-on; returns (trace, init) or None"""
    import z3
    from smt import Env
    E = Env.init2(m.s, m, tuple(m.s.mems))
    s = z3.Solver()
    t0 = time.time()
    envs = []
    for k in range(depth):
        envs.append(E)
        for _, x in m.reqs:
            s.add(E.val(x.i) == 1)
        bad = [E.val(x.i) == 0 for _, x in m.ens]
        left = tlimit - (time.time() - t0)
        if left <= 1:
            return None
        s.set("timeout", int(left * 1000))
        s.push()
        s.add(z3.Or(bad))
        r = s.check()
        if r == z3.sat:
            mod = s.model()
            tr = []
            for e in envs:
                row = {}
                for n, t in e.ins.items():
                    v = mod.eval(t, model_completion=True)
                    row[n] = v.as_long()
                tr.append(row)
            init = {}
            for r_, v in m.s.regs.items():
                if v[1] is None:
                    init[r_] = mod.eval(envs[0].regs[r_], model_completion=True).as_long()
            return tr, init
        s.pop()
        if r == z3.unknown:
            return None
        E = E.step("b%d" % (k + 1))
    return None


def prove_unit(u, m, seed, timeout=None, linear=False):
    import prove
    return prove.prove(m, random.Random(seed), u.name, jobs=u.jobs, timeout=timeout or u.timeout,
                       use_templates=u.templates, sim_cycles=u.cycles, sim_eps=u.eps, bias=u.bias,
                       mem_init=u.mem_init, linear=linear)


def summary(R):
    be = {}
    for n, v, t, b, _ in R.obligations:
        if v == "unsat":
            be[b] = be.get(b, 0) + 1
    return dict(obligations=len(R.obligations), discharged=sum(v == "unsat" for _, v, _, _, _ in R.obligations),
                backends=be, solver_s=round(sum(t for _, _, t, _, _ in R.obligations), 3),
                invariants=len(getattr(R, "invs", [])), wall_s=round(getattr(R, "t", 0), 2),
                executed_cycles=getattr(R, "sim_cycles", 0))


import mmap
FLAG = mmap.mmap(-1, 8)         # shared by the workers: a confirmed violation ends the run early
T0 = time.time()


def over(frac):
    """the budget left for second attempts (a check has 900 s in all)"""
    return time.time() - T0 > frac * (600 if os.environ.get("VERIF_TIER") != "thorough" else 2400)


def run_unit(u):
    t0 = time.time()
    if FLAG[0]:
        return dict(status="skipped", unit=u.name, t=0)
    d = run_unit1(u)
    if d["status"] == "violation" and d.get("confirmed"):
        FLAG[0] = 1
    return d


def run_unit1(u):
    t0 = time.time()
    try:
        d = run_unit_(u)
    except ElabError as e:
        d = dict(status="violation", kind="elaboration", clause=["the design elaborates"], detail=e.tb, confirmed=True)
    except mon.Missing as e:
        d = dict(status="undecided", detail="interface changed: %s" % e)
    except Exception:
        d = dict(status="undecided", detail=traceback.format_exc())
    d["unit"] = u.name
    d["t"] = round(time.time() - t0, 2)
    return d


def equivalent(u):
    """the proof script does not fit the text: is the design still observably the snapshot the script was written for?"""
    try:
        if over(.8):
            raise TimeoutError("no time left")
        import equiv, prove
        pm = equiv.product(u, GOLD)
        RE = prove.prove(pm, random.Random(useed(u, 2)), u.name + "~golden", jobs=u.jobs, timeout=u.timeout,
                         sim_cycles=u.cycles, sim_eps=u.eps, bias=u.bias, mem_init=u.mem_init, linear=True)
        if RE.ok:
            RG = prove_unit(u, u.mon(GOLD), useed(u))
            if RG.ok:
                e, g = summary(RE), summary(RG)
                for k in ("obligations", "discharged", "solver_s"):
                    e[k] += g[k]
                return dict(ok=True, status="ok", sum=e, dropped_hints=0,
                            via="equivalence to the reference snapshot + contract proof on the snapshot")
        return dict(ok=False, equiv_failed=[(n, v) for n, v, _ in getattr(RE, "failed", [])][:20])
    except Exception as e:
        return dict(ok=False, equiv_error="%s: %s" % (type(e).__name__, e))


def run_unit_(u):
    if getattr(u, "custom", None):
        return u.custom(u)
    m = u.mon()
    R = prove_unit(u, m, useed(u))
    via = eq = None
    if not R.ok and not R.violation and not over(.7):
        al = {}
        try:                                # renamed or moved internals: phrase the hints over their counterparts
            import equiv
            al = equiv.alias(u, GOLD, random.Random(useed(u, 3)))
        except Exception:
            pass
        try:
            if al:
                m2 = u.mon(alias=al)
                R2 = prove_unit(u, m2, useed(u))
                if R2.ok:
                    m, R, via = m2, R2, "hints matched to renamed signals"
            d = None if via else equivalent(u)
            if d and d.pop("ok"):
                if u.xcheck:
                    x = xcheck(u, m, random.Random(useed(u, 1)))
                    if x:
                        return dict(status="undecided", detail="extraction cross-check: " + x)
                d.update(functions=list(u.functions) or classes(m), requires=[n for n, _ in m.reqs],
                         ensures=[n for n, _ in m.ens], uncovered=R.uncovered)
                return d
            eq = d
            if not via and not over(.5):
                m2 = u.mon(alias=al)
                R2 = prove_unit(u, m2, useed(u), linear=True)
                if R2.ok:
                    m, R, via = m2, R2, "linear relations between counters"
        except Exception as e:
            via = None
    d = dict(sum=summary(R), functions=list(u.functions) or classes(m), requires=[n for n, _ in m.reqs],
             ensures=[n for n, _ in m.ens])
    if R.violation:
        v = R.violation
        tr = to_trace(m, v)
        c = confirm(u, m, tr, v["init"])
        if c.get("mismatch"):
            d.update(status="undecided", detail=c["why"])
            return d
        d.update(status="violation", kind="execution", clause=c.get("clause", [v["clause"]]), trace=tr,
                 init=v["init"], confirmed=c["confirmed"], detail=c.get("why", ""), replay=c)
        return d
    d["uncovered"] = R.uncovered        # situations of interest the random execution did not reach (not a failure)
    if R.ok:
        if u.xcheck:
            x = xcheck(u, m, random.Random(useed(u, 1)))
            if x:
                d.update(status="undecided", detail="extraction cross-check: " + x)
                return d
            d["xcheck"] = True
        d["status"] = "ok"
        if via:
            d["via"] = via
        d["dropped_hints"] = len(R.dropped_hints)
        return d
    failed = [(n, v) for n, v, _ in getattr(R, "failed", [])]
    d["failed"] = failed
    d.update(eq or {})
    b = None if over(.8) else bmc(m, 24, 60)
    if b:
        tr, init = b
        c = confirm(u, m, tr, init)
        d.update(status="violation", kind="bmc", clause=c.get("clause", []), trace=tr, init=init,
                 confirmed=c["confirmed"], detail=c.get("why", ""), replay=c)
        return d
    d["status"] = "failed"
    d["refuted"] = any(v == "sat" for _, v in failed)
    return d


def classes(m):
    return sorted({i["cls"] + ".elaborate" for i in m.s.ir["insts"] if not i["cut"]})


def fuzz(prop, tier, us, secs):
    """PyPy search on the units whose proof failed"""
    procs = []
    n = max(1, 8 // max(1, len(us)))
    k = 0
    for u in us[:8]:
        for j in range(n):
            out = "/tmp/verif_fz_%d_%d.json" % (os.getpid(), k)
            k += 1
            p = subprocess.Popen([load.PY, H + "/fuzz.py", prop, tier, u.name, str(useed(u, 100 + j)), str(secs),
                                  str([200, 600, 2000, 6000][j % 4]), out], stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE)
            procs.append((u, p, out))
    found = None
    for u, p, out in procs:
        p.wait()
        if os.path.exists(out):
            try:
                v = json.load(open(out))["v"]
            except Exception:
                v = None
            os.unlink(out)
            if v and found is None:
                found = (u, v)
    return found


def end2end(tier, secs):
    """input for a rejected composition: the real tops against a reference encoder"""
    import e2e
    procs = []
    for k, top in enumerate(e2e.TOPS):
        out = "/tmp/verif_e2e_%d_%d.json" % (os.getpid(), k)
        procs.append((subprocess.Popen([load.PY, H + "/e2e.py", load.REPO, top, str(SEED * 100 + k), str(secs), out],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    found, end, left = None, time.time() + secs + 240, list(procs)
    while left and found is None and time.time() < end:
        time.sleep(.3)
        for p, out in list(left):
            if p.poll() is None:
                continue
            left.remove((p, out))
            try:
                v = json.load(open(out))["found"]
            except Exception:
                v = None
            if v and v.get("real") and found is None:
                found = v
    for p, out in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
        for f in (out, out + ".part"):
            if os.path.exists(f):
                os.unlink(f)
    return found


def known():
    fn = os.path.join(V, "known_findings.json")
    return json.load(open(fn))["findings"] if os.path.exists(fn) else []


def main():
    import props
    if (json.load(open(sys.argv[2]))["property"] if sys.argv[1] == "--replay" else sys.argv[1]) in props.OTHER:
        import host
        return host.main()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    import props
    from smt import pmap
    us = props.units(prop, tier)
    only = os.environ.get("VERIF_UNIT")
    if only:
        us = [u for u in us if only in u.name]
    us = sorted(us, key=lambda u: -u.weight)
    assert us
    by = {u.name: u for u in us}
    assert len(by) == len(us), "duplicate unit names"
    res = pmap(run_unit, us, int(os.environ.get("VERIF_JOBS", "8")))
    if only:
        for d in res:
            print(json.dumps({k: v for k, v in d.items() if k not in ("trace", "replay")}, indent=1, default=str))
    viol = [d for d in res if d["status"] == "violation"]
    fail = [d for d in res if d["status"] == "failed"]
    und = [d for d in res if d["status"] == "undecided"]
    skipped = [d for d in res if d["status"] == "skipped"]
    kf = [k for k in known() if k["property"] == prop]
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not [v for v in viol if v.get("confirmed")] and [f for f in fail if not by[f["unit"]].cut]:
        fu = [by[f["unit"]] for f in fail if not by[f["unit"]].cut]
        f = fuzz(prop, tier, fu, (90 if not over(1) else 20) if tier == "quick" else 400)
        if f:
            u, v = f
            m = u.mon()
            tr = to_trace(m, v)
            c = confirm(u, m, tr, v["init"])
            viol.insert(0, dict(unit=u.name, status="violation", kind="search", clause=c.get("clause", [v["clause"]]),
                                trace=tr, init=v["init"], confirmed=c["confirmed"], detail=c.get("why", ""), replay=c,
                                failed=[x for x in fail if x["unit"] == u.name][0].get("failed")))
    cutf = [d for d in viol + fail if by[d["unit"]].cut]
    if not [v for v in viol if v.get("confirmed")] and cutf:
        f = end2end(tier, (60 if not over(1) else 20) if tier == "quick" else 300)
        if f:
            d = cutf[0]
            viol.insert(0, dict(unit=d["unit"], status="violation", kind="end to end", confirmed=True, scenario=f["scenario"],
                                clause=d.get("clause") or [x[0] for x in d.get("failed", [])],
                                failed=d.get("failed"), detail="%s encoder, real code: %s" % (f["scenario"]["top"], f["real"])))
    ok = [d for d in res if d["status"] == "ok"]
    ev = evidence(prop, tier, res, us, time.time() - t0, viol, fail, und)
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for d in und:
        print("UNDECIDED %s: %s" % (d["unit"], d["detail"]))
    viol.sort(key=lambda d: not d.get("confirmed"))
    real_fail = [f for f in fail if f["refuted"]]
    if viol or real_fail:
        d = (viol + real_fail)[0]
        os.makedirs(V + "/evidence/replay", exist_ok=True)
        fn = V + "/evidence/replay/%s.json" % prop
        u = by[d["unit"]]
        with open(fn, "w") as f:
            json.dump(dict(property=prop, tier=tier, unit=d["unit"], module=u.module, expr=u.expr,
                           failing_clauses=d.get("clause"), failed_obligations=d.get("failed"),
                           input_trace=d.get("trace"), ghost_init=d.get("init"), confirmed=d.get("confirmed", False), scenario=d.get("scenario"),
                           detail=d.get("detail"), equivalence=d.get("equiv_failed"),
                           others=[x["unit"] for x in (viol + fail) if x is not d]), f, indent=1)
        cl = d.get("clause") or [x[0] for x in d.get("failed", [])]
        print("failed obligation(s) in %s: %s" % (d["unit"], ", ".join(cl[:6])))
        if d.get("detail"):
            print(d["detail"])
        print("VIOLATION property=%s replay=%s%s" % (prop, fn, "" if d.get("confirmed") else " no-failing-input-found"))
        return 1
    if und or fail:
        for d in fail:
            print("UNDECIDED %s: %s" % (d["unit"], d["failed"]))
        return 2
    print("%s holds: %d units, %d obligations discharged, %.1f s" % (
        prop, len(res), ev["coverage"]["discharged"], time.time() - t0))
    return 0


def evidence(prop, tier, res, us, wall, viol, fail, und):
    import props
    S = [d["sum"] for d in res if "sum" in d]
    be = {}
    for s in S:
        for k, v in s["backends"].items():
            be[k] = be.get(k, 0) + v
    fns = sorted({f for d in res for f in d.get("functions", [])})
    cov = dict(obligations=sum(s["obligations"] for s in S), discharged=sum(s["discharged"] for s in S),
               checker_cmd="python3-vt /verif/tool/check.py %s %s" % (prop, tier),
               trusted_base=props.TRUSTED + props.trusted(prop),
               functions_under_contract=fns, backends=be, solver_s=round(sum(s["solver_s"] for s in S), 2),
               units=[dict(unit=d["unit"], status=d["status"], wall_s=d["t"], via=d.get("via", "direct"),
                           **{k: d["sum"][k] for k in ("obligations", "discharged", "invariants", "executed_cycles")
                              if "sum" in d and k in d["sum"]}, **({"uncovered": d["uncovered"]} if d.get("uncovered") else {})) for d in res],
               extraction_crosschecked_units=sum(1 for d in res if d.get("xcheck")),
               bounded=props.bounded(prop),
               violations=[d["unit"] for d in viol], failed=[d["unit"] for d in fail],
               undecided=[d["unit"] for d in und])
    return dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=SEED, level="proof",
                coverage=cov, wall_s=round(wall, 2))


def replay(fn):
    d = json.load(open(fn))
    import props
    u = [u for u in props.units(d["property"], d["tier"]) if u.name == d["unit"]][0]
    if d.get("scenario"):
        import subprocess
        return subprocess.call([load.PY, H + "/e2e.py", load.REPO, "replay", fn])
    if not d.get("input_trace"):
        print("no input: failed obligations", d["failed_obligations"], d.get("detail"))
        return 1
    m = u.mon()
    c = confirm(u, m, d["input_trace"], d["ghost_init"])
    print(json.dumps({k: v for k, v in c.items() if k not in ("rows", "ports")}, indent=1))
    return 0 if not c["confirmed"] else 1


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
