"""Proof of one contract on one extracted design: candidate filtering by execution, Houdini to an
inductive set, then the named obligations (init / preservation / ensures), each discharged by SMT."""
import random, time, os
import z3
from smt import Env, pmap, external
from explore import explore
from mon import X


def templates(m, samples, limit=3000, linear=False):
    """name-independent coupling candidates between code registers and ghosts, guessed from executed
    states (signature partitioning) -- guesses only: each must still be proved inductive"""
    g = m.g
    S = m.s.regs
    names = list(S)
    W = {r: S[r][0] for r in names}
    V = lambda r: g.var(W[r], r)
    n = len(samples)
    if n == 0:
        return []
    col = {r: tuple(s[j] for s in samples) for j, r in enumerate(names)}
    out = []
    iscode = lambda r: not r.startswith("$")

    def classes(rows, pre, cond, skip):
        part = {}
        for r in names:
            if rows is None:
                sig = (W[r], col[r])
            else:
                c = col[r]
                sig = (W[r], tuple(c[i] for i in rows))
            part.setdefault(sig, []).append(r)
        found = set()
        for (w, sig), rs in part.items():
            const = len(set(sig)) == 1
            if const and (w <= 16):
                for r in rs:
                    if not iscode(r) and S[r][1] is None:
                        continue
                    e = ("c", r, sig[0])
                    if e in skip:
                        continue
                    found.add(e)
                    x = g.eq(V(r), g.const(w, sig[0]))
                    out.append((pre + "%s=%d" % (r, sig[0]), x if cond is None else g.or_(g.not_(cond), x)))
                if len(sig) < 8:
                    continue
            if len(rs) > 1 and len(rs) <= 12 and not const:
                for i in range(len(rs)):
                    for j in range(i + 1, len(rs)):
                        if not iscode(rs[i]) and not iscode(rs[j]):
                            continue
                        e = ("e", rs[i], rs[j])
                        if e in skip:
                            continue
                        found.add(e)
                        x = g.eq(V(rs[i]), V(rs[j]))
                        out.append((pre + "%s=%s" % (rs[i], rs[j]), x if cond is None else g.or_(g.not_(cond), x)))
        return found
    ws = sorted({W[r] for r in names if iscode(r) and 2 <= W[r] <= 32})

    def lines(rows, pre, cond):
        """r1 - r2 or r1 + r2 constant (counters that run the other way or start elsewhere)"""
        for w in ws:
            mask, part = (1 << w) - 1, {}
            for r in names:
                if W[r] < w or W[r] > 32:
                    continue
                c = col[r] if rows is None else tuple(col[r][i] for i in rows)
                b0 = c[0] & mask
                sig = tuple((x - b0) & mask for x in c)
                if len(set(sig)) < min(4, mask + 1):
                    continue
                neg = tuple((-x) & mask for x in sig)
                part.setdefault(min(sig, neg), []).append((r, sig <= neg, b0))
            for rs in part.values():
                if not 2 <= len(rs) <= 10:
                    continue
                for i in range(len(rs)):
                    for j in range(i + 1, len(rs)):
                        (a, sa, ba), (b, sb, bb) = rs[i], rs[j]
                        if not any(iscode(x) and W[x] == w for x in (a, b)) or (sa == sb and ba == bb and W[a] == W[b]):
                            continue
                        A, B = g.fit(V(a), False, w), g.fit(V(b), False, w)
                        if sa == sb:
                            x, t = g.eq(A, g.add(B, g.const(w, (ba - bb) & mask))), "%s=%s%+d" % (a, b, ba - bb)
                        else:
                            x, t = g.eq(g.add(A, B), g.const(w, (ba + bb) & mask)), "%s+%s=%d" % (a, b, ba + bb)
                        out.append((pre + t, x if cond is None else g.or_(g.not_(cond), x)))
    base = classes(None, "", None, set())
    if linear:
        lines(None, "", None)
    small = [r for r in names if W[r] <= 4]
    for s_ in small:
        vals = sorted(set(col[s_]))
        wv = W[s_]
        if wv > 1:
            for v in range(1 << wv):
                if v not in vals:
                    out.append(("%s!=%d" % (s_, v), g.ne(V(s_), g.const(wv, v))))
        if len(vals) < 2:
            continue
        for v in vals:
            rows = [i for i in range(n) if col[s_][i] == v]
            if len(rows) < 12:
                continue
            classes(rows, "%s==%d->" % (s_, v), g.eq(V(s_), g.const(wv, v)), base)
            if linear:
                lines(rows, "%s==%d->" % (s_, v), g.eq(V(s_), g.const(wv, v)))
    for cs in m.cases:                  # abstract states named by the contract, over its ghosts
        rows = [i for i in range(n) if all(col[r][i] == v for r, v in cs.items())]
        if len(rows) < 12:
            continue
        cond = g.const(1, 1)
        for r, v in cs.items():
            cond = g.and_(cond, g.eq(V(r), g.const(W[r], v)))
        pre = "&".join("%s==%d" % x for x in cs.items()) + "->"
        classes(rows, pre, cond, base)
        if linear:
            lines(rows, pre, cond)
            for s_ in small:                # and within a state of the design
                if not iscode(s_):
                    continue
                for v in sorted({col[s_][i] for i in rows}):
                    r2 = [i for i in rows if col[s_][i] == v]
                    if 6 <= len(r2) < len(rows):
                        classes(r2, "%s%s==%d->" % (pre, s_, v), g.and_(cond, g.eq(V(s_), g.const(W[s_], v))), base)
    seen = set()
    res = []
    for nme, i in out:
        if i in seen or g.isc(i):
            continue
        seen.add(i)
        res.append((nme, X(g, i)))
    return res[:limit]


def zb(x):
    return x == 1


class Result:
    pass


def prove(m, rng, label, jobs=8, timeout=60, use_templates=True, tlimit=4000, sim_cycles=300, sim_eps=12,
          bias=None, log=None, mem_init=(), linear=False):
    """returns Result with .ok, .obligations [(name,res,time,backend)], .violation, .invs"""
    R = Result()
    R.label = label
    R.violation = None
    R.obligations = []
    R.ok = False
    t0 = time.time()
    cands = list(m.hints)
    nh = len(cands)
    seen = {x.i for _, x in cands}
    for n_, x in m.ens:
        if x.i not in seen and m.ens_as_invariants:
            cands.append(("ensures:" + n_, x))
    samples = []
    viol, alive, hit, n = explore(m, rng, sim_cycles, sim_eps, cands, stop=True, bias=bias, samples=samples)
    R.sim_cycles = n
    R.uncovered = [m.covers[k][0] for k in range(len(m.covers)) if k not in hit]
    if viol:
        R.violation = viol
        R.why = "execution"
        return R
    dead = {m.hgroup[k] for k in m.hgroup if not alive[k]}
    for k, gr in m.hmember.items():
        if gr in dead:
            alive[k] = False
    R.dropped_hints = [cands[k][0] for k in range(nh) if not alive[k]]
    cands = [c for c, a in zip(cands, alive) if a]
    if use_templates or linear:
        seen = {x.i for _, x in cands}
        cands += [(a, x) for a, x in templates(m, samples, tlimit, linear) if x.i not in seen]
    R.ncand = len(cands)
    E0 = Env.fresh(m.s, "0")
    reqs0 = [zb(E0.val(x.i)) for _, x in m.reqs]
    E1 = E0.step("1")
    Ei = Env.init2(m.s, m, mem_init)
    # initiation filter
    s = z3.Solver()
    keep = []
    for n_, x in cands:
        f = zb(Ei.val(x.i))
        f = z3.simplify(f)
        if z3.is_true(f):
            keep.append((n_, x))
        elif z3.is_false(f):
            if (n_, x) in m.hints[:0]:
                pass
        else:
            s.push()
            s.add(z3.Not(f))
            if s.check() == z3.unsat:
                keep.append((n_, x))
            s.pop()
    cands = keep
    # Houdini
    pre = {i: zb(E0.val(x.i)) for i, (n_, x) in enumerate(cands)}
    post = {i: zb(E1.val(x.i)) for i, (n_, x) in enumerate(cands)}
    live = list(pre)
    rounds = 0
    # candidates may speak about inputs/comb ports at t+1: bring the preconditions at t+1 along
    reqs1 = [zb(E1.val(x.i)) for _, x in m.reqs]
    t_h = time.time()
    single = False
    while True:
        rounds += 1
        s = z3.Solver()
        s.set("timeout", int(min(timeout, 4) * 1000))
        for r in reqs0 + reqs1:
            s.add(r)
        for i in live:
            s.add(pre[i])
        q = [i for i in live if not z3.is_true(z3.simplify(post[i]))] if rounds == 1 else q
        q = [i for i in q if i in set(live)]
        if not q:
            break
        s.push()
        s.add(z3.Or([z3.Not(post[i]) for i in q]))
        r = s.check()
        if r == z3.unsat:
            break
        if r == z3.unknown:
            # decide one by one in parallel
            single = True
            res = pmap(lambda i: _chk(reqs0 + reqs1 + [pre[j] for j in live], post[i], timeout), q, jobs)
            bad = {i for i, (v, _, _) in zip(q, res) if v != "unsat"}
            if not bad:
                break
            live = [i for i in live if i not in bad]
            continue
        mod = s.model()
        bad = {i for i in q if not z3.is_true(mod.eval(post[i], model_completion=True))}
        live = [i for i in live if i not in bad]
    R.houdini_rounds = rounds
    invs = [cands[i] for i in live]
    R.invs = [n_ for n_, _ in invs]
    names = set(R.invs)
    R.dropped_hints += [n_ for n_, x in m.hints if n_ not in names and n_ not in R.dropped_hints]
    R.t_houdini = time.time() - t_h
    # ------- the obligations, each a named VC
    H0 = reqs0 + [pre[i] for i in live]
    obs = []
    for i in live:
        obs.append(("init:" + cands[i][0], [], zb(Ei.val(cands[i][1].i))))
        obs.append(("preserve:" + cands[i][0], H0 + reqs1, post[i]))
    for n_, x in m.ens:
        obs.append(("ensures:" + n_, H0, zb(E0.val(x.i))))
    groups = {}
    # invariants were just established together; re-discharge them in batches, ensures one by one
    batch = []
    tasks = []
    ninv = len(obs) - len(m.ens)
    B = 1 if single else max(1, ninv // (jobs * 2) + 1)
    pi = [o for o in obs[:ninv] if o[0].startswith("init:")]
    pp = [o for o in obs[:ninv] if o[0].startswith("preserve:")]
    for lst, hyp in ((pi, []), (pp, H0 + reqs1)):
        for k in range(0, len(lst), B):
            tasks.append(([o[0] for o in lst[k:k + B]], hyp, [o[2] for o in lst[k:k + B]]))
    R.kind = {}

    def kinduct(name, x, kmax, unr=[]):
        """ensures over the last k steps: base cases from reset, step from any state satisfying invs"""
        if not unr:
            unr.append([E0, E1])
            unr.append([Ei])
        Es, Is = unr
        for k in range(1, kmax + 1):
            while len(Es) <= k:
                Es.append(Es[-1].step("%d" % len(Es)))
            hyp = [pre[i] for i in live]
            for j in range(k + 1):
                hyp += [zb(Es[j].val(y.i)) for _, y in m.reqs]
            for j in range(k):
                hyp.append(zb(Es[j].val(x.i)))
            v, be, mod = _chk(hyp, zb(Es[k].val(x.i)), timeout)
            if v == "unsat":
                for j in range(k):
                    while len(Is) <= j:
                        Is.append(Is[-1].step("i%d" % len(Is)))
                    hyp = []
                    for jj in range(j + 1):
                        hyp += [zb(Is[jj].val(y.i)) for _, y in m.reqs]
                    v2, be, mod = _chk(hyp, zb(Is[j].val(x.i)), timeout)
                    if v2 != "unsat":
                        return v2, be, mod, k
                return "unsat", be, None, k
        return v, be, mod, kmax
    for o in obs[ninv:]:
        tasks.append(([o[0]], o[1], [o[2]]))
    for a, b in m.s.mempairs:
        tasks.append((["preserve:memory %s = %s" % (a, b)], H0, [E1.mems[a] == E1.mems[b]]))
    tasks.append((["vacuity:preconditions+invariants satisfiable"], H0, None))

    def work(t):
        nm, hyp, goals = t
        tt = time.time()
        if goals is None:
            s = z3.Solver()
            s.set("timeout", int(timeout * 1000))
            for h in hyp:
                s.add(h)
            r = s.check()
            return [(nm[0], {"sat": "unsat", "unsat": "sat"}.get(str(r), "unknown"), time.time() - tt, "z3", None)]
        v, be, mod = _chk(hyp, z3.And(goals) if len(goals) > 1 else goals[0], timeout, model=True)
        if v != "unsat" and nm[0].startswith("ensures:"):
            x = dict(m.ens)[nm[0][8:]]
            v2, be2, mod2, k = kinduct(nm[0], x, m.kmax)
            if v2 == "unsat":
                return [(nm[0], v2, time.time() - tt, be2 + " k=%d" % k, None)]
        if v != "unsat" and len(nm) > 1:
            out = []
            for a, b in zip(nm, goals):
                t1 = time.time()
                v, be, mod = _chk(hyp, b, timeout, model=True)
                out.append((a, v, time.time() - t1, be, mod))
            return out
        dt = (time.time() - tt) / len(nm)
        return [(a, v, dt, be, mod) for a in nm]
    res = pmap(work, tasks, jobs)
    for r in res:
        R.obligations += r
    R.ok = all(v == "unsat" for _, v, _, _, _ in R.obligations) and len(m.ens) > 0
    R.failed = [(n_, v, mod) for n_, v, _, _, mod in R.obligations if v != "unsat"]
    R.t = time.time() - t0
    return R


def _chk(hyps, goal, timeout, model=False):
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    be = "z3-" + z3.get_version_string()
    if r == z3.unsat:
        return "unsat", be, None
    if r == z3.sat:
        mod = None
        if model:
            mm = s.model()
            mod = {d.name(): mm[d].as_long() for d in mm.decls() if d.arity() == 0 and z3.is_bv_sort(d.range())}
        return "sat", be, mod
    r2, be2 = external(s.to_smt2(), timeout)
    if r2:
        return r2, be2, None
    return "unknown", be, None
