"""Mechanical extraction of the /repo HDL into a statement-level IR (JSON).

Runs under the interpreter that has nMigen (PyPy).  For one design request it imports the *real*
module from /repo/migen_src, constructs the *real* class, lets the *real* elaborate() build the
circuit, and dumps every statement, driver, signal and memory of the elaborated hierarchy.

What extraction drops: Python-level metaprogramming is executed, not verified (so a class is covered
for the listed constructor arguments); source locations; clock-domain clocks (every domain ticks on
every step); the `full`/`sync` domain split is kept only as separate reset inputs.

usage: extract.py REQ.json OUT.json
REQ = {"repo":..., "module":..., "expr": "Cls(args)", "cut":[class names]}
"""
import sys, os, json, warnings, importlib
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

def build(req):
    src = os.path.join(req["repo"], "migen_src")
    sys.path.insert(0, src)
    os.chdir(src)
    import nmigen
    from nmigen.hdl import ast, ir, rec, mem
    from nmigen.hdl.ast import Signal, Value, SignalKey
    sys.setrecursionlimit(20000)

    insts = []          # every Elaboratable elaborated, in order: (obj, outputs or None)
    cuts = set(req.get("cut", []))
    orig_get = ir.Fragment.get

    def driven(frag):
        for dom, sigs in frag.drivers.items():
            for s in sigs:
                yield s
        for sub, _ in frag.subfragments:
            yield from driven(sub)

    seen_objs = {}
    top_obj = [None]

    def get(obj, platform):
        if isinstance(obj, ir.Fragment):
            return obj
        if id(obj) not in seen_objs:
            seen_objs[id(obj)] = obj
        cname = type(obj).__name__
        if cname in cuts and obj is not top_obj[0]:
            n = len(insts)
            f = orig_get(obj, platform)         # real body, only to learn which ports it drives
            del insts[n:]
            outs = list(driven(f))
            insts.append((obj, cname, True, outs))
            return ir.Fragment()
        f = orig_get(obj, platform)
        if not isinstance(obj, nmigen.Module):
            insts.append((obj, cname, False, None))
        return f
    ir.Fragment.get = staticmethod(get)

    m = importlib.import_module(req["module"])
    env = dict(vars(m))
    top = eval(req["expr"], env)
    top_obj[0] = top
    frag = ir.Fragment.get(top, None)
    frag = frag.prepare()

    sig_ids = {}
    signals = []
    keep = []

    def sid(s):
        k = SignalKey(s)
        i = sig_ids.get(k)
        if i is None:
            i = len(signals)
            sig_ids[k] = i
            keep.append(s)
            w, sg = s.shape()
            signals.append(dict(id=i, name=s.name, w=w, s=bool(sg), reset=int(s.reset) & ((1 << w) - 1)))
        return i

    exprs = []
    memo = {}

    def emit(node):
        key = json.dumps(node)
        i = memo.get(key)
        if i is None:
            i = len(exprs)
            exprs.append(node)
            memo[key] = i
        return i

    ecache = {}
    mem_by_array = {}

    def ex(v):
        k = id(v)
        if k in ecache:
            return ecache[k][0]
        i = ex_(v)
        ecache[k] = (i, v)
        return i

    def ex_(v):
        v = Value.cast(v)
        w, s = v.shape()
        w, s = int(w), bool(s)
        t = type(v)
        if isinstance(v, ast.Const):
            return emit(["const", w, s, v.value])
        if isinstance(v, rec.Record):
            return ex(ast.Cat(*v.fields.values()))
        if isinstance(v, ast.Signal):
            return emit(["sig", w, s, sid(v)])
        if isinstance(v, ast.Operator):
            return emit(["op", w, s, v.operator] + [ex(o) for o in v.operands])
        if isinstance(v, ast.Slice):
            return emit(["slice", w, s, ex(v.value), v.start, v.stop])
        if isinstance(v, ast.Part):
            return emit(["part", w, s, ex(v.value), ex(v.offset), v.width, v.stride])
        if isinstance(v, ast.Cat):
            return emit(["cat", w, s] + [ex(p) for p in v.parts])
        if isinstance(v, ast.Repl):
            return emit(["repl", w, s, ex(v.value), v.count])
        if isinstance(v, ast.ArrayProxy):
            return emit(["arr", w, s, ex(v.index)] + [ex(Value.cast(e)) for e in v._iter_as_values()])
        raise NotImplementedError("expression %r" % t)

    def lhs(v):
        v = Value.cast(v)
        w, s = v.shape()
        if isinstance(v, rec.Record):
            return lhs(ast.Cat(*v.fields.values()))
        if isinstance(v, ast.Signal):
            return ["sig", sid(v), w]
        if isinstance(v, ast.Slice):
            return ["slice", lhs(v.value), v.start, v.stop, w]
        if isinstance(v, ast.Part):
            return ["part", lhs(v.value), ex(v.offset), v.width, v.stride, w]
        if isinstance(v, ast.Cat):
            return ["cat", [lhs(p) for p in v.parts], w]
        if isinstance(v, ast.ArrayProxy):
            return ["arr", ex(v.index), [lhs(e) for e in v._iter_as_values()], w]
        raise NotImplementedError("lhs %r" % type(v))

    def stmts(ss):
        out = []
        for st in ss:
            if isinstance(st, ast.Assign):
                w, s = st.lhs.shape()
                out.append(["assign", lhs(st.lhs), ex(st.rhs)])
            elif isinstance(st, ast.Switch):
                out.append(["switch", ex(st.test), len(st.test),
                            [[list(k), stmts(b)] for k, b in st.cases.items()]])
            else:
                raise NotImplementedError("statement %r" % type(st))
        return out

    groups = []
    mems = {}
    memlist = []

    def mem_of(mm):
        if id(mm) not in mems:
            d = dict(id=len(memlist), name=mm.name, w=mm.width, depth=mm.depth,
                     init=[int(x) for x in mm.init], rd=[], wr=[])
            mems[id(mm)] = (d, mm)
            memlist.append(d)
        return mems[id(mm)][0]

    doms = {}

    def walk(f, path):
        if isinstance(f, ir.Instance):
            p = f.parameters
            ports = f.named_ports
            if f.type == "$memrd":
                md = mem_of(p["MEMID"])
                md["rd"].append(dict(addr=ex(ports["ADDR"][0]), en=ex(ports["EN"][0]),
                                     data=sid(ports["DATA"][0]), clocked=bool(p["CLK_ENABLE"]),
                                     transparent=bool(p["TRANSPARENT"])))
                return
            if f.type == "$memwr":
                md = mem_of(p["MEMID"])
                md["wr"].append(dict(addr=ex(ports["ADDR"][0]), en=ex(ports["EN"][0]),
                                     data=ex(ports["DATA"][0])))
                return
            raise NotImplementedError("instance " + f.type)
        drv = []
        for dom, sigs in f.drivers.items():
            for s in sigs:
                drv.append([sid(s), dom])
        for dname, cd in f.domains.items():
            if cd.rst is not None:
                doms[dname] = sid(cd.rst)
        groups.append(dict(path=path, stmts=stmts(f.statements), drives=drv))
        for i, (sub, name) in enumerate(f.subfragments):
            walk(sub, path + "." + (name or "U%d" % i))

    walk(frag, "top")

    def attrs(o, nest=()):
        r = {}
        p = {}
        for k, v in vars(o).items():
            if k.startswith("_Elab"):
                continue
            x = conv(v)
            if x is not None:
                r[k] = x
            elif isinstance(v, (int, bool)):
                p[k] = int(v)
            elif nest and isinstance(v, nmigen.Elaboratable) and not isinstance(v, nmigen.Module) and id(v) not in nest:
                r[k] = attrs(v, nest + (id(v),))[0]
        return r, p

    def conv(v):
        if isinstance(v, rec.Record):
            return {k: conv(x) for k, x in v.fields.items()}
        if isinstance(v, ast.Signal):
            return sid(v)
        if type(v).__name__ in ("ReadPort", "WritePort"):
            r = {k: conv(getattr(v, k)) for k in ("addr", "data", "en") if isinstance(getattr(v, k), ast.Signal)}
            return r
        if isinstance(v, (list, tuple, ast.Array)) and len(v) and all(isinstance(x, (ast.Signal, rec.Record, list, tuple)) for x in v):
            xs = [conv(x) for x in v]
            return xs if all(x is not None for x in xs) else None
        if isinstance(v, dict) and v and all(isinstance(x, (ast.Signal, rec.Record)) for x in v.values()):
            return {str(k): conv(x) for k, x in v.items()}
        return None

    il = []
    for o, c, cut, outs in insts:
        a, p = attrs(o, (id(o),) if cut else ())
        il.append(dict(cls=c, cut=cut, attrs=a, params=p, is_top=o is top,
                       outs=[sid(s) for s in outs] if outs is not None else None))
    ta, tp = attrs(top)
    subs = {k: attrs(v, (id(top), id(v)))[0] for k, v in vars(top).items()
            if isinstance(v, nmigen.Elaboratable) and not isinstance(v, nmigen.Module)}
    return dict(req=req, subs=subs, signals=signals, exprs=exprs, groups=groups, mems=memlist,
                ports=ta, params=tp, insts=il, doms=doms, top_cls=type(top).__name__)


def main():
    req = json.load(open(sys.argv[1]))
    try:
        out = build(req)
    except Exception as e:       # the real code does not elaborate: reported, not hidden
        import traceback
        out = dict(error="%s: %s" % (type(e).__name__, e), traceback=traceback.format_exc(), req=req)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)

if __name__ == "__main__":
    main()
