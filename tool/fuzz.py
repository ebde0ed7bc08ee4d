"""Search for a failing input by execution (PyPy: fast).  Same contract text as the proof.
usage: fuzz.py PROP TIER UNIT SEED SECONDS CYCLES OUT.json"""
import sys, os, json, random, time
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(os.path.dirname(H), "contracts")]
sys.setrecursionlimit(20000)


def main():
    prop, tier, name, seed, secs, cycles, out = sys.argv[1:8]
    import props
    from explore import explore
    u = [u for u in props.units(prop, tier) if u.name == name][0]
    m = u.mon()
    rng = random.Random(int(seed))
    end = time.time() + float(secs)
    v = None
    n = 0
    while time.time() < end and v is None:
        v, _, _, k = explore(m, rng, int(cycles), 1, bias=u.bias, deadline=end)
        n += k
    json.dump(dict(v=v, n=n), open(out, "w"))


if __name__ == "__main__":
    main()
