"""development aid, no check uses it.
plant.py new FILE    FILE defines ID PROP EDITS=[(path,old,new)] NEEDS BREAKS DEMO (python text, run under PyPy beside lib.py)
plant.py test ID...  patch a scratch copy and run the property's quick check on it"""
import sys, os, subprocess, shutil, json, tempfile, time
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
S = V + "/seeded"
PY = "/opt/pypyvenv/bin/python"
SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec timeout 280 /opt/pypyvenv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    sh("cp -a /repo %s/repo" % d)
    return d


def demo(i, repo):
    d = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
    for f in os.listdir(S + "/" + i):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(S + "/" + i + "/" + f, d)
    r = sh("bash %s/demo.sh" % d, cwd=repo)
    shutil.rmtree(d)
    return r


def tests(repo):
    o = repo + "/../o.json"
    t = open("/opt/vp/test.sh").read().replace("cp -r /repo/migen_src /repo/test_files /repo/simulations",
                                               "cp -r %s/migen_src %s/test_files %s/simulations" % (repo, repo, repo))
    open(repo + "/../t.sh", "w").write(t)
    sh("bash %s/../t.sh %s" % (repo, o))
    return json.load(open(o))


def new(fn):
    env = {}
    exec(open(fn).read(), env)
    i = env["ID"]
    d = copy()
    repo = d + "/repo"
    try:
        for p, a, b in env["EDITS"]:
            t = open(repo + "/" + p).read()
            assert t.count(a) == 1, (p, t.count(a), a)
            open(repo + "/" + p, "w").write(t.replace(a, b))
        diff = sh("git diff", cwd=repo).stdout
        os.makedirs(S + "/" + i, exist_ok=True)
        D = S + "/" + i + "/"
        open(D + "patch.diff", "w").write(diff)
        open(D + "demo.py", "w").write(env["DEMO"])
        open(D + "demo.sh", "w").write(env.get("SH", SH))
        for n_, t_ in env.get("EXTRA", {}).items():
            open(D + n_, "w").write(t_)
        if "lib import" in env["DEMO"]:
            shutil.copy(H + "/seedlib/lib.py", D)
        json.dump(dict(property=env["PROP"], needs=env["NEEDS"], what_it_breaks=env["BREAKS"]), open(D + "meta.json", "w"), indent=1)
        a = demo(i, "/repo")
        b = demo(i, repo)
        t = tests(repo)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        print(i, "clean rc", a.returncode, a.stdout[-500:], "patched rc", b.returncode, b.stdout[-300:], "tests failed:",
              [x for x in base if x not in t.get("passed", t)] if "passed" in t else t)
        print("BUILD", sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh; bash %s/b.sh | tail -3" % (repo, d, d)).stdout.strip())
    finally:
        shutil.rmtree(d)


def test(i, tier="quick"):
    d = copy()
    repo = d + "/repo"
    p = json.load(open(S + "/" + i + "/meta.json"))["property"]
    t0 = time.time()
    try:
        r = sh("git apply %s/%s/patch.diff" % (S, i), cwd=repo)
        assert r.returncode == 0, r.stdout
        r = sh("VERIF_REPO=%s python3-vt %s/check.py %s %s" % (repo, H, p, tier), cwd=V)
        print(i, p, "rc", r.returncode, "%.0fs" % (time.time() - t0), " | ".join(r.stdout.strip().split("\n")[-3:])[:400])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for f in sys.argv[2:]:
            new(f)
    else:
        for i in sys.argv[2:] or sorted(os.listdir(S)):
            test(i)
