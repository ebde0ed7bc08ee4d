import os, json, subprocess, hashlib, tempfile
PY = "/opt/pypyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

CFG0 = {"bit_depth": 12, "pixels_per_cycle": 2, "LJ92_fifo_depth": 512, "out_bits": 16, "converter": 30,
        "converter_fifo_depth": 512, "vbits_to_cbits_buffer_size": 77, "support_axi_lite": False,
        "axi_lite_debug": False, "predictor_function": 1, "num_of_components": 4}


class ElabError(Exception):
    def __init__(self, msg, tb):
        Exception.__init__(self, msg)
        self.tb = tb


def cfg(**kw):
    d = dict(CFG0)
    d.update(kw)
    return repr(d)


def extract(module, expr, cut=(), repo=None):
    """elaborate and dump; a fresh interpreter per request (clk_domains keeps global state)"""
    req = {"repo": repo or REPO, "module": module, "expr": expr, "cut": list(cut)}
    d = tempfile.mkdtemp(prefix="verif_x_")
    try:
        with open(d + "/r.json", "w") as f:
            json.dump(req, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        p = subprocess.run([PY, HERE + "/extract.py", d + "/r.json", d + "/o.json"], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not os.path.exists(d + "/o.json"):
            raise RuntimeError("extractor crashed: " + p.stderr.decode(errors="replace")[-2000:])
        with open(d + "/o.json") as f:
            ir = json.load(f)
    finally:
        for n in ("r.json", "o.json"):
            try:
                os.unlink(d + "/" + n)
            except OSError:
                pass
        os.rmdir(d)
    if "error" in ir:
        raise ElabError(ir["error"], ir["traceback"])
    return ir


def real(module, expr, trace, watch, repo=None):
    """replay a stimulus on the real code under nMigen's simulator; returns list of rows"""
    req = {"repo": repo or REPO, "module": module, "expr": expr, "trace": trace, "watch": watch}
    d = tempfile.mkdtemp(prefix="verif_r_")
    try:
        with open(d + "/r.json", "w") as f:
            json.dump(req, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        p = subprocess.run([PY, HERE + "/real.py", d + "/r.json", d + "/o.json"], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not os.path.exists(d + "/o.json"):
            raise RuntimeError("simulator crashed: " + p.stderr.decode(errors="replace")[-2000:])
        with open(d + "/o.json") as f:
            o = json.load(f)
    finally:
        for n in ("r.json", "o.json"):
            try:
                os.unlink(d + "/" + n)
            except OSError:
                pass
        os.rmdir(d)
    if "error" in o:
        raise ElabError(o["error"], o["traceback"])
    return o["out"]
