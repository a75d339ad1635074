"""Runs recorded calls on the real code: one JSON request per line on stdin, one JSON answer per line."""
import importlib, json, os, sys, tempfile, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")


def dec(x, res):
    k, v = x
    if k == "lit":
        return v
    if k == "f":
        return float.fromhex(v)
    if k == "npf":
        return np.float64(float.fromhex(v))
    if k == "c":
        return complex(float.fromhex(v[0]), float.fromhex(v[1]))
    if k == "arr":
        return np.array([dec(y, res) for y in v["e"]], dtype={"f": float, "i": int, "b": bool, "c": complex}[v["dt"]]).reshape(v["sh"])
    if k == "list":
        return [dec(y, res) for y in v]
    if k == "tuple":
        return tuple(dec(y, res) for y in v)
    if k == "dict":
        return {dec(a, res): dec(b, res) for a, b in v}
    if k == "ref":
        return res[v]
    if k == "glob":
        mod, q = v.split(":")
        o = importlib.import_module(mod)
        for a in q.split("."):
            o = getattr(o, a)
        return o
    raise ValueError(k)


def enc(v, deep=3):
    if v is None or isinstance(v, (bool, str)):
        return ["lit", v]
    if isinstance(v, np.bool_):
        return ["lit", bool(v)]
    if isinstance(v, (int, np.integer)):
        return ["i", int(v)]
    if isinstance(v, (float, np.floating)):
        return ["f", float(v).hex()]
    if isinstance(v, (complex, np.complexfloating)):
        return ["c", [float(v.real).hex(), float(v.imag).hex()]]
    if isinstance(v, np.ndarray):
        return ["arr", dict(sh=list(v.shape), dt=v.dtype.kind, e=[enc(x) for x in v.ravel().tolist()])]
    if isinstance(v, (list, tuple)):
        return ["list" if isinstance(v, list) else "tuple", [enc(x, deep) for x in v]]
    if isinstance(v, dict):
        return ["dict", [[enc(a), enc(b, deep)] for a, b in v.items()]]
    if deep and type(v).__module__.startswith("qctrlopencontrols"):
        at = dict(vars(v), **({"args": v.args} if isinstance(v, BaseException) else {}))
        return ["obj", dict(cls=type(v).__name__, at={k: enc(x, deep - 1) for k, x in at.items()})]
    return ["other", type(v).__name__]


def run(ops):
    res, out = [], []
    for op in ops:
        try:
            if op["op"] == "call":
                r = dec(op["f"], res)(*[dec(a, res) for a in op["args"]], **{k: dec(a, res) for k, a in op["kw"].items()})
            elif op["op"] == "text":
                r = dict(str=str, repr=repr)[op["name"]](dec(op["o"], res))
            else:
                r = getattr(dec(op["o"], res), op["name"])
        except Exception as e:
            res.append(None)
            out.append(["raise", [c.__name__ for c in type(e).__mro__]])
            continue
        res.append(r)
        out.append(enc(r))
    return out


if __name__ == "__main__":
    ans = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        for line in sys.stdin:
            try:
                r = [run(json.loads(line)), {}]
                for f in os.listdir(d):
                    with open(os.path.join(d, f), newline="") as g:
                        r[1][f] = g.read()
                    os.remove(os.path.join(d, f))
            except Exception as e:
                r = ["error", "%s: %s" % (type(e).__name__, e)]
            ans.write(json.dumps(r) + "\n")
            ans.flush()
        os.chdir("/")
