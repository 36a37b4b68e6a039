# Runs the jobs of C21/C22 against the extension module and compares with the expected values.
# argv: jobs file, result file, index of the first job. A job is a JSON line:
#   {"code": "...", "exp": {...}, "tol": 1e-5}    the code leaves its result in r
import sys, json, math, os
import numpy as np
import d10
from d10 import *

jobs = [json.loads(l) for l in open(sys.argv[1])]
res = open(sys.argv[2], "a", buffering=1)


def img(w, h, flat):
    return Image.from_list(w, h, [Rgb(*flat[i:i + 4]) for i in range(0, 4 * w * h, 4)])


IMG = {}
NAMES = ("red", "green", "blue"), ("hue", "saturation", "lightness"), ("hue", "saturation", "value"), ("y", "u", "v"), ("x", "y", "z"), ("l", "a", "b"), ("l", "c", "h")


def channels(c):
    t = type(c).__name__
    n = {"Rgb": 0, "Srgb": 0, "Hsl": 1, "Hsv": 2, "Yuv": 3, "Xyz": 4}.get(t, 5 if t.startswith("Lab") else 6)
    return [getattr(c, k) for k in NAMES[n]] + [c.alpha]


def canon(r):
    if isinstance(r, Image):
        v = [x for c in r.to_list() for x in channels(c)]
        return {"img": [r.width, r.height, v]}
    if r is None:
        return {"none": 0}
    if isinstance(r, (bool, np.bool_)):
        return {"b": bool(r)}
    if isinstance(r, (int, float)):
        return {"f": r}
    if isinstance(r, str):
        return {"s": r}
    if isinstance(r, bytes):
        return {"hex": r.hex()}
    if isinstance(r, np.ndarray):
        return {"np": [str(r.dtype), list(r.shape), r.flatten().tolist()]}
    if isinstance(r, (list, tuple)):
        return {"l": [canon(x) for x in r]}
    if hasattr(r, "type_name"):
        return {"col": [type(r).__name__, channels(r)]}
    return {"?": repr(r)}


def eq(a, b, tol):
    if b == "*":
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= tol * max(1.0, abs(b) if tol < 0.1 else 1.0)
    return a == b


for i in range(int(sys.argv[3]), len(jobs)):
    j = jobs[i]
    if "img" in j:
        IMG[j["img"]] = j["data"]
        continue
    res.write("B %d\n" % i)
    ns = dict(globals())
    ns["I"] = lambda n: img(*IMG[n])
    exp = j["exp"]
    try:
        exec(j["code"], ns)
        got = canon(ns["r"])
    except Exception as e:
        got = {"err": type(e).__name__ + ": " + str(e)}
    except BaseException as e:
        got = {"panic": type(e).__name__ + ": " + str(e)}
    if "err" in exp:
        ok = "err" in got and got["err"].startswith(exp["err"][0] + ": ") if exp["err"][0] else ("err" in got)
        ok = ok and all(t in got["err"] for t in exp["err"][1:])
    elif "rejected" in exp:
        ok = "err" in got or "panic" in got
    else:
        ok = eq(got, exp, j.get("tol", 1e-5))
    if ok:
        res.write("O %d\n" % i)
    else:
        g = json.dumps(got)
        x = json.dumps(exp)
        k = 0
        while k < min(len(g), len(x)) and g[k] == x[k]:
            k += 1
        s = max(0, k - 200)
        res.write("F %d %s\n" % (i, "got %s expected %s" % (g[s:s + 500], x[s:s + 500])))
res.write("E\n")
