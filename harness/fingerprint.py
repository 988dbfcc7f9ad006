"""What a model admits and what it costs, independent of how it was built."""

import hashlib
import json
import random
import warnings

import highspy
import numpy as np
import pyomo.environ as po
from pyomo.repn.plugins.standard_form import LinearStandardFormCompiler

INF = highspy.kHighsInf


def num(x):
    return float("%.9g" % x) + 0.0


def name_of(v, known):
    """known: nodes by what they are called here, whatever their label"""
    i = v.index()
    i = () if i is None else i if type(i) is tuple else (i,)
    return v.parent_component().name + "[" + ",".join(known.get(id(x), str(x)) for x in i) + "]"


def matrix(m, known=None):
    """(names, integrality, bounds, rows, cost, offset); the model is left as it is"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sf = LinearStandardFormCompiler().write(m, mixed_form=True)
    say = (lambda v: v.name) if known is None else (lambda v: name_of(v, {id(n): k for k, n in known.items()}))
    names = [say(v) for v in sf.columns]
    integ = [bool(v.is_binary() or v.is_integer()) for v in sf.columns]
    lo = [-INF if v.lb is None else float(v.lb) for v in sf.columns]
    hi = [INF if v.ub is None else float(v.ub) for v in sf.columns]
    fixed = sorted((say(v), num(v.value)) for v in m.component_data_objects(po.Var) if v.fixed)
    A = sf.A.tocsr()
    c = np.asarray(sf.c.todense()).reshape(-1) if sf.c.shape[0] else np.zeros(len(names))
    off = float(np.asarray(getattr(sf, "c_offset", 0.0)).reshape(-1)[0])
    sense = [bt for _, bt in sf.rows]
    return dict(names=names, integ=integ, lo=lo, hi=hi, fixed=fixed, A=A, rhs=np.array(sf.rhs, dtype=float),
                sense=sense, c=c, off=off)


def digest(x):
    """equal for models with the same variables, conditions and costs, whatever their order"""
    A, names = x["A"], x["names"]
    rows = []
    for r, s in enumerate(x["sense"]):
        js = range(A.indptr[r], A.indptr[r + 1])
        terms = sorted((names[A.indices[j]], num(A.data[j])) for j in js if A.data[j] != 0)
        if not terms and s == 0 and x["rhs"][r] == 0:
            continue
        rows.append([terms, s, num(x["rhs"][r])])
    rows.sort(key=str)
    cols = sorted([n, bool(i), num(a), num(b)] for n, i, a, b in zip(names, x["integ"], x["lo"], x["hi"]))
    cost = sorted([n, num(v)] for n, v in zip(names, x["c"]) if v)
    body = json.dumps([rows, cols, cost, num(x["off"]), x["fixed"]])
    return hashlib.sha1(body.encode()).hexdigest()


def highs(x):
    lp = highspy.HighsLp()
    A = x["A"]
    lp.num_col_, lp.num_row_ = len(x["names"]), A.shape[0]
    lp.col_cost_, lp.offset_ = x["c"], x["off"]
    lp.col_lower_, lp.col_upper_ = np.array(x["lo"]), np.array(x["hi"])
    s = np.array(x["sense"])
    lp.row_lower_ = np.where(s > 0, -INF, x["rhs"]) if len(s) else np.zeros(0)
    lp.row_upper_ = np.where(s < 0, INF, x["rhs"]) if len(s) else np.zeros(0)
    lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
    lp.a_matrix_.start_, lp.a_matrix_.index_, lp.a_matrix_.value_ = A.indptr, A.indices, A.data
    if any(x["integ"]):
        K = highspy.HighsVarType
        lp.integrality_ = [K.kInteger if i else K.kContinuous for i in x["integ"]]
    h = highspy.Highs()
    h.setOptionValue("output_flag", False)
    h.setOptionValue("threads", 1)
    h.setOptionValue("presolve", "off")
    h.setOptionValue("mip_rel_gap", 0.0)
    h.setOptionValue("mip_abs_gap", 0.0)
    h.passModel(lp)
    return h


def optimum(h):
    h.run()
    st = h.getModelStatus()
    if st == highspy.HighsModelStatus.kOptimal:
        return h.getInfo().objective_function_value
    return None


def observed(name):
    return name.startswith("flow[") or ".storage_content[" in name


def support(x, n=10, box=64.0):
    """cheapest plans in a number of directions: equal for models that admit
    the same flows and contents at the same cost"""
    h = highs(x)
    cols = [j for j, v in enumerate(x["names"]) if observed(v)]
    for j in cols:
        h.changeColBounds(j, max(x["lo"][j], min(-box, x["hi"][j])), min(x["hi"][j], max(box, x["lo"][j])))
    fixed = dict(x["fixed"])
    out = []
    for k in range(n):
        c = np.array(x["c"], dtype=float) if k % 2 else np.zeros(len(x["names"]))
        off = 0.0
        for j in cols:
            c[j] += random.Random(f"{k}:{x['names'][j]}").randint(-5, 5)
        for name, v in fixed.items():
            if observed(name):
                off += v * random.Random(f"{k}:{name}").randint(-5, 5)
        h.changeColsCost(len(c), np.arange(len(c), dtype=np.int32), c)
        h.clearSolver()
        r = optimum(h)
        out.append(None if r is None else r + off - (0 if k % 2 else x["off"]))
    return out


def same_support(a, b):
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if x is not None and abs(x - y) > 1e-5 * (1 + abs(x)):
            return False
    return True
