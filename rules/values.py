"""The values a model hands out: current, the same in both precisions, and never
those of a failed calculation."""
import re
from common import *
from models import last, only, entry, is_sub, field_path, overload, KINDS
import models

THIS = ("p", ("arg", 0), ())
H = "ModelDataHolder"
FP = r"(boost::multiprecision::(backends::)?(number|float128_backend))"

# -- the holder of the values: every history of calls, for one representative element --------------
# A vector is empty ("E") or its representative element has a tag: C (the value the model has),
# Z (zero), N (the value now set), S (a value it had), O (a value set for another element), ? (unknown).
class Holder(Client):
    max_depth = 6
    max_states = 4000
    str_depth = 0
    def __init__(self, p, indexes):
        self.p, self.indexes, self.bad = p, indexes, []
    def norm(self, a):
        """the place of a number: members of the number classes are the number"""
        path = a[2]
        while path and str(path[-1]) in ("m_backend", "m_value"): path = path[:-1]
        return (a[1], path)
    def tag_at(self, st, a):
        if not a or a[0] != "p": return "?"
        b, path = self.norm(a)
        if path and path[-1] == "$el": return self.vec(st, (b, path[:-1]))
        if path and path[-1] == "$other": return "?"
        if b[0] == "arg" and b[1] > 0 and not path: return "N"
        v = st.mem.get((b, path))
        return v[1] if v and v[0] == "tag" else "?"
    def tag_of(self, st, v):
        if v is None: return "?"
        if v[0] == "tag": return v[1]
        if v == ("c", 0) or (v[0] == "d" and float(v[1] or 0) == 0): return "Z"
        if v[0] == "p": return self.tag_at(st, v)
        return "?"
    def set_at(self, ns, a, tag):
        if not a or a[0] != "p": return
        b, path = self.norm(a)
        if path and path[-1] == "$el": ns.mem[(b, path[:-1] + ("$vec",))] = ("tag", tag)
        elif path and path[-1] == "$other": pass
        else: ns.mem[(b, path)] = ("tag", tag)
    def vec(self, st, k):
        if k[0][0] == "arg" and k[0][1] > 0: return "N"
        v = st.mem.get((k[0], k[1] + ("$vec",)))
        return v[1] if v else "?"
    def setvec(self, ns, k, t): ns.mem[(k[0], k[1] + ("$vec",))] = ("tag", t)
    def number(self, fn, o):
        return isinstance(o, dict) and "d" in o
    def load(self, ip, st, fn, i, ptr):
        if not ptr or ptr[0] != "p": return None
        if i[4] in ("double", "x86_fp80", "fp128") : return ("tag", self.tag_at(st, ptr))
        if ptr[2] and ptr[2][-1] == "length": return ("c", 1)
        if ptr[2] and ptr[2][-1] == "$index": return ("c", 0) if self.indexes == "hit" else ("sym", "elsewhere")
        return None
    def store(self, ip, st, fn, i, v, ptr):
        if ptr and ptr[0] == "p" and i[5] in ("double", "x86_fp80", "fp128"):
            o = i[3]
            t = ("Z" if float(o["d"]) == 0 else "?") if self.number(fn, o) else self.tag_of(st, v)
            self.set_at(st, ptr, t)
            return True
        return None
    def key(self, a): return (a[1], a[2]) if a and a[0] == "p" else None
    def iters(self, st, a):
        if not a: return None
        if a[0] == "it": return a
        if a[0] != "p": return None
        for k in ((a[1], a[2] + ("_M_current",)), (a[1], a[2])):
            v = st.mem.get(k)
            if v and v[0] == "it": return v
        return None
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        R = lambda v=None: [(ns, v, "ret")]
        arg = lambda k: args[k] if len(args) > k else None
        opnd = inst[4]
        def tagarg(k):
            if k < len(opnd) and isinstance(opnd[k], dict) and "d" in opnd[k]: return "Z" if float(opnd[k]["d"]) == 0 else "?"
            return self.tag_of(st, arg(k))
        if n.startswith("GetMDtype") or is_sub(q, H): return None
        if q.startswith("llvm.memset"): return R()
        if re.match(FP, q):
            if n.startswith("operator") and n[8:].strip() in ("double", "float", "long double", "__float128"): return R(("tag", self.tag_at(st, arg(0))))
            if n == "operator=" or n == q.split("::")[-2] or n in ("assign",):
                self.set_at(ns, arg(0), tagarg(1) if len(args) > 1 else "Z"); return R(arg(0))
            if n in ("backend", "value"): return R(arg(0))
            if n == "convert_to": return R(("tag", self.tag_at(st, arg(0))))
            if n.startswith("~"): return R()
            return None
        k = self.key(arg(0))
        if q.startswith("std::vector::") and k:
            t = self.vec(st, k)
            if n == "vector":
                if len(args) == 1: self.setvec(ns, k, "E")
                elif len(args) >= 2 and self.key(arg(1)) and "initializer_list" not in fn.d and not self.iters(st, arg(1)):
                    self.setvec(ns, k, self.vec(st, self.key(arg(1))))
                elif self.iters(st, arg(1)): self.setvec(ns, k, self.vec(st, self.iters(st, arg(1))[1]))
                elif arg(1) == ("c", 0): self.setvec(ns, k, "E")
                else: self.setvec(ns, k, tagarg(2) if len(args) > 2 else "Z")
                return R()
            if n.startswith("~"): ns.mem.pop((k[0], k[1] + ("$vec",)), None); return R()
            if n == "swap" and self.key(arg(1)):
                o = self.key(arg(1)); self.setvec(ns, k, self.vec(st, o)); self.setvec(ns, o, t); return R()
            if n == "operator=": self.setvec(ns, k, self.vec(st, self.key(arg(1))) if self.key(arg(1)) else "?"); return R(arg(0))
            if n == "resize":
                if arg(1) == ("c", 0): self.setvec(ns, k, "E")
                elif t == "E": self.setvec(ns, k, tagarg(2) if len(args) > 2 else "Z")
                return R()
            if n == "assign":
                it = self.iters(st, arg(1))
                self.setvec(ns, k, self.vec(st, it[1]) if it else tagarg(2)); return R()
            if n == "clear": self.setvec(ns, k, "E"); return R()
            if n == "empty": return R(TRUE if t == "E" else FALSE)
            if n == "size": return R(("c", 0) if t == "E" else ("c", 1))
            if n in ("reserve", "shrink_to_fit"): return R()
            if n in ("push_back", "emplace_back"): self.setvec(ns, k, tagarg(1)); return R()
            if n in ("operator[]", "at"):
                isindex = k[0][0] == "arg" and k[0][1] > 0 and self.p_elem(inst)
                x = arg(1)
                if x == ("c", 0):
                    if t == "E": self.bad.append((fn, inst, "an element of an empty list of values is used"))
                    return R(("p", k[0], k[1] + ("$index" if isindex else "$el",)))
                if x and x[:2] == ("sym", "elsewhere"): return R(("p", k[0], k[1] + ("$other",)))
                if x and x[0] in ("c", "pos"): self.bad.append((fn, inst, "an element beyond the end of the list of values is used"))
                return R(("p", k[0], k[1] + ("$other",)))
            if n in ("begin", "cbegin", "data"): return R(("it", k, 0 if t != "E" else 1, self.p_elem(inst)))
            if n in ("end", "cend"): return R(("it", k, 1, self.p_elem(inst)))
            return None
        if n in ("operator!=", "operator==") and len(args) >= 2:
            a, b = self.iters(st, arg(0)), self.iters(st, arg(1))
            if a and b: return R(TRUE if (a[2] == b[2]) == (n == "operator==") else FALSE)
        if n == "operator++" and self.iters(st, arg(0)):
            a = self.iters(st, arg(0))
            for kk in ((arg(0)[1], arg(0)[2] + ("_M_current",)), (arg(0)[1], arg(0)[2])):
                if kk in ns.mem: ns.mem[kk] = a[:2] + (1,) + a[3:]
            return R(arg(0))
        if n in ("operator*", "operator->") and self.iters(st, arg(0)):
            a = self.iters(st, arg(0))
            return R(("p", a[1][0], a[1][1] + ("$index" if a[3] else "$el",)))
        if re.search(r"iterator::__?\w*iterator$", q) and self.iters(st, arg(1)) and self.key(arg(0)):
            ns.mem[(arg(0)[1], arg(0)[2] + ("_M_current",))] = self.iters(st, arg(1)); return R()
        if q in ("std::copy", "std::transform", "std::move") and len(args) >= 3 and self.iters(st, arg(0)) and self.iters(st, arg(2)):
            self.setvec(ns, self.iters(st, arg(2))[1], self.vec(st, self.iters(st, arg(0))[1]) if self.iters(st, arg(0))[2] == 0 else "?"); return R()
        if q == "std::fill" and self.iters(st, arg(0)): self.setvec(ns, self.iters(st, arg(0))[1], tagarg(2)); return R()
        return None
    def inline_args(self, ip, st, fn, inst, g, args):
        if is_sub(g.q, H) : return True
        return False if g.q.startswith(("std::", "boost::", "__gnu_cxx")) else True
    def p_elem(self, inst):
        """whether the list is one of indexes"""
        return "vector<unsigned " in self.p.dem.get(self.p.callees(inst)[0], "").split("::" + "operator")[0][:60]

FIELDS = ("double_values", "float128_values")
UNI = ("double_uniform_value", "float128_uniform_value")

def abstract(mem):
    """(type, uniform, vectors, uniform values)"""
    b = ("arg", 0)
    return (mem.get((b, ("type",))), mem.get((b, ("is_uniform",))), tuple((mem.get((b, (f, "$vec"))) or ("tag", "?"))[1] for f in FIELDS), tuple((mem.get((b, (f,))) or ("tag", "?"))[1] for f in UNI))

def concrete(a):
    b = ("arg", 0)
    m = {(b, ("type",)): a[0], (b, ("is_uniform",)): a[1]}
    for f, t in zip(FIELDS, a[2]): m[(b, (f, "$vec"))] = ("tag", t)
    for f, t in zip(UNI, a[3]): m[(b, (f,))] = ("tag", t)
    return m

def relabel(a, mode):
    """the tags after a call of which the representative element has, by its meaning, the value mode"""
    def t(x):
        if x in ("E", "?"): return x
        if mode == "same": return x if x in ("C", "S") else "S"
        return "C" if x == mode else "S"
    return (a[0], a[1], tuple(t(x) for x in a[2]), tuple(t(x) for x in a[3]))

ALL = {"set_values": "N", "SetUniformValue": "N", "clear": "Z"}
READERS = {"GetValues", "GetUniformValue", "IsZero", "IsOne", "IsUniform", "expand_uniform", "GetLength"}
def precision(f): return 1 if "float128" in f.d else 0

def check_holder(p, res):
    ms = {}
    for f in p.fns.values():
        if is_sub(f.q, H) and f.q.count("::") == 1 and last(f.q) not in (H, "~" + H):
            outside = any(not is_sub(c[0].q if isinstance(c, tuple) else c.q, H) for c in callers_of(p, f))
            if outside or last(f.q) in ALL or last(f.q) in ("set_indexes", "SetValue"): ms[f.n] = f
    ctors = p.find(f"{H}::{H}")
    if not ctors: raise Broken("no constructor of ModelDataHolder")
    start = set()
    for c in ctors:
        if len(c.aty) < 2: continue
        h = Holder(p, "hit")
        for s, rv, kind, tr in Interp(p, h).run(c, State({(0, "a0"): THIS}, {}, ())):
            if kind != "ret": continue
            m = s.mem
            for f in FIELDS: m.setdefault((("arg", 0), (f, "$vec")), ("tag", "E"))
            for f in UNI:
                if (("arg", 0), (f,)) not in m: m[(("arg", 0), (f,))] = ("tag", "Z")
            start.add(relabel(abstract(m), "Z"))
    seen, todo = {}, list(start)
    for s in todo: seen[s] = None
    def path(a):
        out = []
        while seen.get(a): a, f = seen[a]; out.append(f)
        return out[::-1]
    skipped = set()
    while todo:
        a = todo.pop()
        for f in ms.values():
            n = last(f.q)
            if n in ALL: modes = [("hit", ALL[n])]
            elif n == "set_indexes": modes = [("hit", "N"), ("miss", "Z")]
            elif n == "SetValue": modes = [("hit", "N"), ("miss", "same"), ("beyond", "same")]
            elif n in READERS: modes = [("hit", "same")]
            else: skipped.add(n); continue
            for variant, mode in modes:
                h = Holder(p, variant)
                st = State({(0, f"a{k}"): ("p", ("arg", k), ()) for k, t in enumerate(f.aty) if t == "ptr"}, concrete(a), ())
                if n == "SetValue": st.env[(0, "a1")] = {"hit": ("c", 0), "miss": ("sym", "elsewhere"), "beyond": ("c", 1)}[variant]
                for k, t in enumerate(f.aty):
                    if t in ("double",): st.env[(0, f"a{k}")] = ("tag", "N")
                outs = Interp(p, h).run(f, st)
                res.count("transitions")
                for fn, inst, what in h.bad:
                    res.add(f"element:{f.d}:{what}", f"{f.q}: {what}", fn.where(inst), [f"after {' '.join(path(a))}"])
                for s, rv, kind, tr in outs:
                    if kind != "ret": continue
                    b = relabel(abstract(s.mem), mode)
                    hist = [f"after {', '.join(path(a) + [name_of(f)])}"]
                    check_state(res, b, f, hist)
                    if n == "GetValues":
                        got = None
                        if rv and rv[0] == "p" and rv[2] and rv[2][-1] in FIELDS: got = b[2][FIELDS.index(rv[2][-1])]; want = FIELDS[precision(f)]
                        if got is not None and (got != "C" or rv[2][-1] != want):
                            res.add(f"values:{f.d}", f"{name_of(f)}: hands out values that are {describe(got) if got != 'C' else 'in the other precision'}", f.where(), hist)
                        res.count("reads_checked")
                    if n in ("IsZero", "IsOne") and rv != FALSE and b[1] != TRUE: res.add(f"uniform:{f.d}", f"{name_of(f)}: answers yes for values that differ", f.where(), hist)
                    if n == "IsUniform" and rv in (TRUE, FALSE) and rv != b[1]: res.add(f"uniform:{f.d}", f"{name_of(f)}: does not tell whether the values are all the same", f.where(), hist)
                    if b not in seen and len(seen) < 400:
                        seen[b] = (a, name_of(f)); todo.append(b)
    res.count("holder_states", len(seen)); res.count("holder_methods", len(ms))
    if skipped: res.count("holder_methods_not_classified", len(skipped))
    res.need("holder_methods", 15); res.need("reads_checked", 10)

def describe(t): return {"S": "not current", "E": "missing", "?": "unknown", "Z": "zero", "N": "not current"}.get(t, t)
def name_of(f): return last(f.q) + ("<float128>" if precision(f) else "<double>" if "double" in f.d else "")

def check_state(res, b, f, hist):
    ty, uni, vecs, us = b
    if uni == TRUE:
        for n, t in zip(UNI, us):
            if t == "S": res.add(f"state:{f.d}:{n}", f"{name_of(f)}: leaves {n} as it was, so that the two precisions disagree", f.where(), hist)
    elif uni == FALSE:
        for n, t in zip(FIELDS, vecs):
            if t == "S": res.add(f"state:{f.d}:{n}", f"{name_of(f)}: leaves a copy of the values in {n} that is not current", f.where(), hist)
        if ty in (("c", 0), ("c", 1)) and vecs[ty[1]] == "E":
            res.add(f"state:{f.d}:type", f"{name_of(f)}: the values are lost: {FIELDS[ty[1]]} is named as holding them and is empty", f.where(), hist)

def callers_of(p, f):
    return p.callers().get(f.n, ())


# -- the model: when values are calculated, and when they may be read --------------------------------
CALC = re.compile(r"calc\w*Values$")
MUT = {"set_values", "SetUniformValue", "clear", "set_indexes", "SetValue"}
class Calc(Client):
    """prop = (what became of the calculation of this call, floating point flags, owner told, bad events)"""
    max_depth = 6
    unwind = True
    def __init__(self, p, cls, fresh, busy):
        self.p, self.cls, self.owner, self.fresh, self.busy = p, cls, KINDS[cls], fresh, busy
        self.interesting = {cls + "::CalculateValues", H + "::GetValues"}
        self.bad, self.reads, self.calcs = [], 0, 0
        self.cached = cls != "InterfaceNodeModel"
    def is_fresh(self, st): return st.mem.get((("arg", 0), self.fresh))
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs) or (min(qs) if qs and len({last(x) for x in qs}) == 1 else None)
        if q is None: return None
        n, ns = last(q), st.copy()
        calc, fpe, told, log = st.prop
        def to(c=calc, f=fpe, t=told): ns.prop = (c, f, t, log); return ns
        def bad(what): self.bad.append((fn, inst, what))
        if q == "FPECheck::ClearFPE":
            if fpe == "calculated": bad("the floating point exceptions of the calculation are cleared without having been looked at")
            return [(to(f="clear"), None, "ret")]
        if q == "FPECheck::CheckFPE" and not args:
            if fpe in ("clear", "none"): return [(ns, FALSE, "ret")]
            if fpe == "raised": return [(ns, TRUE, "ret")]
            a, b = st.copy(), st.copy()
            a.prop, b.prop = (calc, "raised", told, log), (calc, "none" if fpe == "calculated" else fpe, told, log)
            return [(a, TRUE, "ret"), (b, FALSE, "ret")]
        if CALC.search(n) and args and args[0] == THIS:
            self.calcs += 1
            if fpe != "clear": bad("a calculation is begun with floating point exceptions of something else pending")
            b = st.mem.get((("arg", 0), self.busy))
            if b != TRUE: bad("a calculation is begun without the model being marked as in process")
            if self.cached and self.is_fresh(st) == TRUE: bad("values that are current are calculated again")
            if self.cached and "was busy" in log: bad("a calculation is begun while one of the same model is in process")
            th = st.copy()
            ns.mem[(("arg", 0), self.fresh)] = ("sym", "set by the calculation")
            ns.prop, th.prop = ("done", "calculated", False, log), ("failed", "calculated", False, log)
            return [(ns, None, "ret"), (th, None, "throw")]
        if n == "SignalCallbacks" and is_sub(q, self.owner): return [(to(t=True), None, "ret")]
        if is_sub(q, H) and args and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0):
            if n in MUT: ns.prop = ("set", fpe, told, log); return [(ns, None, "ret")]
            if n in READERS and n != "GetLength":
                self.reads += 1
                ok = calc == "set" or (self.is_fresh(st) == TRUE if self.cached else calc == "done" or n == "IsUniform" and self.is_fresh(st) == TRUE) and not (calc == "done" and fpe in ("calculated", "raised"))
                if not ok: bad(f"{H}::{n} is used while the values of the model may not be current")
                if n in ("GetValues", "GetUniformValue") : ns.prop = (calc, fpe, told, log)
                return [(ns, None, "ret")]
            return [(ns, None, "ret")]
        if q in ("OutputStream::WriteOut", "GeometryStream::WriteOut") or is_sub(q, "dsErrors"):
            ps, const = ip.sig(self.p.callees(inst)[0])
            off = 1 if ps is not None and len(args) == len(ps) + 1 else 0
            if any(t.endswith("OutputType") and args[off + k] == ("c", 4) for k, t in enumerate(ps or []) if off + k < len(args)): return [(ns, None, "throw")]
            return [(ns, None, "ret")]
        if q in ("__cxa_rethrow", "__cxa_throw"): return [(ns, None, "throw")]
        return None
    def inline_args(self, ip, st, fn, inst, g, args):
        return is_sub(g.q, self.cls) and bool(args) and args[0] == THIS or self.flags(g)
    def flags(self, g):
        """a helper that clears or looks at the floating point exceptions"""
        known = self.p.__dict__.setdefault("_clears", {})
        if g.n not in known:
            known[g.n] = not g.q.startswith("FPECheck::") and not CALC.search(last(g.q)) and any(self.p.q(s) in ("FPECheck::ClearFPE", "FPECheck::CheckFPE") for b, k, i in g.calls() for s in self.p.callees(i))
        return known[g.n]

def check_calc(p, res):
    for cls in sorted(KINDS):
        fresh, busy = field_path(p, cls + "::IsUpToDate"), field_path(p, cls + "::IsInProcess")
        if fresh is None or busy is None: raise Broken(f"{cls}: the fields for current and in process are not known")
        base = {c.q for c in p.fns.values() if is_sub(c.q, cls)}
        for f in sorted((f for f in p.fns.values() if is_sub(f.q, cls) and f.q.count("::") == 1 and last(f.q) not in (cls, "~" + cls) and f.aty and f.aty[0] == "ptr"), key=lambda f: f.n):
            if last(f.q) == "GetUniformValue": continue
            for fv in (TRUE, FALSE):
                for bv in (TRUE, FALSE) if fv == FALSE else (FALSE,):
                    c = Calc(p, cls, fresh, busy)
                    st = State({(0, f"a{k}"): ("p", ("arg", k), ()) for k, t in enumerate(f.aty) if t == "ptr"}, {(("arg", 0), fresh): fv, (("arg", 0), busy): bv}, ("", "any", False, ("was busy",) if bv == TRUE else ()))
                    outs = Interp(p, c).run(f, st)
                    if not c.reads and not c.calcs: continue
                    res.count("model_paths", len(outs)); res.count("model_reads", c.reads)
                    when = [f"called when the values are {'' if fv == TRUE else 'not '}current" + (" and being calculated" if bv == TRUE else "")]
                    for fn, inst, what in c.bad: res.add(f"calc:{cls}:{last(f.q)}:{what}", f"{f.q}: {what}", fn.where(inst), when)
                    for s, rv, kind, tr in outs:
                        calc, fpe, told, log = s.prop
                        u, b = s.mem.get((("arg", 0), fresh)), s.mem.get((("arg", 0), busy))
                        def bad(what): res.add(f"calc:{cls}:{last(f.q)}:{what}", f"{f.q}: {what}", f.where(), when)
                        if calc in ("done", "failed") and bv == FALSE and b != FALSE: bad("the model stays marked as in process " + ("after its calculation" if kind == "ret" else "when its calculation fails"))
                        if kind == "ret" and calc == "done":
                            if fpe in ("calculated", "raised"): bad("values are handed out whose calculation was not found free of floating point exceptions")
                            if c.cached and u != TRUE: bad("the model is not marked as current after its calculation")
                        if kind == "ret" and calc == "failed": bad("the failure of the calculation is not passed on")
                        if kind == "throw" and calc in ("done", "failed") and c.cached:
                            if u != FALSE: bad("values of a failed calculation stay marked as current")
                            if calc == "done" and not told: bad("what depends on values of a failed calculation is not told that they are not current")
        res.count("model_kinds")
    res.need("model_kinds", 5); res.need("model_reads", 25)

# -- the uniform value is only asked for when there is one ---------------------------------------------
class Uniform(Client):
    """prop = objects known to hold a uniform value"""
    max_depth = 2
    def __init__(self, p): self.p, self.bad, self.sites = p, [], 0; self.interesting = {c + "::GetUniformValue" for c in KINDS}
    def key(self, a): return a[1:] if a and a[0] == "p" else a
    def call(self, ip, st, fn, inst, qs, args):
        ns, n = st.copy(), {last(x) for x in qs}
        if not qs or not args: return None
        if n == {"IsUniform"}:
            a, b = st.copy(), st.copy()
            k = self.key(args[0])
            a.prop = st.prop | {k} if k else st.prop
            b.prop = st.prop - {k}
            return [(a, TRUE, "ret"), (b, FALSE, "ret")]
        if n == {"GetUniformValue"}:
            if any(x.rsplit("::", 1)[0] in KINDS for x in qs):
                self.sites += 1
                if self.key(args[0]) not in st.prop: self.bad.append((fn, inst))
            return [(ns, None, "ret")]
        if n & {"operator->", "get", "operator*", "__get", "_M_get"} and all(x.startswith("std::") for x in qs):
            return [(ns, ("p", ("of", self.key(args[0])), ()) if self.key(args[0]) else None, "ret")]
        if n & {"GetScalarValues", "SetValues", "SetNodeValue", "MarkOld", "InitializeValues"} and self.key(args[0]) in st.prop:
            ns.prop = st.prop - {self.key(args[0])}; return [(ns, None, "ret")]
        return None
    def load(self, ip, st, fn, i, ptr):
        if i[4] == "ptr" and ptr and ptr[0] == "p" and (ptr[1], ptr[2]) not in st.mem:
            v = ("p", ("at", ptr[1], ptr[2]), ())
            st.mem[(ptr[1], ptr[2])] = v
            return v
        return None
    def inline_args(self, ip, st, fn, inst, g, args): return False

def check_uniform(p, res):
    fs = {}
    for g in p.fns.values():
        if last(g.q) == "GetUniformValue" and g.q.rsplit("::", 1)[0] in KINDS:
            for c in callers_of(p, g): fs[c[0].n if hasattr(c[0], "n") else c[0]] = c[0] if hasattr(c[0], "n") else p.fns[c[0]]
    for f in fs.values():
        if f.q.rsplit("::", 1)[0] in KINDS: continue
        c = Uniform(p)
        Interp(p, c).run(f, State({(0, f"a{k}"): ("p", ("arg", k), ()) for k, t in enumerate(f.aty) if t == "ptr"}, {}, frozenset()))
        res.count("uniform_readers")
        for fn, inst in c.bad: res.add(f"uniform:{f.q}", f"{f.q}: asks for the uniform value of a model that may not have one", fn.where(inst))
    res.need("uniform_readers", 8)

# -- the length ----------------------------------------------------------------------------------------
class Length(Client):
    """what the holder is made with, and numbers by where they come from"""
    max_depth = 3
    unwind = False
    interesting = {H + "::" + H}
    def __init__(self, p): self.p, self.made = p, []
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        if q == H + "::" + H:
            if len(args) > 1: self.made.append(args[1])
            return [(st.copy(), None, "ret")]
        if q == H + "::GetLength" and args and args[0] and args[0][0] == "p": return [(st.copy(), ("tag", "LEN"), "ret")]
        if inst[7] in ("i64", "i32"): return [(st.copy(), ("tag", "num", q), "ret")]
        return None
    def inline_args(self, ip, st, fn, inst, g, args): return False

def check_length(p, res):
    for cls in sorted(KINDS):
        own = []
        for f in overload(p, cls + "::GetLength", 0):
            for s, rv, kind, tr in Interp(p, Length(p)).run(f, State({(0, "a0"): THIS}, {}, ())):
                if kind == "ret": own.append((f, rv))
        try: fp = field_path(p, cls + "::GetLength")
        except Broken: fp = None
        for f, rv in own:
            res.count("lengths")
            if rv == ("tag", "LEN"): continue
            good = False
            for c in p.find(f"{cls}::{cls}"):
                l = Length(p)
                for s, r, kind, tr in Interp(p, l).run(c, State({(0, f"a{k}"): ("p", ("arg", k), ()) for k, t in enumerate(c.aty) if t == "ptr"}, {}, ())):
                    if kind != "ret": continue
                    v = s.mem.get((("arg", 0), fp)) if fp else None
                    good = bool(l.made) and v is not None and all(x == v for x in l.made)
            if not good: res.add(f"length:{cls}", f"{f.q}: does not answer the number of values that the model holds", f.where())
    res.need("lengths", 5)

def check_values(res):
    p = load()
    check_holder(p, res)
    check_calc(p, res)
    check_uniform(p, res)
    check_length(p, res)
