"""A failed evaluation is reported, and gives no values."""
import os, re
from common import *
from models import last, only, entry, field_path
import deps, lengths
from lengths import Tags, flags_of
from esp import split_params

THROWN = deps.FATAL
NE = ("nonempty",)
def nonempty(st, ip, a):
    v = ip.getstr(st, a)
    return v == NE or bool(v and v[0] == "s" and v[1] != "")
def params(ip, p, inst, args):
    """(type, argument) of the declared parameters"""
    ps, _ = ip.sig(p.callees(inst)[0])
    off = len(args) - len(ps or [])
    return [(t, args[off + k]) for k, t in enumerate(ps or []) if 0 <= off + k < len(args)]
STRREF = re.compile(r"^std::(__cxx11::)?(basic_)?string(<.*>)?\s*&$")

def start(f, prop):
    st = entry(f)
    st.env[(0, "a0")] = ("p", ("arg", 0), ())
    st.prop = prop
    return st

def distinct(inst, a, b):
    """two objects are not the same"""
    if inst[0] == "icmp" and inst[3] in ("eq", "ne") and a and b and a[0] == b[0] == "p" and a[1] != b[1] and "al" in (a[1][0], b[1][0]) and {a[1][0], b[1][0]} <= {"al", "arg"}:
        return FALSE if inst[3] == "eq" else TRUE

class Flags:
    """what the survey of the arguments of a function of expressions finds"""
    def __init__(self, p, tags):
        self.flags = flags_of(p, tags)
        inv = next(iter(tags.invalid))
        stored, self.common = {}, None
        for f in p.fns.values():
            if last(f.q) != "doit" or not f.q.startswith(tags.cls.split("::")[0]): continue
            for bl in f.blocks:
                for i in bl:
                    if i[0] != "store" or not isinstance(i[4], int): continue
                    x = f.inst(i[4])
                    if not x or x[0] != "gep" or not x[5] or x[5][-1] in self.flags: continue
                    if isinstance(i[3], dict) and "c" in i[3]: stored.setdefault(x[5][-1], set()).add(i[3]["c"])
                    elif isinstance(i[3], int) and "i32" == i[5]: self.common = x[5][-1]
        same = [k for k, v in stored.items() if v == {0, 1}]
        self.same = same[0] if len(same) == 1 and self.common else None
        # a change of the kind of an argument that can give a value that is not valid
        self.converts = any(i[0] == "store" and isinstance(i[3], dict) and i[3].get("c") == inv and i[5] == "i32" for f in p.fns.values() if f.q.startswith(tags.cls + "::convertTo") for bl in f.blocks for i in bl)

# -- evaluators of expressions --------------------------------------------------------------------------
class Evaluator(Client):
    """prop = (what failed, an error was added)"""
    max_states = 300000
    max_depth = 6
    str_depth = 0
    interesting = set()
    def __init__(self, p, r, cls, tags, survey, fn):
        self.p, self.r, self.cls, self.tags, self.survey = p, r, cls, tags, survey
        self.inv = next(iter(tags.invalid))
        self.fn, self.bad = fn, {}
    def inline_args(self, ip, st, fn, inst, g, args):
        if g.q.startswith("std::"): return False
        c = g.q.rsplit("::", 1)[0]
        if c == self.tags.cls: return last(g.q) in ("operator=", last(c)) or len(g.blocks) == 1
        return c == self.cls or g.q.startswith((self.cls.split("::")[0] + "::{anon}", self.cls + "::"))
    def place(self, a): return (a[1], a[2] + (self.tags.field,))
    def put(self, ip, st, a, v):
        """the value of an expression at a becomes invalid, or some value"""
        if not a or a[0] != "p": return
        ip.havoc_obj(st, a)
        if v == "invalid": st.mem[self.place(a)] = ("c", self.inv)
        else:
            sym = ("sym", "tag", a[1], a[2])
            ip.subst(st, sym, None)
            st.mem[self.place(a)] = sym
            st.mem[(("fact", sym), ())] = ("ne", (self.inv,))
    def tag(self, st, a): return st.mem.get(self.place(a)) if a and a[0] == "p" else None
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and ptr[2] and ptr[2][-1] == self.tags.field and "[]" not in ptr[2]:
            v = st.mem.get((ptr[1], ptr[2]))
            if v is None: v = st.mem[(ptr[1], ptr[2])] = ("sym", "tag", ptr[1], ptr[2][:-1])
            return v
        if ptr and ptr[0] == "p" and ptr[2] and ptr[2][-1] == "second":
            first = st.mem.get((ptr[1], ptr[2][:-1] + ("first",)))
            if (("entry", ptr[1]), ()) in st.mem and first != TRUE:
                self.bad.setdefault("unset", (fn, inst, "the value of a parameter is used where it is not known to be set"))
        return None
    def store(self, ip, st, fn, inst, v, ptr):
        if ptr and ptr[0] == "p" and ptr[2] and ptr[2][-1] == "#0":
            st.mem.pop((ptr[1], ptr[2][:-1] + ("first",)), None)
            if isinstance(inst[3], int):
                d = fn.inst(inst[3])
                src = fn.inst(d[3]) if d and d[0] == "extract" and isinstance(d[3], int) else None
                if src and src[0] == "call" and "DBEntry" in (only(self.p.callee_qs(src)) or ""):
                    st.mem[(("entry", ptr[1]), ())] = TRUE
                    self.r.count("parameter_reads")
                else: st.mem.pop((("entry", ptr[1]), ()), None)
        return None
    def op(self, ip, st, fn, inst, a, b): return distinct(inst, a, b)
    def surveyed(self, ip, st, o, argv):
        """which flags the survey of the arguments can set, taken together"""
        out, sv, tags = [], self.survey, self.tags
        done = (("survey",), argv[1:] if argv else ())
        def case(fix):
            ns = st.copy()
            ip.havoc_obj(ns, o)
            for f, v in fix.items(): ns.mem[(o[1], o[2] + (f,))] = v
            out.append(ns)
            return ns
        bad = next(f for f, t in sv.flags.items() if t == self.inv)
        if st.mem.get(done) is None or sv.converts:
            ns = case({bad: TRUE})
            self.fails(ns, "an argument")
            ns.mem[done] = TRUE
        elif st.mem[done] == TRUE:
            case({bad: TRUE})
            return [(x, None, "ret") for x in out]
        doubles = {f for f, t in sv.flags.items() if t in tags.double}
        kinds = {f: t for f, t in sv.flags.items() if t in tags.of}
        dbl = ("c", next(iter(tags.double)))
        fix = {bad: FALSE, **{f: FALSE for f in kinds}, **{f: TRUE for f in doubles}}
        if sv.same: fix.update({sv.same: TRUE, sv.common: dbl})
        case(fix)
        for f, t in kinds.items():
            if sv.same:
                case({bad: FALSE, f: TRUE, sv.same: FALSE})
                case({bad: FALSE, **{g: FALSE for g in kinds if g != f}, **{g: FALSE for g in doubles}, f: TRUE, sv.same: TRUE, sv.common: ("c", t)})
            else: case({bad: FALSE, f: TRUE})
        for ns in out: ns.mem.setdefault(done, FALSE)
        return [(x, None, "ret") for x in out]
    def fails(self, ns, what): ns.prop = (ns.prop[0] or what, ns.prop[1])
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None:
            return None
        n, ns = last(q), st.copy()
        c = q.rsplit("::", 1)[0] if "::" in q else ""
        a0 = args[0] if args else None
        if q == "dsAssert_": return [(ns, None, "noreturn")]
        if c == self.cls and (n == "eval_function" or n.startswith("Evaluate")) :
            if n == "EvaluateExternalMath":
                m = next((a for t, a in params(ip, self.p, inst, args) if "vector" in t), None)
                if m and m[0] == "p" and ns.mem.get((m[1], m[2] + ("$inv",))):
                    self.put(ip, ns, a0, "invalid"); ns.prop = (ns.prop[0], True)
                    return [(ns, None, "ret")]
            ok, no, odd = ns, st.copy(), st.copy()
            self.put(ip, ok, a0, "some"); self.put(ip, no, a0, "invalid"); self.put(ip, odd, a0, "some")
            no.prop = (no.prop[0] or "a part of the expression", True)
            odd.prop = (odd.prop[0], True)
            return [(ok, None, "ret"), (no, None, "ret")] + ([(odd, None, "ret")] if last(self.fn.q) == "eval_function" else [])
        if n in ("push_back", "emplace_back", "insert", "emplace", "push_front") and "string" in self.p.dem.get(self.p.callees(inst)[0], "") and not (a0 and a0[0] == "p" and a0[1][0] == "al" and a0[1][1] == 0 and a0[1][2] == self.fn.n):
            ns.prop = (ns.prop[0], True)
            return [(ns, None, "ret")]
        if n in ("push_back", "emplace_back") and self.tags.cls.split("::")[-1] in self.p.dem.get(self.p.callees(inst)[0], ""):
            if a0 and a0[0] == "p":
                if self.tag(st, args[1]) == ("c", self.inv): ns.mem[(a0[1], a0[2] + ("$inv",))] = TRUE
            return [(ns, None, "ret")]
        if n in ("empty", "size") and q.startswith(("std::vector", "std::list", "std::deque", "std::__cxx11::list")) and not (a0 and a0[0] == "p" and a0[1][0] == "al" and a0[1][1] == 0 and a0[1][2] == self.fn.n):
            if "string" in self.p.dem.get(self.p.callees(inst)[0], ""):
                if ns.prop[1]: return [(ns, FALSE if n == "empty" else ("nn",), "ret")]
                no = st.copy()
                no.prop = (no.prop[0], True)
                return [(ns, TRUE if n == "empty" else ("c", 0), "ret"), (no, FALSE if n == "empty" else ("nn",), "ret")]
            return [(ns, None, "ret")]
        if n.startswith("doit") and c.startswith(self.cls.split("::")[0]):
            if not self.survey.flags: return None
            self.r.count("surveys")
            return self.surveyed(ip, st, a0, args[1] if len(args) > 1 else None)
        if n == "EvaluateMathFunc":
            err = next((a for t, a in params(ip, self.p, inst, args) if STRREF.match(t)), None)
            no = st.copy()
            if err and err[0] == "p":
                ip.setstr(no, err, NE)
            self.fails(no, "a function")
            self.r.count("function_calls")
            return [(ns, None, "ret"), (no, None, "ret")]
        if q == "FPECheck::CheckFPE":
            no = st.copy(); self.fails(no, "an operation, with a floating point exception")
            self.r.count("exception_checks")
            return [(ns, FALSE, "ret"), (no, TRUE, "ret")]
        if n == "IsInProcess":
            no = st.copy(); self.fails(no, "a model that depends on itself")
            return [(ns, FALSE, "ret"), (no, TRUE, "ret")]
        if n == "SetEntry" and "Cache" in c or n == "SetEntry":
            t = next((self.tag(st, a) for a in args[1:] if self.tag(st, a) is not None), None)
            self.r.count("results_kept")
            if t == ("c", self.inv): self.bad.setdefault("cached", (fn, inst, "a result that is not valid is kept for other expressions"))
            elif st.prop[1]: self.bad.setdefault("cachederror", (fn, inst, "a result obtained together with an error is kept for other expressions, which then have no error"))
            return [(ns, None, "ret")]
        if n == "GetEntry":
            no = st.copy()
            o = args[-1]
            self.put(ip, ns, o, "some")
            return [(ns, TRUE, "ret"), (no, FALSE, "ret")]
        if c == self.tags.cls:
            if re.match(r"operator[-+*/]=$", n) or n == "op_equal":
                x, y = self.tag(st, args[0]), self.tag(st, args[1])
                if ("c", self.inv) in (x, y): self.put(ip, ns, a0, "invalid")
                else: self.put(ip, ns, a0, "some")
                return [(ns, a0, "ret")]
            if n.startswith("convertTo"):
                return [(ns, None, "ret")]
            if n.startswith(("~", "Get")) and n != "GetType": return [(ns, None, "ret")]
            if n == last(c) and len(args) > 1 and args[1] and args[1][0] == "p":
                ps = [t for t, a in params(ip, self.p, inst, args)]
                if ps and "ScalarData" in ps[0]:
                    self.put(ip, ns, a0, "some"); return [(ns, None, "ret")]
            return None
        if q.startswith("std::"):
            return None
        return None

def check_evaluators(r):
    p = load()
    for cls, dcls in (("MEE::ModelExprEval", "MEE::ModelExprData"), ("IMEE::InterfaceModelExprEval", "IMEE::InterfaceModelExprData")):
        tags = Tags(p, dcls)
        if not tags.invalid: raise Broken("no tag for values that are not valid")
        tags.invalid -= set(tags.of) | tags.double
        if len(tags.invalid) != 1: raise Broken("the tag of values that are not valid")
        inv = next(iter(tags.invalid))
        survey = Flags(p, tags)
        fs = [f for f in p.fns.values() if f.q.rsplit("::", 1)[0] == cls and (last(f.q).startswith("Evaluate") or last(f.q) == "eval_function")]
        if inv not in survey.flags.values(): raise Broken(f"no survey of the arguments of {cls} finds values that are not valid")
        for f in fs:
            c = Evaluator(p, r, cls, tags, survey, f)
            st = start(f, (None, False))
            outs = Interp(p, c).run(f, st)
            for s, rv, kind, tr in outs:
                if kind != "ret": continue
                r.count("evaluation_ends")
                t = s.mem.get((("arg", 0), (tags.field,)))
                failed, pushed = s.prop
                invalid = t == ("c", inv)
                if failed and not pushed: r.add(f"{f.q}|silent|{failed}", f"{failed} fails and no error is added ({f.q})", f.where())
                elif invalid and not pushed: r.add(f"{f.q}|nothing", f"{f.q} gives no value and adds no error", f.where())
            for k, (g, i, msg) in sorted(c.bad.items()): r.add(f"{f.q}|{k}", f"{msg} ({g.q})", f"{rel(g.file)}:{i[2]}")
            if DEBUG: print(f.q, len(outs), c.bad.keys())
        # operations on values that are not valid
        for f in p.fns.values():
            if f.q.rsplit("::", 1)[0] != dcls or not re.match(r"operator[-+*/]=$", last(f.q)): continue
            valid = [("c", t) for t in sorted(set(tags.of) | tags.double)]
            for which, x, y in [(0, ("c", inv), v) for v in valid] + [(1, v, ("c", inv)) for v in valid]:
                c = Operator(tags)
                st = entry(f)
                st.mem[(("arg", 0), (tags.field,))] = x
                st.mem[(("arg", 1), (tags.field,))] = y
                for s, rv, kind, tr in Interp(p, c).run(f, st):
                    if kind != "ret": continue
                    r.count("operations")
                    if s.mem.get((("arg", 0), (tags.field,))) != ("c", inv):
                        r.add(f"{f.q}|valid|{which}", f"an operation on a value that is not valid can give one that is ({f.q})", f.where())

class Operator(Client):
    max_depth = 6
    def __init__(self, tags): self.tags, self.interesting = tags, set()
    def inline_args(self, ip, st, fn, inst, g, args): return g.q.rsplit("::", 1)[0] == self.tags.cls
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q == "dsAssert_": return [(st.copy(), None, "noreturn")]
        if q and q.startswith("std::"): return [(st.copy(), None, "ret")]
        return None
DEBUG = False

# -- functions: every failure of a function is in the error string it is given -----------------------------
class MathCalls(Client):
    """prop = (what failed, an error was appended, something was evaluated)"""
    max_depth = 4
    max_states = 200000
    str_depth = 0
    def __init__(self, p, r, f, err):
        self.p, self.r, self.f, self.err, self.bad, self.interesting = p, r, f, err, {}, set()
    def inline_args(self, ip, st, fn, inst, g, args):
        return g.q.startswith(("MathEval::{anon}", "Eqomfp::{anon}")) or (g.q.rsplit("::", 1)[0] == self.f.q.rsplit("::", 1)[0] and not last(g.q).startswith("Evaluate"))
    def op(self, ip, st, fn, inst, a, b):
        if inst[0] == "icmp" and inst[3] in ("eq", "ne") and ("asize",) in (a, b):
            return ("argcount",) if inst[3] == "eq" else ("not", ("argcount",))
        return distinct(inst, a, b)
    def store(self, ip, st, fn, inst, v, ptr):
        if ptr and ptr[0] == "p" and ptr[2] and ptr[2][-1] == "#0":
            st.mem.pop((ptr[1], ptr[2][:-1] + ("first",)), None)
            d = fn.inst(inst[3]) if isinstance(inst[3], int) else None
            src = fn.inst(d[3]) if d and d[0] == "extract" and isinstance(d[3], int) else None
            if src and src[0] == "call" and last(only(self.p.callee_qs(src)) or "") == "GetDouble":
                st.mem[(("conv", ptr[1]), ())] = TRUE
                st.mem[(ptr[1], ptr[2][:-1] + ("first",))] = ("conv", ptr[1], ptr[2][:-1])
                self.r.count("conversions")
            else: st.mem.pop((("conv", ptr[1]), ()), None)
        return None
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and ptr[2] and ptr[2][-1] == "second" and (("conv", ptr[1]), ()) in st.mem and st.mem.get((ptr[1], ptr[2][:-1] + ("first",))) != TRUE:
            self.bad.setdefault("number", (fn, inst, "the number a function returned is used where it is not known to be one"))
        return None
    def is_err(self, a): return a and a[0] == "p" and (a[1], a[2]) == self.err
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        ns = st.copy()
        failed, pushed, done = st.prop
        n = last(q) if q else "?"
        if q == "dsAssert_": return [(ns, None, "noreturn")]
        if n == "Evaluate": return self.nested(ip, st, fn, inst, args, "a function")
        if qs and {last(x) for x in qs} == {"DerivedEvaluate"}:
            self.r.count("function_runs")
            ns.prop = (failed, pushed, True)
            if st.mem.get((("sized",), ())) != TRUE:
                self.bad.setdefault("count", (fn, inst, "a function is evaluated where the number of its arguments is not known to be right"))
            return [(ns, None, "ret")]
        if n in ("EvaluateMathFunc", "EvaluateTclMathFunc"): return self.nested(ip, st, fn, inst, args, "a function")
        if n == "MathPacketRun":
            no = st.copy()
            ns.prop = (failed, pushed, True)
            if args[0] and args[0][0] == "p": ip.setstr(ns, args[0], ("s", "")); ip.setstr(no, args[0], NE)
            no.prop = (failed or "a function", pushed, True)
            return [(ns, None, "ret"), (no, None, "ret")]
        if n == "RunCommand":
            self.r.count("python_runs")
            if st.mem.get((("sized",), ())) != TRUE:
                self.bad.setdefault("count", (fn, inst, "a function is evaluated where the number of its arguments is not known to be right"))
            no = st.copy()
            ns.prop = (failed, pushed, True); no.prop = (failed or "a Python function", pushed, True)
            return [(ns, TRUE, "ret"), (no, FALSE, "ret")]
        if q is None: return None
        if n == "size" and q.startswith("std::vector"): return [(ns, ("asize",), "ret")]
        if n in ("operator+=", "append", "operator=", "assign", "push_back") and q.startswith("std::") and self.is_err(args[0]):
            if n in ("operator=", "assign"): ns.prop = (failed, False, done)
            v = ip.getstr(st, args[1]) if len(args) > 1 and args[1] and args[1][0] == "p" else None
            if not (v and v == ("s", "")): ns.prop = (failed, True, done)
            return [(ns, args[0], "ret")]
        if n in ("clear",) and self.is_err(args[0]):
            ns.prop = (failed, False, done); return [(ns, None, "ret")]
        if n in ("empty", "size", "length") and args and self.is_err(args[0]):
            if pushed: return [(ns, FALSE if n == "empty" else ("nn",), "ret")]
            return [(ns, TRUE if n == "empty" else ("c", 0), "ret")]
        if q.startswith("std::"):
            return [(ns, None, "ret")] if n not in ("basic_string", "str") else None
        return None
    def nested(self, ip, st, fn, inst, args, what):
        ok, no = st.copy(), st.copy()
        failed, pushed, done = st.prop
        got = [a for t, a in params(ip, self.p, inst, args) if STRREF.match(t)]
        ok.prop = (failed, pushed, True)
        no.prop = (failed or what, pushed or any(self.is_err(a) for a in got), True)
        for a in got:
            if a and a[0] == "p" and not self.is_err(a): ip.setstr(no, a, NE)
        return [(ok, None, "ret"), (no, None, "ret")]
    def assume(self, ip, st, v, truth):
        if v[0] == "argcount" and truth: st.mem[(("sized",), ())] = TRUE
        if v[0] == "conv":
            st.mem[(v[1], v[2] + ("first",))] = TRUE if truth else FALSE
            if not truth: st.prop = (st.prop[0] or "the conversion of what a Python function returned",) + st.prop[1:]
        return True

def error_param(f):
    ps, off = split_params(f.d)
    k = [n for n, t in enumerate(ps) if STRREF.match(t) and "const" not in t.split("<")[0]]
    return k

MATH = ("MathEval::EvaluateMathFunc", "MathEval::EvaluateTclMathFunc", "Eqomfp::MathWrapper::Evaluate")
def check_functions(r):
    p = load()
    for q in MATH:
        fs = p.find(q)
        if not fs: raise Broken(f"{q} is gone")
        for f in fs:
            k = error_param(f)
            if len(k) != 1: raise Broken(f"no error string of {q}")
            off = len(f.aty) - len(split_params(f.d)[0])
            err = (("arg", off + k[0]), ())
            c = MathCalls(p, r, f, err)
            st = entry(f)
            st.prop = (None, False, False)
            for s, rv, kind, tr in Interp(p, c).run(f, st):
                if kind != "ret": continue
                r.count("function_ends")
                failed, pushed, done = s.prop
                if failed and not pushed: r.add(f"{q}|silent|{failed}", f"{failed} fails and the error is not handed on ({q})", f.where())
                if not done and not pushed and not q.endswith("EvaluateTclMathFunc"):
                    r.add(f"{q}|nothing", f"{q} can end without having evaluated anything and without an error", f.where())
            for k, (g, i, msg) in sorted(c.bad.items()): r.add(f"{q}|{k}", f"{msg} ({g.q})", f"{rel(g.file)}:{i[2]}")

# -- tasks: what happens in a thread is known to the one that waits for it --------------------------------
FLAGS = ("FPECheck::getFPEFlags", "FPECheck::ClearFPE", "FPECheck::CheckFPE", "FPECheck::raiseFPE", "FPECheck::combineFPEFlags")
class Task(Client):
    """prop = (evaluated, exceptions of the evaluation still there)"""
    interesting = set()
    def __init__(self, p, r, cls, flag, err, f): self.p, self.r, self.cls, self.flag, self.err, self.f, self.bad = p, r, cls, flag, err, f, {}
    def inline_args(self, ip, st, fn, inst, g, args): return g.q.rsplit("::", 1)[0] == self.cls
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = only(qs), st.copy()
        n = last(q) if q else "?"
        if q == "FPECheck::ClearFPE":
            ns.prop = (st.prop[0], False); return [(ns, None, "ret")]
        if q == "FPECheck::getFPEFlags": return [(ns, ("flags",) + st.prop, "ret")]
        if q == "FPECheck::getClearedFlag": return [(ns, ("c", 0), "ret")]
        if q == "FPECheck::combineFPEFlags":
            a, b = args
            keep = next((x for x in (a, b) if x and x[0] == "flags" and x[1:] == (True, True)), None)
            return [(ns, keep or ("comb", a, b), "ret")]
        if n == "Evaluate" or n == "operator{}":
            ns.prop = (True, True)
            self.r.count("task_evaluations")
            ends = [a for a in args if a in (("p", ("arg", 1), ()), ("p", ("arg", 2), ())) or a in (("beg",), ("end",))]
            if ends != [("beg",), ("end",)]: self.bad["range"] = (fn, inst, "a task does not evaluate the part it was given")
            if self.err and not any(a and a[0] == "p" and a[1] == ("arg", 0) and a[2] and a[2][-1] == self.err for a in args):
                self.bad["error"] = (fn, inst, "the errors of a task are not kept")
            return [(ns, None, "ret")]
        return None

class Join(Client):
    """prop = the error string was handed on (None: not yet)"""
    interesting = set()
    def __init__(self, p, r, cls, flag, err): self.p, self.r, self.cls, self.flag, self.err = p, r, cls, flag, err
    def inline_args(self, ip, st, fn, inst, g, args): return g.q.rsplit("::", 1)[0] == self.cls
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and ptr[2] == (self.flag,): return st.mem.get((ptr[1], ptr[2])) or ("flag", ptr[1])
        return None
    def of(self, a): return a[1] if a and a[0] == "p" and a[2] == (self.err,) else None
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = only(qs), st.copy()
        n = last(q) if q else "?"
        if q == "FPECheck::combineFPEFlags": return [(ns, ("comb",) + tuple(sorted([args[0] or ("?",), args[1] or ("?",)], key=str)), "ret")]
        if q and q.startswith("std::"):
            ends = {self.of(a) for a in args}
            if n in ("operator!=", "operator==") and ends == {("arg", 0), ("arg", 1)}:
                same = st.copy()
                same.prop = True
                return [(same, TRUE if n == "operator==" else FALSE, "ret"), (ns, FALSE if n == "operator==" else TRUE, "ret")]
            if n == "empty" and ends == {("arg", 1)}:
                none = st.copy(); none.prop = True
                return [(none, TRUE, "ret"), (ns, FALSE, "ret")]
            if n in ("operator+=", "append") and self.of(args[0]) == ("arg", 0) and self.of(args[1]) == ("arg", 1): ns.prop = True
            return [(ns, None, "ret")]
        return None

class Run(Client):
    """prop = (a task was started, all were waited for, exceptions are known, raised again, errors are handed on)"""
    max_states = 100000
    str_depth = 0
    def __init__(self, p, r, f, err): self.p, self.r, self.f, self.err, self.bad, self.interesting = p, r, f, err, {}, set()
    def inline_args(self, ip, st, fn, inst, g, args): return "{anon}" in g.q and g.file == self.f.file
    def iter(self, st, a):
        if not a or a[0] != "p": return None
        return next((v for (b, path), v in sorted(st.mem.items(), key=str) if b == a[1] and path[:len(a[2])] == a[2] and v and v[0] == "it"), None)
    def kind(self, inst):
        d = self.p.dem.get(self.p.callees(inst)[0], "")
        m = re.match(r"(.*? )?std::vector<(.*)", d)
        return "future" if m and m.group(2).startswith("std::future<") else "packet" if m and m.group(2).startswith(("std::shared_ptr<", "std::unique_ptr<")) and "Packet" in m.group(2) else None
    def op(self, ip, st, fn, inst, a, b):
        if inst[0] == "icmp" and inst[3] == "ult" and a == ("c", 0) and b == ("pos",): return TRUE
        return None
    def finish(self, st, fn, inst, place):
        """an element of the list was dealt with"""
        kind = st.mem.get((("kind", place), ()))
        if kind and st.mem.pop((("did", place), ()), None) != TRUE:
            self.bad.setdefault(kind[1], (fn, inst, "a task is not waited for" if kind[1] == "future" else "what a task found is not taken over"))
    def did(self, st, kind):
        for (b, path), v in list(st.mem.items()):
            if b[0] == "kind" and v == ("kind", kind): st.mem[(("did", b[1]), ())] = TRUE; st.mem[(("ever", kind), ())] = TRUE
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = only(qs), st.copy()
        n = last(q) if q else "?"
        a0 = args[0] if args else None
        set_ = lambda k, v=TRUE: ns.mem.__setitem__(((k,), ()), v)
        if q is None: return None
        if q.startswith("std::vector") and a0 and a0[0] == "p" and self.kind(inst):
            place = (a0[1], a0[2])
            if n in ("push_back", "emplace_back"):
                ns.mem[(("kind", place), ())] = ("kind", self.kind(inst))
                set_("started")
                return [(ns, None, "ret")]
            full = (("kind", place), ()) in st.mem
            if n in ("begin", "end", "cbegin", "cend"): return [(ns, ("it", place, n), "ret")]
            if n in ("front", "back") or n in ("operator[]", "at") and isinstance(inst[4][1], dict): return [(ns, ("single", place), "ret")]
            if n == "size" and full: return [(ns, ("pos",), "ret")]
            if n == "empty" and full: return [(ns, FALSE, "ret")]
            return [(ns, None, "ret")]
        if n in ("operator!=", "operator==") and q.startswith(("__gnu_cxx::", "std::")):
            it = self.iter(st, a0)
            if it and (("kind", it[1]), ()) in st.mem:
                place, yes, no = it[1], ns, st.copy()
                inside = (("in", place), ())
                T, F = (TRUE, FALSE) if n == "operator!=" else (FALSE, TRUE)
                if inside not in st.mem:
                    yes.mem[inside] = TRUE
                    return [(yes, T, "ret")]
                self.finish(yes, fn, inst, place); no.mem.pop((("did", place), ()), None)
                self.r.count("task_loops")
                return [(yes, T, "ret"), (no, F, "ret")]
        if n == "operator++" and self.iter(st, a0): return [(ns, a0, "ret")]
        if q.startswith("std::") and n in ("operator*", "operator->", "get") and a0 and a0[0] == "single" and "_ptr" in q: return [(ns, a0, "ret")]
        if q.startswith(("std::future", "std::__basic_future")) and n in ("get", "wait"):
            if not (a0 and a0[0] == "single"): self.did(ns, "future"); return [(ns, None, "ret")]
        if q == "std::async":
            set_("started"); self.r.count("tasks")
            return [(ns, None, "ret")]
        if n == "join" and "Packet" in q:
            if (("started",), ()) in st.mem and (("ever", "future"), ()) not in st.mem:
                self.bad.setdefault("early", (fn, inst, "what a task found is used before the task was waited for"))
            if not (len(args) > 1 and args[1] and args[1][0] == "single"): self.did(ns, "packet")
            set_("joined", a0)
            return [(ns, None, "ret")]
        if n == "getFPEFlag": return [(ns, ("pf", a0), "ret")]
        if n == "getErrorString": return [(ns, ("err", a0), "ret")]
        if n in ("operator+=", "append", "operator=", "assign", "basic_string") and len(args) > 1 and args[1] and args[1][0] == "err":
            if args[1][1] == st.mem.get((("joined",), ())): set_("errors")
            return [(ns, a0, "ret")]
        if q == "FPECheck::CheckFPE":
            if a0 and a0[0] == "pf" and a0[1] == st.mem.get((("joined",), ())):
                no = st.copy()
                no.mem[(("raised",), ())] = TRUE
                return [(ns, TRUE, "ret"), (no, FALSE, "ret")]
            return [(ns, None, "ret")]
        if q == "FPECheck::raiseFPE":
            if a0 and a0[0] == "pf" and a0[1] == st.mem.get((("joined",), ())): set_("raised")
            return [(ns, None, "ret")]
        if n in ("Evaluate", "operator{}"):
            set_("direct"); return [(ns, None, "ret")]
        return None
    def may_throw(self, ip, st, fn, inst, qs, args): return False

def check_tasks(r):
    p = load()
    for cls, run in (("Eqomfp::MathPacket", "Eqomfp::MathPacketRun"), ("OpEqualPacket", "OpEqualRun")):
        flag = field_path(p, cls + "::getFPEFlag")[-1]
        err = field_path(p, cls + "::getErrorString")[-1] if p.find(cls + "::getErrorString") else None
        for f in need(p, cls + "::operator{}"):
            c = Task(p, r, cls, flag, err, f)
            st = entry(f)
            st.env[(0, "a1")], st.env[(0, "a2")] = ("beg",), ("end",)
            st.prop = (False, False)
            for s, rv, kind, tr in Interp(p, c).run(f, st):
                if kind != "ret": continue
                r.count("task_ends")
                if not s.prop[0]: r.add(f"{f.q}|nothing", f"a task can end without having evaluated its part ({f.q})", f.where())
                elif s.mem.get((("arg", 0), (flag,))) != ("flags", True, True): r.add(f"{f.q}|flags", f"the floating point exceptions of a task are not kept ({f.q})", f.where())
            for k, (g, i, msg) in sorted(c.bad.items()): r.add(f"{f.q}|{k}", f"{msg} ({g.q})", f"{rel(g.file)}:{i[2]}")
        for f in need(p, cls + "::join"):
            c = Join(p, r, cls, flag, err)
            st = entry(f)
            st.prop = not err
            for s, rv, kind, tr in Interp(p, c).run(f, st):
                if kind != "ret": continue
                r.count("joins")
                if s.mem.get((("arg", 0), (flag,))) != ("comb", ("flag", ("arg", 0)), ("flag", ("arg", 1))): r.add(f"{f.q}|flags", f"the floating point exceptions of a task are not taken over ({f.q})", f.where())
                if not s.prop: r.add(f"{f.q}|errors", f"the errors of a task are not taken over ({f.q})", f.where())
        for f in need(p, run):
            c = Run(p, r, f, err)
            st = entry(f)
            st.env[(0, "a0")] = ("p", ("arg", 0), ())
            st.prop = ()
            for s, rv, kind, tr in Interp(p, c).run(f, st):
                if kind != "ret": continue
                has = lambda k: s.mem.get(((k,), ())) is not None
                if not has("started"): continue
                r.count("task_results")
                if not has("joined") or s.mem.get((("ever", "packet"), ())) != TRUE: r.add(f"{f.q}|join", f"what the tasks found is not taken over ({f.q})", f.where())
                elif not has("raised"): r.add(f"{f.q}|raise", f"the floating point exceptions of the tasks are not raised where the result is used ({f.q})", f.where())
                if err and not has("errors"): r.add(f"{f.q}|errors", f"the errors of the tasks are not handed on ({f.q})", f.where())
                if s.mem.get((("ever", "future"), ())) != TRUE: r.add(f"{f.q}|wait", f"the tasks are not waited for ({f.q})", f.where())
            for k, (g, i, msg) in sorted(c.bad.items()): r.add(f"{f.q}|{k}", f"{msg} ({g.q})", f"{rel(g.file)}:{i[2]}")

def need(p, q):
    fs = p.find(q)
    if not fs: raise Broken(f"{q} is gone")
    return fs

# -- floating point exceptions around an evaluation -------------------------------------------------------
ERRORS = (("c", 3), ("c", 4))
EVALUATES = re.compile(r"^(calc\w*Values|[eE]valuate\w*|Derived\w*)$")
MODELS = ("NodeModel", "EdgeModel", "TriangleEdgeModel", "TetrahedronEdgeModel", "InterfaceNodeModel")
def written(p, ip, inst, args):
    """how severe a message is (None: not a message)"""
    q = only(p.callee_qs(inst))
    if q not in ("OutputStream::WriteOut", "GeometryStream::WriteOut") and not (q or "").startswith("dsErrors::"): return None
    return next((a for t, a in params(ip, p, inst, args) if t.endswith("OutputType")), ("?",))
def fpe_users(p):
    """functions that deal with the record of exceptions, other than evaluations"""
    out = {f.n for f in p.fns.values() if not f.q.startswith("FPECheck::") and any(i[0] == "call" and (only(p.callee_qs(i)) or "").startswith("FPECheck::") for bl in f.blocks for i in bl)}
    direct = set(out)
    for _ in range(3):
        out |= {f.n for f in p.fns.values() if not EVALUATES.match(last(f.q)) and not f.q.startswith("FPECheck::") and len(f.blocks) < 80
                and any(i[0] == "call" and any(c in out for c in p.callees(i)) for bl in f.blocks for i in bl)}
    return direct, out

class Exceptions(Client):
    """prop = (exceptions from before are on record, those of this evaluation: none/maybe/yes, an exception is to be reported, one was found)"""
    interesting = set()
    max_depth = 6
    str_depth = 0
    def __init__(self, p, r, f, users, own): self.p, self.r, self.f, self.users, self.own, self.bad, self.seen = p, r, f, users, own, {}, set()
    def inline_args(self, ip, st, fn, inst, g, args):
        if EVALUATES.match(last(g.q)) or "::eval_" in g.q or last(g.q) == "CalculateValues": return False
        if g.n in self.users and not g.q.startswith("std::"):
            self.seen.add(g.n)
            return True
        return False
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = only(qs), st.copy()
        was, new, due, found = st.prop
        n = last(q) if q else None
        if q is None or EVALUATES.match(n) or any(EVALUATES.match(last(x)) for x in self.p.callee_qs(inst)):
            ns.prop = (was, "maybe" if new == "none" else new, due, found)
            self.r.count("evaluating_calls")
            return [(ns, None, "ret")]
        if q == "FPECheck::getFPEFlags": return [(ns, ("flags", was, new), "ret")]
        if q == "FPECheck::ClearFPE":
            if new == "maybe": self.bad["unchecked"] = (fn, inst, "the floating point exceptions of an evaluation are cleared without being looked at")
            ns.prop = (False, "none", due, found)
            return [(ns, None, "ret")]
        if q == "FPECheck::CheckFPE" and not args:
            if new == "none" and not was: return [(ns, FALSE, "ret")]
            no = st.copy()
            no.prop = (was, "none", due, found)
            if new == "none": return [(ns, TRUE, "ret"), (no, FALSE, "ret")]
            self.r.count("exceptions_found")
            ns.prop = (was, "yes", True, True)
            return [(ns, TRUE, "ret"), (no, FALSE, "ret")]
        if q == "FPECheck::CheckFPE" and args[0] and args[0][0] == "flags":
            return self.call_flags(ns, st, args[0])
        if q == "FPECheck::raiseFPE":
            a = args[0]
            ns.prop = (was or bool(a and a[0] == "flags" and a[1]), new if not (a and a[0] == "flags" and a[2] != "none") else a[2], due, found)
            return [(ns, None, "ret")]
        if q.startswith("FPECheck::"): return [(ns, None, "ret")]
        w = written(self.p, ip, inst, args)
        if w is not None:
            if w == THROWN: return [(ns, None, "throw")]
            if w in ERRORS: ns.prop = (was, new, False, found)
            return [(ns, None, "ret")]
        if n in ("push_back", "emplace_back") and "string" in self.p.dem.get(self.p.callees(inst)[0], "") and not (args[0] and args[0][0] == "p" and args[0][1][0] == "al"):
            ns.prop = (was, new, False, found)
            return [(ns, None, "ret")]
        return None
    def call_flags(self, ns, st, a):
        was, new, due, found = st.prop
        if a[2] == "none": return [(ns, FALSE, "ret")] if not a[1] else None
        no = st.copy()
        no.prop = (was, "none", due, found)
        ns.prop = (was, "yes", True, True)
        return [(ns, TRUE, "ret"), (no, FALSE, "ret")]

def check_exceptions(r):
    p = load()
    direct, users = fpe_users(p)
    clears = {f.n for f in p.fns.values() if not f.q.startswith("FPECheck::") and any(i[0] == "call" and only(p.callee_qs(i)) == "FPECheck::ClearFPE" for bl in f.blocks for i in bl)}
    roots = [f for f in p.fns.values() if last(f.q) == "eval_function"] + [f for m in MODELS for f in need(p, m + "::CalculateValues")]
    done = set()
    def one(f, own):
        done.add(f.n)
        c = Exceptions(p, r, f, users, own)
        it = Interp(p, c)
        for s, rv, kind, tr in it.run(f, start(f, (True, "none", False, False))):
            if kind != "ret": continue
            was, new, due, found = s.prop
            r.count("exception_ends")
            if due and not own: r.add(f"{f.q}|report", f"a floating point exception is found, and not reported as an error ({f.q})", f.where(), tr)
            if not was and not own: r.add(f"{f.q}|restore", f"the floating point exceptions of the calculation that needs this one are lost ({f.q})", f.where(), tr)
            if new == "maybe" and not own: r.add(f"{f.q}|check", f"an evaluation ends without a look at its floating point exceptions ({f.q})", f.where(), tr)
            if found and own and f.rty == "i1" and rv != FALSE: r.add(f"{f.q}|success", f"a floating point exception, and the result is success ({f.q})", f.where(), tr)
        for k, (g, i, msg) in sorted(c.bad.items()): r.add(f"{f.q}|{k}", f"{msg} ({g.q})", f"{rel(g.file)}:{i[2]}")
        done.update(c.seen)
        r.count("exception_scopes")
    for f in roots: one(f, False)
    for f in sorted((p.fns[n] for n in clears), key=lambda f: f.n):
        if f.n in done or last(f.q) == "CmdDispatch" or f.q.rsplit("::", 1)[0] in ("Eqomfp::MathPacket", "OpEqualPacket"): continue
        one(f, f.q.startswith("dsMath::"))

# -- calculations of models from expressions ---------------------------------------------------------------
class Calculation(Client):
    """prop = (an expression was evaluated, errors of it: none/maybe/yes/reported, values were set)"""
    interesting = set()
    max_depth = 4
    str_depth = 0
    def __init__(self, p, r, f): self.p, self.r, self.f = p, r, f
    def inline_args(self, ip, st, fn, inst, g, args):
        return not g.q.startswith("std::") and g.file == self.f.file and last(g.q) != "eval_function"
    def errors(self, inst): 
        d = self.p.dem.get(self.p.callees(inst)[0], "")
        return re.match(r"(.*? )?std::(__cxx11::)?(list|vector|_List_\w+)<std::(__cxx11::)?basic_string", d) or "_List_iterator<std::" in d or "_List_const_iterator<std::" in d
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = only(qs), st.copy()
        done, err, values = st.prop
        n = last(q) if q else None
        if q is None: return None
        if n == "eval_function":
            ns.prop = (True, "maybe", values)
            self.r.count("expressions_evaluated")
            return [(ns, None, "ret")]
        if q.startswith(("std::", "__gnu_cxx::")) and n in ("empty", "size", "operator!=", "operator==") and self.errors(inst) and (n in ("empty", "size") or "terator" in self.p.dem.get(self.p.callees(inst)[0], "")) :
            some, none = (("pos",), ("c", 0)) if n == "size" else (FALSE, TRUE) if n in ("empty", "operator==") else (TRUE, FALSE)
            out, ends = [], n.startswith("operator")
            if err in ("maybe", "yes", "reported"):
                a = st.copy(); a.prop = (done, err if err == "reported" else "yes", values); out.append((a, some, "ret"))
            if err in ("maybe", "none") or ends:
                b = st.copy(); b.prop = (done, "none" if err == "maybe" else err, values); out.append((b, none, "ret"))
            return out
        if n.startswith("Set") and "Values" in n:
            ns.prop = (done, err, True)
            return [(ns, None, "ret")]
        w = written(self.p, ip, inst, args)
        if w is not None:
            if w == THROWN: return [(ns, None, "throw")]
            if w in ERRORS: ns.prop = (done, "reported" if err in ("yes", "maybe") else err, "said")
            return [(ns, None, "ret")]
        return None

def check_calculations(r):
    p = load()
    fs = [f for f in p.fns.values() if not f.q.startswith("std::") and last(f.q) != "eval_function" and not f.q.rsplit("::", 1)[0].endswith("Eval")
          and any(i[0] == "call" and any(last(x) == "eval_function" for x in p.callee_qs(i)) for bl in f.blocks for i in bl)]
    # a helper of a calculation is looked at with it
    helpers = {f.n for f in fs if not re.match(r"calc\w*Values$", last(f.q))}
    fs = [f for f in fs if f.n not in helpers] + [f for f in p.fns.values() if re.match(r"calc\w*Values$", last(f.q)) and any(i[0] == "call" and set(p.callees(i)) & helpers for bl in f.blocks for i in bl)]
    for f in sorted(fs, key=lambda f: f.n):
        c = Calculation(p, r, f)
        for s, rv, kind, tr in Interp(p, c).run(f, start(f, (False, "none", False))):
            done, err, values = s.prop
            if kind != "ret" or not done: continue
            r.count("calculation_ends")
            if err in ("maybe", "yes"): r.add(f"{f.q}|errors", f"the errors of the expression of a model are not reported ({f.q})", f.where(), tr)
            if not values: r.add(f"{f.q}|values", f"a model gets no values from its expression, and nothing is reported ({f.q})", f.where(), tr)

# -- commands run by the interpreter ------------------------------------------------------------------------
class Python(Client):
    """prop = (called, failed, said)"""
    interesting = set()
    max_depth = 4
    str_depth = 0
    def __init__(self, p, r, f): self.p, self.r, self.f = p, r, f
    def inline_args(self, ip, st, fn, inst, g, args): return last(g.q) == last(self.f.q) or ("{anon}" in g.q and g.file == self.f.file)
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = only(qs), st.copy()
        n = last(q) if q else None
        if n and re.match(r"_?PyObject_(Call|Vectorcall)\w*$", n):
            bad = st.copy()
            bad.prop, ns.prop = (True, True, False), (True, False, False)
            self.r.count("python_calls")
            return [(ns, ("nn",), "ret"), (bad, ("c", 0), "ret")]
        if n == "ProcessError":
            ns.prop = st.prop[:2] + (True,)
            return [(ns, None, "ret")]
        return None
    def may_throw(self, ip, st, fn, inst, qs, args): return False

def check_interpreter(r):
    p = load()
    for f in need(p, "Interpreter::RunCommand"):
        for s, rv, kind, tr in Interp(p, Python(p, r, f)).run(f, start(f, (False, False, False))):
            if kind != "ret": continue
            r.count("python_ends")
            called, failed, said = s.prop
            if failed and not said: r.add(f"{f.q}|said", f"the message of a failed Python function is dropped ({f.q})", f.where(), tr)
            if (failed or not called) and rv != FALSE: r.add(f"{f.q}|failed", f"a Python function that failed is taken as run ({f.q})", f.where(), tr)
            if called and not failed and rv != TRUE: r.add(f"{f.q}|run", f"a Python function that was run is taken as failed ({f.q})", f.where(), tr)

def check_failures(r):
    r.explain = ("evaluators of expressions (every kind of node, function and operation), the tables of functions they call, the tasks of threads, the calculations of models from expressions, the record of floating point exceptions "
                 "around each evaluation, and the functions of the interpreter are simulated path by path; each path on which a part fails must end with an error that was added or written, and without a kept result")
    r.assumptions += ["a message written as ERROR or FATAL reaches the user (C01, C05)", "an error string of a failed function is not empty"]
    check_evaluators(r); check_functions(r); check_tasks(r); check_exceptions(r); check_calculations(r); check_interpreter(r)
    r.need("evaluation_ends", 60); r.need("function_ends", 8); r.need("task_ends", 2); r.need("exception_ends", 12); r.need("calculation_ends", 10); r.need("python_ends", 3)
    r.need("results_kept", 2); r.need("function_calls", 40); r.need("operations", 10); r.need("task_results", 2)
