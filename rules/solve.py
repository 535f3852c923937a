"""A failed solve is reported, and leaves the solution as it was."""
import re
from common import *
from esp import Budget
from models import last, only, entry, field_path
from errors import start, params, need

LISTS = re.compile(r"^(\w.* )?std::map<.*Device\s*\*")
IT = {"begin", "cbegin", "end", "cend"}
COMPARE = {"<": "olt", "<=": "ole", ">": "ogt", ">=": "oge"}
WHERE = ("an earlier device", "the device", "a later device", None)

class Kind:
    """the functions one kind of solve is made of"""
    def __init__(self, fn, solve, device, circuit, errors):
        self.fn, self.solve, self.device, self.circuit, self.errors = fn, solve, device, circuit, errors

class Each(Client):
    """A list is taken to hold some element (1), which is visited once, with any others before (0) and after (2) it"""
    lists = ()
    def iter(self, st, a):
        if a and a[0] == "it": return a
        if not a or a[0] != "p": return None
        return next((v for (b, path), v in sorted(st.mem.items(), key=str) if b == a[1] and path[:len(a[2])] == a[2] and v and v[0] == "it"), None)
    def device(self, a): return a[1][1] if a and a[0] == "p" and a[1][0] == "device" else 0
    def element(self, ptr):
        """what the second part of an element of a map refers to"""
        return ("p", ("device", ptr[1][1]), ()) if ptr and ptr[0] == "p" and ptr[1][0] == "pair" and ptr[2] == ("second",) else None
    def visited(self, ip, st, fn_inst): pass
    def iterate(self, ip, st, inst, q, n, d, args):
        if q.startswith("std::") and n in IT and any(x.search(d) for x in self.lists):
            if n.endswith("end"): return [(st.copy(), ("it", 3), "ret")]
            self.count()
            return [(st.copy(), ("it", 0), "ret"), (st.copy(), ("it", 1), "ret")]
        it = self.iter(st, args[0]) if args else None
        if self.part(st, q, d, args): return self.part(st, q, d, args)
        if it and (q.startswith("std::") or q.startswith("__gnu_cxx::")):
            if n in ("operator->", "operator*"): return [(st.copy(), ("p", ("pair", it[1]), ()), "ret")]
            if n == "operator++":
                out = []
                for nx in {0: (0, 1), 1: (2, 3), 2: (2, 3), 3: ()}[it[1]]:
                    s2 = st.copy()
                    for key, v in list(s2.mem.items()):
                        if args[0][0] == "p" and key[0] == args[0][1] and key[1][:len(args[0][2])] == args[0][2] and v == it: s2.mem[key] = ("it", nx)
                    if it[1] == 1: self.visited(ip, s2, inst)
                    out.append((s2, args[0], "ret"))
                return out
            o = self.iter(st, args[1]) if len(args) > 1 else None
            if o and n in ("operator==", "operator!="): return [(st.copy(), TRUE if (it == o) == (n == "operator==") else FALSE, "ret")]
        return None
    def count(self): self.r.count("lists")
    def part(self, st, q, d, args):
        """a structured binding of an element of a map"""
        if q == "std::get" and args and args[0] and args[0][0] == "p" and args[0][1][0] == "pair" and "pair" in d:
            return [(st.copy(), ("p", args[0][1], args[0][2] + ("first" if "get<0" in d else "second",)), "ret")]

class Solve(Each):
    """prop = (saved, changed, what is left to do before the solve may succeed)"""
    lists = (LISTS,)
    max_states = 400000
    max_depth = 4
    str_depth = 0
    unwind = True
    interesting = set()
    def __init__(self, p, r, f, kind, limits):
        self.p, self.r, self.f, self.k, self.limits, self.bad, self.names = p, r, f, kind, limits, {}, set()
        self.nothrow = re.compile(r"^(std::|__cxa|ObjectHolder|dsTimer|OutputStream::)")
    def report(self, key, fn, inst, msg): self.bad.setdefault(key, (fn, inst, msg))
    def may_throw(self, fn, inst, qs):
        q = only(qs)
        if q is None: return True
        g = self.p.resolve(self.p.callees(inst)[0])
        return not (self.nothrow.match(q) or (g is not None and g.n in self.quiet) or last(q).startswith("~") or g is None)
    def inline_args(self, ip, st, fn, inst, g, args):
        if g.q.startswith("std::"): return False
        return g.q.startswith(self.f.q + "::") or g.n in self.reaches
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p":
            if self.element(ptr): return self.element(ptr)
            if ptr[1] == ("arg", 0) and ptr[2] in self.limits: return ("limit", self.limits[ptr[2]])
            if ptr[1] == ("arg", 0) and ptr[2] and inst[4] not in ("i8", "i1", "i32", "i64", "ptr"): return None
        return None
    def store(self, ip, st, fn, inst, v, ptr): return None
    def number(self, st, a):
        """a number passed by address"""
        if not a or a[0] != "p": return None
        if a[1] == ("arg", 0) and a[2] in self.limits: return ("limit", self.limits[a[2]])
        return next((v for (b, path), v in sorted(st.mem.items(), key=str) if b == a[1] and path[:len(a[2])] == a[2] and v and v[0] in ("error", "limit")), None)
    def fcmp(self, ip, st, fn, inst, a, b): return self.compare(inst[3], a, b)
    def compare(self, pred, a, b):
        if a and b and {a[0], b[0]} == {"error", "limit"}:
            if a[0] == "limit":
                a, b = b, a
                pred = pred.replace("lt", "XX").replace("gt", "lt").replace("XX", "gt").replace("le", "XX").replace("ge", "le").replace("XX", "ge")
            v = ("within", a, b)
            if pred in ("olt", "ole", "ult", "ule"): return v
            if pred in ("ogt", "oge", "ugt", "uge"): return ("not", v)
        return None
    def assume(self, ip, st, v, truth):
        if v and v[0] == "within" and truth:
            e, lim = v[1], v[2]
            if e[1] == lim[1] and e[3]:
                st.prop = (st.prop[0], st.prop[1], st.prop[2] - {(e[1], e[2])})
        return True
    def left(self, st): return st.prop[2]
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, k = last(q), self.k
        ns = st.copy()
        saved, changed, due = ns.prop
        d = self.p.dem.get(self.p.callees(inst)[0], "")
        if q == "dsAssert_": return [(ns, None, "throw")]
        o = self.iterate(ip, st, inst, q, n, d, args)
        if o is not None: return o
        # what the solve consists of
        if n == "HaveNodes":
            key = (("circuit",), ())
            if key in ns.mem: return [(ns, ns.mem[key], "ret")]
            no = st.copy()
            ns.mem[key], no.mem[key] = TRUE, FALSE
            no.prop = (saved, changed, frozenset(x for x in due if x[1] != "circuit"))
            return [(ns, TRUE, "ret"), (no, FALSE, "ret")]
        if n in ("IsTransient", "IsIntegration", "IsDCMethod", "IsDCOnly"):
            key = (("is", n), ())
            if key in ns.mem: return [(ns, ns.mem[key], "ret")]
            no = st.copy()
            ns.mem[key], no.mem[key] = TRUE, FALSE
            out = [(ns, TRUE, "ret"), (no, FALSE, "ret")]
            if n in ("IsTransient", "IsIntegration"):
                no.prop = (saved, changed, frozenset(x for x in due if x[0] != "projection"))
            return out
        if q == "FPECheck::CheckFPE":
            no = st.copy()
            ns.prop = (saved, changed, due - {("exception", None)})
            no.prop = (saved, changed, due | {("exception", None)})
            return [(ns, FALSE, "ret"), (no, TRUE, "ret")]
        if n == k.solve and c_is(q, "LinearSolver"):
            self.r.count("linear_solves")
            no, th = st.copy(), st.copy()
            ns.mem[(("solved",), ())], no.mem[(("solved",), ())] = TRUE, FALSE
            left = {x for x in due if x[0] == "projection"}
            for w in (1, "circuit"):
                if w == "circuit" and ns.mem.get((("circuit",), ())) == FALSE: continue
                left |= {("update", w)} | ({("exception", None)} if k.errors else set()) | ({("relative", w), ("absolute", w)} if k.errors else set())
            ns.prop = (saved, changed, frozenset(left))
            no.prop = (saved, changed, due | {("linear solve", None)})
            return [(ns, TRUE, "ret"), (no, FALSE, "ret"), (th, None, "throw")]
        if q in k.device or q in k.circuit:
            w = self.device(args[0]) if q in k.device else "circuit"
            self.r.count("updates")
            if k.errors and w == "circuit" and len(args) > 1: self.names.add(ip.getstr(st, args[1]))
            if ns.mem.get((("solved",), ())) != TRUE:
                self.report("unsolved", fn, inst, "is changed although the linear solver did not succeed")
            if k.errors and not saved: self.report("unsaved", fn, inst, "is changed before it is saved")
            ns.prop = (saved, True, due - {("update", w)} | ({("exception", None)} if k.errors else set()))
            th = ns.copy()
            return [(ns, None, "ret"), (th, None, "throw")]
        if len(args) >= 2 and q.startswith("boost::multiprecision::") and (len(q.split("::")) > 1 and n == q.split("::")[-2] or n == "operator=") and args[0] and args[0][0] == "p":
            v = args[1] if args[1] and args[1][0] in ("error", "limit") else self.number(st, args[1])
            ip.havoc_obj(ns, args[0])
            if v: ns.mem[(args[0][1], args[0][2] + ("$number",))] = v
            return [(ns, args[0] if n.startswith("operator") else None, "ret")]
        cmp = re.search(r"(?:^|::)operator(<=|>=|<|>)(?=$|<\w)", q)
        if cmp and len(args) == 2:
            v = self.compare(COMPARE[cmp.group(1)], self.number(st, args[0]), self.number(st, args[1]))
            if v: return [(ns, v, "ret")]
        if k.errors and n in ("GetRelError", "GetAbsError") and c_is(q, "Device", "NodeKeeper"):
            sret = inst[8] == 0
            w = self.device(args[1 if sret else 0]) if c_is(q, "Device") else "circuit"
            v, th = ("error", "relative" if "Rel" in n else "absolute", w, ("update", w) not in due), ns.copy()
            if sret and args[0] and args[0][0] == "p":
                ip.havoc_obj(ns, args[0])
                ns.mem[(args[0][1], args[0][2] + ("$number",))] = v
            return [(ns, None if sret else v, "ret"), (th, None, "throw")]
        if k.errors and q.rsplit("::", 1)[0] == self.f.q.rsplit("::", 1)[0]:
            if n == "BackupSolutions":
                if changed: self.report("late", fn, inst, "is saved after it was changed")
                th = ns.copy()
                ns.prop = (True, changed, due)
                self.r.count("saved")
                return [(ns, None, "ret"), (th, None, "throw")]
            if n == "RestoreSolutions":
                self.r.count("restored")
                if saved: ns.prop = (saved, False, frozenset({("the solution is the one before", None)}))
                elif changed: self.report("norestore", fn, inst, "is restored without having been saved")
                return [(ns, None, "ret")]
            if n == "CheckTransientProjection":
                no, th = st.copy(), st.copy()
                ns.prop = (saved, changed, frozenset(x for x in due if x[0] != "projection"))
                return [(ns, TRUE, "ret"), (no, FALSE, "ret"), (th, None, "throw")]
            if n == "UpdateTransientCurrent":
                self.r.count("transient_updates")
                if due: self.report("transient", fn, inst, f"advances the time although the solve has not converged ({words(due)})")
                return [(ns, None, "ret"), (ns.copy(), None, "throw")]
        return None

def c_is(q, *names): return len(q.split("::")) > 1 and q.split("::")[-2] in names
def words(due):
    w = {"update": "{} not updated", "relative": "relative error of {} not below its limit", "absolute": "absolute error of {} not below its limit", "projection": "projected charge not checked", "exception": "floating point exception in the update not checked", "linear solve": "the linear solver failed"}
    return "; ".join(sorted(w.get(a, a).format({1: "a device", "circuit": "the circuit"}.get(b, b)) for a, b in due))

def limits(p, cls):
    out = {}
    for n, w in (("SetRelError", "relative"), ("SetAbsError", "absolute")):
        path = None
        for f in p.fns.values():
            if f.q != f"{cls}::{n}": continue
            for bl in f.blocks:
                for i in bl:
                    if i[0] == "store" and isinstance(i[4], int):
                        x = f.inst(i[4])
                        if x and x[0] == "gep": path = tuple(x[5])
        if path is None: raise Broken(f"{cls}::{n} does not set a field")
        out[path] = w
    return out

def check_newton(r):
    p = load()
    kinds = [Kind("Solve", "Solve", {"Device::Update"}, {"NodeKeeper::UpdateSolution"}, True),
             Kind("ACSolve", "ACSolve", {"Device::ACUpdate"}, {"NodeKeeper::ACUpdateSolution"}, False),
             Kind("NoiseSolve", "NoiseSolve", {"Device::NoiseUpdate"}, {"NodeKeeper::ACUpdateSolution"}, False)]
    lim = limits(p, "dsMath::Newton")
    for k in kinds:
        fs = [f for f in p.fns.values() if f.q == f"dsMath::Newton::{k.fn}"]
        if not fs: raise Broken(f"no {k.fn}")
        for f in fs:
            c = Solve(p, r, f, k, lim)
            c.reaches, c.quiet = reaching(p, k.circuit | k.device, f), set()
            st = start(f, (False, False, frozenset({("update", 1), ("update", "circuit")} | ({("relative", 1), ("relative", "circuit"), ("projection", None)} if k.errors else set()))))
            r.count("solves")
            try: outs = Interp(p, c).run(f, st)
            except Budget:
                if not c.bad: raise
                outs = []
            r.updated = getattr(r, "updated", set()) | c.names
            for s, rv, kind, tr in outs:
                r.count("outcomes")
                saved, changed, due = s.prop
                key = f"{f.q}:{kind}"
                if kind == "throw":
                    if k.errors and changed: r.add(key + ":changed", f"{f.q}: an error leaves a solution that was partly changed", f.where(), trace_lines(tr))
                    continue
                for truth in (True, False):
                    s2 = s.copy()
                    ip = Interp(p, c)
                    if not ip.refine(s2, rv, truth): continue
                    left = s2.prop[2]
                    if truth and left: r.add(key + ":success:" + ",".join(sorted({x[0] for x in left})), f"{f.q}: reports success although this need not hold: {words(left)}", f.where(), trace_lines(tr))
                    if not truth and k.errors and changed: r.add(key + ":changed", f"{f.q}: reports failure and leaves a changed solution", f.where(), trace_lines(tr))
            for kk, (fn, inst, msg) in sorted(c.bad.items()):
                r.add(f"{f.q}:{kk}", f"{f.q}: the solution {msg}" if kk != "transient" else f"{f.q}: {msg}", f"{fn.file}:{inst[2]}")

def reaching(p, names, f):
    """small helpers of the file of f that call what is observed"""
    out = set()
    for g in p.fns.values():
        if g.file != f.file or g.n == f.n or g.q.rsplit("::", 1)[-1] in ("Solve", "ACSolve", "NoiseSolve", "BackupSolutions", "RestoreSolutions"): continue
        for bl in g.blocks:
            for i in bl:
                if i[0] == "call" and any(x in names for x in p.callee_qs(i)): out.add(g.n)
    return out

# -- what the linear solvers report ---------------------------------------------------------------------
SPLIT = {"LUFactor": "the factorization", "DerivedLUFactor": "the factorization", "LUFactorMatrix": "the factorization", "LUFactorMatrixImpl": "the factorization",
         "LUSolve": "the solution with the factors", "SolveImpl": "the linear solver", "ACSolveImpl": "the linear solver", "NoiseSolveImpl": "the linear solver",
         "RunCommand": "the callback", "GetHashMap": "the dictionary returned by the callback", "GetDoubleList": "the list returned by the callback", "GetComplexDoubleList": "the list returned by the callback"}
DONE = {"DerivedLUSolve": "the solution with the factors", "LUSolveImpl": "the solution with the factors", "GMRES": "the solution with the factors", "LUSolve": "the solution with the factors"}
NEEDS = {"SolveImpl": ("the factorization", "the solution with the factors"), "ACSolveImpl": ("the factorization", "the solution with the factors"), "NoiseSolveImpl": ("the factorization", "the solution with the factors"),
         "Solve": ("the linear solver",), "ACSolve": ("the linear solver",), "NoiseSolve": ("the linear solver",), "LUFactor": ("the factorization",), "LUSolve": ("the solution with the factors",)}

class Report(Client):
    """prop = (what failed, what was done)"""
    max_states = 100000
    str_depth = 0
    interesting = set()
    def __init__(self, p, r, f): self.p, self.r, self.f, self.bad = p, r, f, {}
    def inline_args(self, ip, st, fn, inst, g, args): return g.file == self.f.file and "{anon}" in g.q
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and ptr[2] and ptr[2][-1] in ("first", "second"):
            v = next((v for (b, path), v in sorted(st.mem.items(), key=str) if b == ptr[1] and path == ptr[2][:len(path)] and v and v[0] == "bools"), None)
            if v: return v[1 + ("first", "second").index(ptr[2][-1])]
        return None
    def call(self, ip, st, fn, inst, qs, args):
        names = {last(x) for x in qs}
        if len(names) != 1: return None
        n, q = next(iter(names)), next(iter(qs))
        failed, done = st.prop
        def out(what, bad, v, also=None):
            s = st.copy()
            s.prop = (failed | {what} if bad else failed - {what}, done if bad else done | {what})
            if also: also(s)
            return (s, v, "ret")
        if q == "dsAssert_": return [(st.copy(), None, "noreturn")]
        if n == "WriteOut" and ("c", 4) in args: return [(st.copy(), None, "throw")]
        if q.startswith("std::"):
            if n in ("find", "count", "contains") and "map<" in self.p.dem.get(self.p.callees(inst)[0], ""):
                self.r.count("keys_looked_up")
                a, b = out("a key of the dictionary", False, ("found",) if n == "find" else TRUE), out("a key of the dictionary", True, ("missing",) if n == "find" else FALSE)
                a[0].prop = st.prop
                return [a, b]
            its = [self.it(st, a) for a in args[:2]]
            if n in ("operator==", "operator!=") and its[0] in (("found",), ("missing",)): return [(st.copy(), TRUE if (its[0] == ("missing",)) == (n == "operator==") else FALSE, "ret")]
            return None
        if n in SPLIT and inst[7] in ("i1", "i8"):
            if n == "LUSolve" and q != "dsMath::Preconditioner::LUSolve": pass
            self.r.count("reports")
            self.order(fn, inst, n, done)
            return [out(SPLIT[n], False, TRUE), out(SPLIT[n], True, FALSE)]
        if n in DONE:
            self.order(fn, inst, n, done)
            self.r.count("reports")
            s = out(DONE[n], False, None)
            return [s]
        if n == "GetBoolean":
            self.r.count("reports")
            return [out("the status returned by the callback", False, ("bools", TRUE, TRUE)), out("the status returned by the callback", True, ("bools", TRUE, FALSE)), out("the status returned by the callback", True, ("bools", FALSE, FALSE))]
        if q == "FPECheck::CheckFPE":
            self.r.count("reports")
            return [out("an operation, with a floating point exception", False, FALSE), out("an operation, with a floating point exception", True, TRUE)]
        if n == "ClearFPE": return [(st.copy(), None, "ret")]
        if q == "PARDISO":
            e, ph = args[-1], args[4]
            what = "PARDISO"
            v = st.mem.get((ph[1], ph[2])) if ph and ph[0] == "p" else None
            if v and v[0] in ("c", "pos"): what = "PARDISO" + (f" (phase {v[1]})" if v[0] == "c" else "")
            self.r.count("reports")
            def put(val):
                def go(s):
                    if e and e[0] == "p": s.mem[(e[1], e[2])] = val
                return go
            return [out(what, False, None, put(("c", 0))), out(what, True, None, put(("nn",)))]
        return None
    def it(self, st, a):
        if a and a[0] in ("found", "missing"): return a
        if not a or a[0] != "p": return None
        return next((v for (b, path), v in sorted(st.mem.items(), key=str) if b == a[1] and path[:len(a[2])] == a[2] and v and v[0] in ("found", "missing")), None)
    def order(self, fn, inst, n, done):
        if last(self.f.q) in NEEDS and last(self.f.q).endswith("Impl") and n in ("LUSolve", "GMRES") and "the factorization" not in done:
            self.bad.setdefault("order", (fn, inst, "solves with factors although the factorization did not succeed"))

def reporting(p):
    """the functions whose outcome tells whether a linear system was solved"""
    out = []
    for f in p.fns.values():
        c, n = f.q.rsplit("::", 1)[0] if "::" in f.q else "", last(f.q)
        if not c.startswith("dsMath::") and c not in ("dsMath",): continue
        if n in ("SolveImpl", "ACSolveImpl", "NoiseSolveImpl") or c == "dsMath::LinearSolver" and n in ("Solve", "ACSolve", "NoiseSolve"): out.append(f)
        elif n in ("LUFactor", "LUSolve") and c == "dsMath::Preconditioner": out.append(f)
        elif n in ("DerivedLUFactor", "DerivedLUSolve", "LUFactorMatrix", "LUFactorMatrixImpl", "LUSolveImpl", "init") or n == "LUSolve" and c.endswith("Data"):
            if c.endswith("BlockPreconditioner") and n == "DerivedLUSolve": continue        # only has to approximate the solution
            out.append(f)
    return out

def check_linear(r):
    p = load()
    fs = reporting(p)
    if len({f.q for f in fs}) < 8: raise Broken("the functions that solve linear systems")
    for f in sorted(fs, key=lambda f: f.n):
        c = Report(p, r, f)
        outs = Interp(p, c).run(f, start(f, (frozenset(), frozenset())))
        r.count("solver_functions")
        for s, rv, kind, tr in outs:
            if kind != "ret": continue
            if f.rty == "void": ok = True
            else:
                if rv and rv[0] == "c": ok = rv != FALSE
                else: ok = True
            if not ok: continue
            failed, done = s.prop
            for w in sorted(failed): r.add(f"{f.q}:{w}", f"{f.q}: {'returns normally' if f.rty == 'void' else 'reports success'} although {w} failed", f.where(), trace_lines(tr))
            for w in NEEDS.get(last(f.q), ()):
                if w not in done and w not in failed: r.add(f"{f.q}:{w}:not done", f"{f.q}: reports success without {w}", f.where(), trace_lines(tr))
        for kk, (fn, inst, msg) in sorted(c.bad.items()): r.add(f"{f.q}:{kk}", f"{f.q}: {msg}", f"{fn.file}:{inst[2]}")

# -- the errors the limits are compared with ------------------------------------------------------------
NONE = frozenset()
class Fold(Each):
    """A number ("n", S, id) is at least each error of the element in S.  prop = the element was updated"""
    max_states = 100000
    str_depth = 0
    interesting = set()
    numbers = True
    def __init__(self, p, r, f, lists, fields, update):
        self.p, self.r, self.f, self.lists, self.fields, self.update, self.bad = p, r, f, lists, fields, update, {}
        self.n = 0
    def inline_args(self, ip, st, fn, inst, g, args): return g.file == self.f.file and "{anon}" in g.q
    def new(self, ip, st, s, *at):
        have = {x for d in (st.env, st.mem) for x in d.values() if x and x[0] == "n"}
        ids = {x[2] for x in have}
        for x in have:
            if x[2] == at:        # an earlier value from the same place
                k = next(k for k in range(9) if (k,) + at not in ids)
                ids.add((k,) + at)
                ip.subst(st, x, ("n", x[1], (k,) + at))
        return ("n", frozenset(s), at)
    def device(self, a): return a[1][1] if a and a[0] == "p" and (a[1][0] == "device" or a[1][0] == "pair" and a[2][:1] == ("second",)) else None
    def where(self, st, a):
        """the place of a number"""
        if not a or a[0] != "p": return None
        if a[1] == ("arg", 0):
            for f in self.fields:
                if a[2][:1] == (f,): return (("arg", 0), (f, "$n"))
        if a[1][0] == "al": return (a[1], a[2][:1] + ("$n",) if a[2] and a[2][0] not in ("m_backend", "m_value") else ("$n",))
        return None
    def get(self, st, a):
        if a and a[0] in ("n", "u", "d"): return a
        w = self.where(st, a)
        return st.mem.get(w) if w else None
    def put(self, st, a, v):
        w = self.where(st, a)
        if w is None: return False
        if v and v[0] in ("n", "u", "d"): st.mem[w] = v
        else: st.mem.pop(w, None)
        return True
    def load(self, ip, st, fn, inst, ptr):
        if self.element(ptr): return self.element(ptr)
        if ptr and ptr[0] == "p":
            if ptr[1][0] == "update": return ("u", ptr[1][1])
            if self.where(st, ptr) in st.mem: return st.mem[self.where(st, ptr)]
            if ptr[1] == ("arg", 0) and ptr[2][:1] == (self.number,): return ("nn",)
        return None
    def store(self, ip, st, fn, inst, v, ptr):
        if ptr and ptr[0] == "p" and inst[5] not in ("i8", "i1", "i32", "i64", "ptr") and self.put(st, ptr, v): return True
        return None
    def op(self, ip, st, fn, inst, a, b):
        at = (fn.n, inst[1])
        if inst[0] != "bin": return None
        if inst[3] in ("fadd", "fsub", "fmul", "fdiv"): return self.arith(ip, st, inst[3][1:], a, b, at)
        return None
    def arith(self, ip, st, o, a, b, at):
        for x in (a, b):
            if x and x[0] == "u": return x
        if o == "add" and (a and a[0] == "n" or b and b[0] == "n"):
            return self.new(ip, st, (a[1] if a and a[0] == "n" else NONE) | (b[1] if b and b[0] == "n" else NONE), *at)
        if o == "div" and a and a[0] == "n":
            return self.new(ip, st, {"relative"} if "absolute" in a[1] else NONE, *at)
        return None
    def fcmp(self, ip, st, fn, inst, a, b): return self.compare(ip, st, inst[3], a, b)
    def compare(self, ip, st, pred, a, b):
        if not a or not b or "n" not in (a[0], b[0]) or not {a[0], b[0]} <= {"n", "d"}: return None
        if pred[1:] in ("gt", "ge"): return ("more", a, b)
        if pred[1:] in ("lt", "le"): return ("more", b, a)
        return None
    def assume(self, ip, st, v, truth):
        if v and v[0] == "more":
            a, b = (v[1], v[2]) if truth else (v[2], v[1])
            if a and b and a[0] == b[0] == "n" and not b[1] <= a[1]:
                ip.subst(st, a, ("n", a[1] | b[1], a[2]))
            elif a and a[0] == "d" and b[0] == "n":
                for k in b[1]: st.mem[(("none", k), ())] = TRUE        # the error is not positive
        return True
    def call(self, ip, st, fn, inst, qs, args):
        names = {last(x) for x in qs}
        if len(names) != 1: return None
        q = only(qs) or next(iter(qs))
        n, ns = last(q), st.copy()
        at = (fn.n, inst[1])
        d = self.p.dem.get(self.p.callees(inst)[0], "")
        if q == "dsAssert_": return [(ns, None, "noreturn")]
        sret = inst[8] == 0
        this = args[1 if sret else 0] if len(args) > (1 if sret else 0) else None
        o = self.iterate(ip, st, inst, q, n, d, args)
        if o is not None:
            if n in ("operator->", "operator*"):
                for s, v, k in o: s.mem[(("cur",), ())] = ("c", v[1][1])
            return o
        cur = st.mem.get((("cur",), ()))
        if n == "isGROUND":
            if cur == ("c", 1): return [(ns, FALSE, "ret")]
            return [(ns, TRUE, "ret"), (st.copy(), FALSE, "ret")]
        if self.update and n == self.update and self.device(this) is not None:
            self.r.count("part_updates")
            if self.device(this) == 1:
                ns.prop = True
                for k, v in list(ns.mem.items()):
                    if v and v[0] == "n" and v[1]: ns.mem[k] = ("n", NONE, v[2])
            return [(ns, None, "ret")]
        if self.update and n in ("GetRelError", "GetAbsError") and self.device(this) is not None:
            self.r.count("part_errors")
            kind = "relative" if "Rel" in n else "absolute"
            v = self.new(ip, ns, {kind} if self.device(this) == 1 and st.prop else NONE, *at)
            if sret: self.put(ns, args[0], v)
            return [(ns, None if sret else v, "ret")]
        if n == "operator[]" and q.startswith("std::map::") and args and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0):
            return [(ns, ("p", args[0][1], args[0][2] + ("{}",)), "ret")]
        if not self.update and n in ("operator[]", "at") and args and args[0] and args[0][0] == "p" and args[0][1][0] == "arg" and args[0][1] != ("arg", 0) and cur:
            self.r.count("part_updates")
            ns.prop = ns.prop or cur == ("c", 1)
            return [(ns, ("p", ("update", cur[1]), ()), "ret")]
        if n in ("abs", "fabs") and args and args[-1]:
            a = self.get(st, args[-1])
            if a and a[0] == "u":
                self.r.count("part_errors")
                v = self.new(ip, ns, {"absolute"} if a[1] == 1 else NONE, *at)
                if sret: self.put(ns, args[0], v)
                return [(ns, None if sret else v, "ret")]
            if a and a[0] == "n": return [(ns, a, "ret")]
        if n in ("max", "fmax", "min", "fmin") and len(args) >= 2:
            a, b = (self.get(st, x) for x in args[-2:])
            a, b = (x[1] if x and x[0] == "n" else NONE for x in (a, b))
            v = self.new(ip, ns, a | b if "max" in n else a & b, *at)
            if inst[7] == "ptr":
                ns.mem[(("al", "max", at), ("$n",))] = v
                return [(ns, ("p", ("al", "max", at), ()), "ret")]
            if sret: self.put(ns, args[0], v); return [(ns, None, "ret")]
            return [(ns, v, "ret")]
        if inst[7] == "double" and len(args) <= 2 and any(a and a[0] in ("n", "u") for a in args):
            return [(ns, ("u", cur[1] if cur else 0), "ret")]
        if q.startswith("boost::multiprecision::"):
            c = re.search(r"(?:^|::)operator(<=|>=|<|>)(?=$|<\w)", q)
            if c and len(args) == 2:
                v = self.compare(ip, ns, COMPARE[c.group(1)], self.get(st, args[0]), self.get(st, args[1]))
                return [(ns, v, "ret")]
            if len(args) >= 2 and (n == "operator=" or len(q.split("::")) > 1 and n == q.split("::")[-2]):
                v = self.get(st, args[1])
                self.put(ns, args[0], v)
                return [(ns, args[0] if n == "operator=" else None, "ret")]
            if n in ("operator+=",) and len(args) == 2:
                a, b = self.get(st, args[0]), self.get(st, args[1])
                v = self.new(ip, ns, (a[1] if a and a[0] == "n" else NONE) | (b[1] if b and b[0] == "n" else NONE), *at)
                self.put(ns, args[0], v)
                return [(ns, args[0], "ret")]
            if n in ("operator-=", "operator*=", "operator/=") and args:
                self.put(ns, args[0], None)
                return [(ns, args[0], "ret")]
        return None

def getter_field(p, q):
    got = None
    for f in p.find(q):
        s = {i[5][0] for bl in f.blocks for i in bl if i[0] == "gep" and isinstance(i[3], dict) and "a" in i[3] and i[5]}
        got = s if got is None else got & s
    if not got or len(got) != 1: raise Broken(f"{q}: no member found")
    return next(iter(got))

def check_errors(r):
    p = load()
    for cls, name, lists, update in (("Device", "Update", re.compile(r"std::map<.*Region\s*\*"), "Update"), ("Region", "Update", re.compile(r"std::map<.*EquationHolder"), "Update"), ("NodeKeeper", "UpdateSolution", re.compile(r"std::map<.*CircuitNode"), None)):
        fields = {getter_field(p, f"{cls}::GetRelError"): "relative", getter_field(p, f"{cls}::GetAbsError"): "absolute"}
        fs = [f for f in p.fns.values() if f.q == f"{cls}::{name}"]
        if not fs: raise Broken(f"no {cls}::{name}")
        for f in fs:
            c = Fold(p, r, f, (lists,), fields, update)
            c.number = getter_field(p, "Region::GetNumberEquations") if cls == "Region" else None
            outs = Interp(p, c).run(f, start(f, False))
            r.count("error_functions")
            part = {"Device": "region", "Region": "equation", "NodeKeeper": "node"}[cls]
            ends = 0
            for s, rv, kind, tr in outs:
                if kind != "ret": continue
                ends += 1
                if not s.prop: r.add(f"{f.q}:update", f"{f.q}: a {part} is not updated", f.where(), trace_lines(tr))
                for fld, k in fields.items():
                    v = s.mem.get((("arg", 0), (fld, "$n")))
                    if not (v and v[0] == "n" and k in v[1] or v and v[0] in ("n", "d") and (("none", k), ()) in s.mem): r.add(f"{f.q}:{k}", f"{f.q}: the {k} error does not cover that of every {part}", f.where(), trace_lines(tr))
            if not ends: raise Broken(f"{f.q} never returns")

# -- what is saved and restored -------------------------------------------------------------------------
SUFFIX, ANYLIST = ("s", "<suffix>"), re.compile(r"^(\w.* )?std::(map|vector)<")
class Parts(Each):
    """every element of a list is passed on; prop = (elements treated, what was done to the nodes of the circuit)"""
    max_states = 50000
    str_depth = 0
    interesting = set()
    lists = (ANYLIST,)
    def __init__(self, p, r, f, what): self.p, self.r, self.f, self.what = p, r, f, what
    def inline_args(self, ip, st, fn, inst, g, args): return g.file == self.f.file and g.n != self.f.n and ("{anon}" in g.q or "{lambda" in g.q or g.q.startswith(self.f.q.rsplit("::", 1)[0] + "::"))
    def load(self, ip, st, fn, inst, ptr): return self.element(ptr)
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        done, nodes = st.prop
        if q == "dsAssert_": return [(ns, None, "throw")]
        o = self.iterate(ip, st, inst, q, n, self.p.dem.get(self.p.callees(inst)[0], ""), args)
        if o is not None: return o
        if n == self.what and not q.startswith(self.f.q.rsplit("::", 1)[0] + "::") and args:
            self.r.count("saves")
            ns.prop = (done | {(self.device(args[0]), ip.getstr(st, args[1]) if len(args) > 1 else None)}, nodes)
            return [(ns, None, "ret")]
        if n == "HaveNodes":
            no = st.copy()
            no.prop = (done, ("none",))
            return [(ns, TRUE, "ret"), (no, FALSE, "ret")] if nodes != ("none",) else [(ns, FALSE, "ret")]
        if q == "NodeKeeper::CopySolution" and len(args) > 2:
            ns.prop = (done, ("copied", ip.getstr(st, args[1]), ip.getstr(st, args[2]), False))
            return [(ns, None, "ret")]
        if q == "NodeKeeper::TriggerCallbacksOnNodes":
            if nodes and nodes[0] == "copied": ns.prop = (done, nodes[:3] + (True,))
            return [(ns, None, "ret")]
        return None

class Names(Parts):
    """models are known by their names; element k of a list of variables is named <k>; prop = (names assigned from names), None"""
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and (ptr[1], ptr[2] + ("$vals",)) in st.mem: return None
        return None
    def element_name(self, k): return ("s", f"<{k}>")
    def model(self, st, a): return st.mem.get((a[1], a[2] + ("$model",))) if a and a[0] == "p" else None
    def give(self, ip, ns, to, m, there):
        if to and to[0] == "p":
            ns.mem.pop((to[1], to[2] + ("$model",)), None)
            if m: ns.mem[(to[1], to[2] + ("$model",))] = m
            ns.mem[(to[1], to[2] + ("$set",))] = TRUE if there else FALSE
    def iterate(self, ip, st, inst, q, n, d, args):
        if d.startswith("std::vector<std::__cxx11::basic_string<") and n in ("size", "operator[]", "at"):
            size, which = (("size",), ()), (("which",), ())
            if n == "size":
                if size in st.mem: return [(st.copy(), st.mem[size], "ret")]
                out = []
                self.count()
                for k, w in ((1, 0), (2, 0), (2, 1)):
                    s = st.copy()
                    s.mem[size], s.mem[which] = ("c", k), ("c", w)
                    out.append((s, ("c", k), "ret"))
                return out
            if which in st.mem and len(args) > 1 and args[1] and args[1][0] == "c":
                k = 1 + (args[1][1] > st.mem[which][1]) - (args[1][1] < st.mem[which][1])
                s = st.copy()
                s.mem[(("pair", k), ("$str",))] = self.element_name(k)
                return [(s, ("p", ("pair", k), ()), "ret")]
        o = Each.iterate(self, ip, st, inst, q, n, d, args)
        if o is not None and n == "operator*":
            for s, v, k in o: s.mem[(("pair", v[1][1]), ("$str",))] = self.element_name(v[1][1])
        if o is not None and n == "operator->":
            for s, v, k in o: s.mem[(("pair", v[1][1]), ("$str",))] = self.element_name(v[1][1])
        return o
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        d = self.p.dem.get(self.p.callees(inst)[0], "")
        sret = inst[8] == 0
        if q == "dsAssert_": return [(ns, None, "throw")]
        o = self.iterate(ip, st, inst, q, n, d, args)
        if o is not None: return o
        if n == "GetNodeModel" and sret and len(args) >= 3:
            name = ip.getstr(st, args[2])
            no = st.copy()
            self.give(ip, no, args[0], None, False)
            self.give(ip, ns, args[0], ("model", name[1]) if name and name[0] == "s" else ("model", "?"), True)
            return [(ns, None, "ret"), (no, None, "ret")]
        if n == "CreateNodeSolution" and sret and len(args) >= 2:
            self.r.count("created")
            name = next((ip.getstr(st, a) for a in args[1:] if ip.getstr(st, a)), None)
            self.give(ip, ns, args[0], ("model", name[1]) if name and name[0] == "s" else ("model", "?"), True)
            return [(ns, None, "ret")]
        if q.startswith("std::") and n.endswith("pointer_cast") and sret and len(args) == 2 and args[1] and args[1][0] == "p":
            there = st.mem.get((args[1][1], args[1][2] + ("$set",)))
            if there == FALSE:
                self.give(ip, ns, args[0], None, False)
                return [(ns, None, "ret")]
            self.give(ip, ns, args[0], self.model(st, args[1]), True)
            if not n.startswith("dynamic"): return [(ns, None, "ret")]
            no = st.copy()
            self.give(ip, no, args[0], None, False)
            return [(ns, None, "ret"), (no, None, "ret")]
        if q.startswith(("std::shared_ptr::", "std::__shared_ptr::", "std::__shared_ptr_access::")) and args and args[0] and args[0][0] == "p":
            if n in ("get", "operator->", "operator*"):
                if st.mem.get((args[0][1], args[0][2] + ("$set",))) == FALSE: return [(ns, FALSE, "ret")] if n == "get" else [(ns, None, "noreturn")]
                m = self.model(st, args[0])
                return [(ns, ("p", m, ()) if m else None, "ret")]
            if len(args) > 1 and args[1] and args[1][0] == "p" and n in ("operator=", "shared_ptr", "__shared_ptr") and "shared_ptr" in d.split("(", 1)[-1]:
                m = self.model(st, args[1])
                ns.mem.pop((args[0][1], args[0][2] + ("$model",)), None)
                if m: ns.mem[(args[0][1], args[0][2] + ("$model",))] = m
                o = ip.string_call(ns, q, inst, args, d)
                return o if o is not None else [(ns, None, "ret")]
            if n.startswith("~"):
                for x in ("$model", "$set"): ns.mem.pop((args[0][1], args[0][2] + (x,)), None)
                return [(ns, None, "ret")]
            return None
        if n.startswith("Get") and n.endswith("Values") and args:
            this = args[1] if sret and len(args) > 1 else args[0]
            if this and this[0] == "p" and this[1][0] == "model":
                if sret:
                    if args[0] and args[0][0] == "p": ns.mem[(args[0][1], args[0][2] + ("$vals",))] = ("vals", this[1][1])
                    return [(ns, None, "ret")]
                ns.mem[(("vals", this[1][1]), ("$vals",))] = ("vals", this[1][1])
                return [(ns, ("p", ("vals", this[1][1]), ()), "ret")]
        if q.startswith("std::vector::") and n in ("vector", "operator=") and len(args) >= 2 and args[0] and args[0][0] == "p":
            v = st.mem.get((args[1][1], args[1][2] + ("$vals",))) if args[1] and args[1][0] == "p" else None
            k = (args[0][1], args[0][2] + ("$vals",))
            ns.mem.pop(k, None)
            if v: ns.mem[k] = v
            return [(ns, args[0] if n == "operator=" else None, "ret")]
        if n == "SetValues" and len(args) >= 2 and args[0] and args[0][0] == "p" and args[0][1][0] == "model":
            self.r.count("values_copied")
            v = st.mem.get((args[1][1], args[1][2] + ("$vals",))) if args[1] and args[1][0] == "p" else None
            if args[0][1][1][:3] not in ("<0>", "<2>"): ns.prop = (frozenset(x for x in st.prop[0] if x[0] != args[0][1][1]) | {(args[0][1][1], v[1] if v else "?")}, None)
            return [(ns, None, "ret")]
        if n == "push_back" and len(args) == 2:
            v = ip.getstr(st, args[1])
            if v:
                ns.prop = (st.prop[0] | {("listed", v[1] if v[0] == "s" else "?")}, None)
                return [(ns, None, "ret")]
        return None

class Listed(Names):
    """element k of the map of variables has the key <k>"""
    def iterate(self, ip, st, inst, q, n, d, args):
        o = Each.iterate(self, ip, st, inst, q, n, d, args)
        if o is not None and n in ("operator->", "operator*"):
            for s, v, k in o: s.mem[(("pair", v[1][1]), ("first", "$str"))] = self.element_name(v[1][1])
        return o
    def call(self, ip, st, fn, inst, qs, args):
        if only(qs) and last(only(qs)) in ("emplace_back", "insert") and len(args) >= 2:
            v = ip.getstr(st, args[-1])
            if v:
                ns = st.copy()
                ns.prop = (st.prop[0] | {("listed", v[1] if v[0] == "s" else "?")}, None)
                return [(ns, None, "ret")]
        return Names.call(self, ip, st, fn, inst, qs, args)

class Registry(Client):
    """The variables in use and the equations there are; prop = (equation set, in use, not in use)"""
    max_states = 50000
    str_depth = 0
    interesting = set()
    def __init__(self, p, r, f, eqs, variables):
        self.p, self.r, self.f, self.eqs, self.vars = p, r, f, eqs, variables
    def inline_args(self, ip, st, fn, inst, g, args): return g.file == self.f.file and g.n != self.f.n and (g.q.startswith("Region::") or "{anon}" in g.q) and len(g.blocks) < 60
    def load(self, ip, st, fn, inst, ptr): return None
    def field(self, a): return a[2][0] if a and a[0] == "p" and a[1] == ("arg", 0) and len(a[2]) == 1 else None
    def same(self, ns): return ns.mem.get((("same",), ()))
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        eq, used, unused = st.prop
        sret = inst[8] == 0
        if q == "dsAssert_": return [(ns, None, "throw")]
        if n == "WriteOut" and any(t.endswith("OutputType") and a == ("c", 4) for t, a in params(ip, self.p, inst, args)): return [(ns, None, "throw")]
        if n in ("GetName", "GetVariable") and sret and len(args) > 1 and args[0] and args[0][0] == "p":
            if args[1] == ("p", ("arg", 1), ()) or args[1] and args[1][1:2] == (("arg", 1),):
                ip.setstr(ns, args[0], ("s", "<name>" if n == "GetName" else "<variable>"))
                return [(ns, None, "ret")]
            if q.startswith("EquationHolder") and args[1] and args[1][0] == "p" and args[1][1] == ("entry", self.eqs):
                if n == "GetName": ip.setstr(ns, args[0], ("s", "<name>")); return [(ns, None, "ret")]
                k = (("same",), ())
                if k in ns.mem:
                    ip.setstr(ns, args[0], ("s", "<variable>" if ns.mem[k] == TRUE else "<old variable>"))
                    return [(ns, None, "ret")]
                no = st.copy()
                ns.mem[k], no.mem[k] = TRUE, FALSE
                ip.setstr(ns, args[0], ("s", "<variable>"))
                ip.setstr(no, args[0], ("s", "<old variable>"))
                ns.prop, no.prop = (eq, used | {"<variable>"}, unused), (eq, used | {"<old variable>"}, unused)
                return [(ns, None, "ret"), (no, None, "ret")]
            return None
        if q == "EquationHolder::operator==" and len(args) == 2:
            no = st.copy()
            ns.mem[(("same",), ())] = TRUE
            ns.prop = (eq, used | {"<variable>"}, unused)
            return [(ns, TRUE, "ret"), (no, FALSE, "ret")]
        f = self.field(args[1] if sret and len(args) > 1 else args[0]) if args else None
        if f in (self.eqs, self.vars) and q.startswith("std::map::"):
            key = ip.getstr(st, args[2 if sret else 1]) if len(args) > (2 if sret else 1) else None
            key = key[1] if key and key[0] == "s" else None
            self.r.count("registry_uses")
            if n in ("count", "find", "contains") and key:
                k = (("in", f, key), ())
                yes = ("it", "at", f, key) if n == "find" else TRUE
                no_ = ("it", "end", f) if n == "find" else FALSE
                if f == self.vars and key in used: return [(ns, yes, "ret")]
                if f == self.vars and key in unused: return [(ns, no_, "ret")]
                if k in ns.mem: return [(ns, yes if ns.mem[k] == TRUE else no_, "ret")]
                no = st.copy()
                ns.mem[k], no.mem[k] = TRUE, FALSE
                if f == self.vars: ns.prop, no.prop = (eq, used | {key}, unused), (eq, used, unused | {key})
                return [(ns, yes, "ret"), (no, no_, "ret")]
            if n == "end": return [(ns, ("it", "end", f), "ret")]
            if n in ("operator[]", "at") and key:
                if f == self.vars: ns.prop = (eq, used | {key}, unused - {key})
                return [(ns, ("p", ("entry", f), ()), "ret")]
            if n == "erase":
                if key is None and len(args) > 1:
                    it = self.iter(st, args[1])
                    if it and it[1] == "at": key = it[3]
                if key is None: return [(ns, None, "ret")]
                if f == self.vars: ns.prop = (eq, used - {key}, unused | {key})
                else: ns.prop = ("erased", used, unused)
                return [(ns, None, "ret")]
            if n in ("insert", "emplace", "insert_or_assign", "try_emplace") and key:
                if f == self.vars: ns.prop = (eq, used | {key}, unused - {key})
                else: ns.prop = ("set", used, unused)
                return [(ns, None, "ret")]
        it = self.iter(st, args[0]) if args else None
        if it and q.startswith("std::"):
            o = self.iter(st, args[1]) if len(args) > 1 else None
            if o and n in ("operator==", "operator!="): return [(ns, TRUE if (it == o) == (n == "operator==") else FALSE, "ret")]
            if n in ("operator->", "operator*") and it[1] == "at": return [(ns, ("p", ("entry", it[2]), ()), "ret")]
        if q == "EquationHolder::operator=" and args and args[0] and args[0][0] == "p" and args[0][1] == ("entry", self.eqs):
            ns.prop = ("set", used, unused)
            return [(ns, args[0], "ret")]
        return None
    def iter(self, st, a):
        if a and a[0] == "it": return a
        if not a or a[0] != "p": return None
        return next((v for (b, path), v in sorted(st.mem.items(), key=str) if b == a[1] and path[:len(a[2])] == a[2] and v and v[0] == "it"), None)

def check_saved(r):
    p = load()
    def run(c, f, prop, strs=()):
        st = start(f, prop)
        for k, v in strs: st.mem[(("arg", k), ("$str",))] = v
        outs = [o for o in Interp(p, c).run(f, st) if o[2] == "ret"]
        r.count("functions")
        if not outs: raise Broken(f"{f.q} never returns")
        return outs
    # the lists of devices, of regions
    pairs = {}
    for cls, part in (("dsMath::Newton", "device"), ("Device", "region")):
        for op in ("BackupSolutions", "RestoreSolutions"):
            fs = [f for f in p.fns.values() if f.q == f"{cls}::{op}"]
            if not fs: raise Broken(f"no {cls}::{op}")
            for f in fs:
                for s, rv, kind, tr in run(Parts(p, r, f, op), f, (NONE, None), [(1, SUFFIX)] if cls == "Device" else []):
                    done, nodes = s.prop
                    mine = {x[1] for x in done if x[0] == 1}
                    if not mine:
                        r.add(f"{f.q}:every", f"{f.q}: a {part} is passed over", f.where(), trace_lines(tr))
                        continue
                    if cls == "Device":
                        if mine != {SUFFIX}: r.add(f"{f.q}:suffix", f"{f.q}: the values of a region are not those of the suffix given", f.where(), trace_lines(tr))
                        continue
                    pairs.setdefault(f.d.split("::BackupSolutions")[0].split("::RestoreSolutions")[0], {}).setdefault(op, set()).add((frozenset(mine), nodes, f.where()))
    for inst, ops in pairs.items():
        names = {n for _, n, _ in ops["BackupSolutions"]}
        for m, n, w in ops["BackupSolutions"] | ops["RestoreSolutions"]:
            if n is None or n[0] == "copied" and (n[1] is None or n[2] is None): r.add("nodes", f"{inst}: the solution of the circuit is not saved and restored", w)
        for m, n, w in ops["RestoreSolutions"]:
            for m2, n2, w2 in ops["BackupSolutions"]:
                if m != m2 or len(m) != 1 or None in m: r.add("suffix", f"{inst}: what is restored is not what was saved ({w2})", w)
                if n and n2 and n[0] == n2[0] == "copied" and (n[1], n[2]) != (n2[2], n2[1]): r.add("node names", f"{inst}: what is restored of the circuit is not what was saved ({w2})", w)
            if n and n[0] == "copied" and not n[3]: r.add("dependents", f"{inst}: models which depend on the nodes of the circuit are not told that the values are restored", w)
            if n and n[0] == "copied":
                for up in getattr(r, "updated", ()):
                    r.count("node_updates")
                    if up != n[2]: r.add("node solution", f"{inst}: the solution of the circuit which is updated is not the one which is restored", w)
    # the variables of a region
    for op in ("BackupSolutions", "RestoreSolutions"):
        for f in need(p, f"Region::{op}"):
            for s, rv, kind, tr in run(Names(p, r, f, "?"), f, (NONE, None), [(1, SUFFIX)]):
                want = ("<1><suffix>", "<1>")
                if op != "BackupSolutions": want = want[::-1]
                if want not in s.prop[0]: r.add(f"{f.q}:values", f"{f.q}: a variable need not be {'saved' if op[0] == 'B' else 'restored'}", f.where(), trace_lines(tr))
                if any(a == "<1>" for a, b in s.prop[0] if op[0] == "B"): r.add(f"{f.q}:changes", f"{f.q}: changes the solution to be saved", f.where(), trace_lines(tr))
    for f in need(p, "Region::GetVariableList"):
        for s, rv, kind, tr in run(Listed(p, r, f, "?"), f, (NONE, None)):
            if ("listed", "<1>") not in s.prop[0]: r.add(f"{f.q}:every", f"{f.q}: a variable in use is left out", f.where(), trace_lines(tr))
    # the variables in use are those of the equations
    eqs = getter_field(p, "Region::GetEquationPtrList")
    variables = set()
    for f in need(p, "Region::GetVariableList"):
        for bl in f.blocks:
            for i in bl:
                if i[0] == "gep" and i[5] and isinstance(i[3], dict) and i[3].get("a") == 1: variables.add(i[5][0])
    if len(variables) != 1: raise Broken("Region::GetVariableList: no member found")
    variables = next(iter(variables))
    for name in ("AddEquation", "DeleteEquation"):
        for f in need(p, f"Region::{name}"):
            for s, rv, kind, tr in run(Registry(p, r, f, eqs, variables), f, (None, NONE, NONE)):
                eq, used, unused = s.prop
                r.count("registrations")
                if eq == "set":
                    if "<variable>" not in used: r.add(f"{f.q}:unused", f"{f.q}: the variable of an equation is not entered", f.where(), trace_lines(tr))
                    if "<old variable>" in used: r.add(f"{f.q}:old", f"{f.q}: the variable of an equation replaced stays in use", f.where(), trace_lines(tr))
                if eq == "erased" and "<variable>" not in unused: r.add(f"{f.q}:erased", f"{f.q}: the variable of an equation removed stays in use", f.where(), trace_lines(tr))
                if eq is None and "<variable>" in unused: r.add(f"{f.q}:lost", f"{f.q}: removes the variable of an equation which stays", f.where(), trace_lines(tr))
                if name == "DeleteEquation" and eq != "erased": r.add(f"{f.q}:kept", f"{f.q}: the equation is not removed", f.where(), trace_lines(tr))

def check_solves(r):
    check_newton(r)
    check_linear(r)
    check_errors(r)
    check_saved(r)
    r.need("solves", 4)
    r.need("linear_solves", 4)
    r.need("updates", 4)
    r.need("part_updates", 3)
    r.need("part_errors", 4)
    r.need("saves", 4)
    r.need("values_copied", 4)
    r.need("registry_uses", 4)
    r.explain = ("Path-sensitive typestate simulation of the three kinds of solve, the linear solvers and preconditioners, the functions that fold the errors of the parts, and those that save and restore the solution: "
                 "an update needs a linear solve that succeeded and a solution that is saved, success needs every part updated, its errors below their limits and no floating point exception on record, any other end needs the solution restored; "
                 "a list of parts is decided for an arbitrary element with any others before and after it.")
    r.assumptions = ["Saving and restoring the values of a model, and of the solution of the circuit, copies them (NodeModel::SetValues, NodeKeeper::CopySolution)",
                     "An error while the solution is restored is not considered",
                     "A preconditioner whose solution is only an approximation (block, GMRES) is held to what it reports"]
