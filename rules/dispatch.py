"""Exceptions, floating point flags and the interpreter lock between Python and the simulator."""
import re
from common import *
import python as py
import commands

STD_EXC = {"exception", "bad_alloc", "bad_cast", "bad_typeid", "bad_exception", "bad_array_new_length", "bad_function_call", "bad_weak_ptr", "runtime_error", "logic_error", "invalid_argument",
           "out_of_range", "domain_error", "length_error", "range_error", "overflow_error", "underflow_error", "system_error", "future_error", "ios_base7failure"}
STD_BASE = {"bad_array_new_length": "bad_alloc", "runtime_error": "exception", "logic_error": "exception", "invalid_argument": "logic_error", "out_of_range": "logic_error", "domain_error": "logic_error",
            "length_error": "logic_error", "range_error": "runtime_error", "overflow_error": "runtime_error", "underflow_error": "runtime_error", "system_error": "runtime_error"}

def std_name(t):
    m = re.fullmatch(r"_ZTISt\d+(\w+)", t)
    return m.group(1) if m and m.group(1) in STD_EXC else None

def bases(p, t):
    """the type itself and what it derives from, as far as the program shows"""
    out, work = set(), [t]
    while work:
        x = work.pop()
        if x in out: continue
        out.add(x)
        s = std_name(x)
        if s:
            if s != "exception":
                b = STD_BASE.get(s, "exception"); work.append(f"_ZTISt{len(b)}{b}")
            continue
        g = p.globals.get(x)
        if g:
            def visit(v):
                if isinstance(v, list):
                    for y in v: visit(y)
                elif isinstance(v, dict):
                    if "g" in v and v["g"].startswith("_ZTI"): work.append(v["g"])
            visit(g["init"])
    return out

def thrown_types(p):
    out = {}
    for f in p.fns.values():
        for b, k, i in f.calls():
            if p.callee_qs(i) == {"__cxa_throw"}:
                t = i[4][1].get("g") if isinstance(i[4][1], dict) else None
                out.setdefault(t or "?", []).append((f, i))
    return out

def pad(fn, b):
    for i in fn.blocks[b]:
        if i[0] == "landingpad": return i
    return None

def terminates(p, fn, b):
    return any(x[0] == "call" and "__clang_call_terminate" in p.callee_qs(x) for x in fn.blocks[b])

def reach_blocks(fn, b):
    seen, w = set(), [b]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        w += fn.succs(x, True)
    return seen

def catches(p, clauses, t):
    return "*" in clauses or any(c in bases(p, t) for c in clauses)

_mt = None
def may_throw(p):
    """functions a dsException (or another type the program throws) may leave"""
    global _mt
    if _mt is not None: return _mt
    out = {}
    work = []
    def mark(f, why):
        if f.n not in out:
            out[f.n] = why; work.append(f)
    callers = p.callers()
    def leaves(f, i):
        if i[6] < 0: return True
        l = pad(f, i[6])
        if l is None: return True
        if "*" in l[3] or any(c.startswith("_ZTI") for c in l[3]): return False
        return not terminates(p, f, i[6])
    for f in p.fns.values():
        for b, k, i in f.calls():
            q = p.callee_qs(i)
            if q & {"__cxa_throw", "__cxa_rethrow"} and leaves(f, i): mark(f, i)
    while work:
        g = work.pop()
        for v in esp.variants(g.n):
            for f, b, k, i in callers.get(v, ()):
                if leaves(f, i): mark(f, i)
    _mt = out
    return out

class Throws(Client):
    """does the call end in an exception on a path that is not contradictory? prop: whether it is reached"""
    max_states = 20000
    unwind = False
    def __init__(self, p, fn, inst, mt): self.p, self.fn, self.inst, self.mt, self.hit = p, fn, inst, mt, False
    def inline_args(self, ip, st, fn, inst, g, args): return g.n in self.mt if fn.n != self.fn.n or inst is self.inst else None
    def call(self, ip, st, fn, inst, qs, args):
        inside = fn.n != self.fn.n or inst is self.inst
        if qs & {"dsAssert_", "__cxa_throw", "__cxa_rethrow"}:
            if inside: self.hit = True
            return [(st.copy(), None, "noreturn")]
        if "OutputStream::WriteOut" in qs and inside:
            k = 0
            v = args[k] if args else None
            if v is None or v == ("c", 4): self.hit = True
            return [(st.copy(), None, "ret")]
        if len(qs) == 1 and not args and inst[7] == "i1":
            # a question about the state of the program has one answer throughout
            k = (("pure", next(iter(qs))), ())
            if k in st.mem: return [(st.copy(), st.mem[k], "ret")]
            a, b = st.copy(), st.copy()
            a.mem[k] = TRUE; b.mem[k] = FALSE
            return [(a, TRUE, "ret"), (b, FALSE, "ret")]
        return None

def really_throws(p, f, inst):
    c = Throws(p, f, inst, may_throw(p))
    try:
        Interp(p, c).run(f, State({(0, "a%d" % k): ("p", ("arg", k), ()) for k, t in enumerate(f.aty) if t in ("ptr", "sret")}, {}, ()))
    except esp.Budget: return True
    return c.hit

ENDS = {"exit", "abort", "_exit", "_Exit", "quick_exit", "std::terminate", "std::exit", "std::abort", "Py_Exit", "Py_FatalError", "raise", "kill", "pthread_exit"}

def check_containment(res):
    p = load()
    res.explain = ("exception flow from every handler call to the return to Python, exceptions against functions they must not leave, process-ending calls, and simulation of the dispatch function: "
                   "floating point flags cleared before and examined after the handler, positional arguments refused")
    res.assumptions = ["library functions throw only types derived from std::exception", "destructors of library types do not throw"]
    # what is thrown
    types = thrown_types(p)
    for t, sites in types.items():
        res.count("throw_sites", len(sites))
    # the handler calls
    py_p, sims = py.simulate()
    for fn, c, r, results, ip in sims:
        if not fn.q.endswith("CmdDispatch"): continue
        res.count("dispatchers")
        sites = {(f.n, i[1], i[2]): (f, i) for f, i, *_ in c.handler_calls}
        res.count("handler_call_sites", len(sites))
        for f, i in sites.values():
            for t in sorted(set(types) | {"_ZTISt9exception", "_ZTISt9bad_alloc"}):
                if t == "?": continue
                frontier = [(f, i)]
                seen = set()
                while frontier:
                    g, ci = frontier.pop()
                    if (g.n, ci[1], ci[2]) in seen: continue
                    seen.add((g.n, ci[1], ci[2]))
                    res.count("exception_flows")
                    l = pad(g, ci[6]) if ci[6] >= 0 else None
                    if l is not None and catches(p, l[3], t):
                        # caught: not thrown on
                        for b in reach_blocks(g, ci[6]):
                            for x in g.blocks[b]:
                                if x[0] == "call" and p.callee_qs(x) & {"__cxa_rethrow"} and x[6] < 0:
                                    res.add(f"escapes:{t}", f"{g.q}: an exception of type {t} from a command handler is thrown on into the interpreter", g.where(x))
                        continue
                    if g.n == fn.n or g.q.endswith("CmdDispatch"):
                        res.add(f"escapes:{t}", f"{g.q}: an exception of type {typename(p, t)} from a command handler is not caught and ends the interpreter", g.where(ci))
                        continue
                    up = [(h, x) for v in esp.variants(g.n) for h, b, k, x in p.callers().get(v, ()) if "/pythonapi/" in h.file]
                    frontier += up
        # simulation facts
        for f, i, fpe, argc in c.dispatch_facts:
            if fpe != TRUE: res.add(f"fpe-stale:{fn.q}", f"{fn.q}: the handler is called without the floating point flags having been cleared", f.where(i))
            if argc == ("nn",) or (argc and argc[0] == "c" and argc[1]): res.add(f"positional:{fn.q}", f"{fn.q}: the handler is called although there are positional arguments", f.where(i))
            if argc is None: res.add(f"positional-unchecked:{fn.q}", f"{fn.q}: the handler is called without the number of positional arguments being known", f.where(i))
        for start, env, (st, rv, kind, tr) in results:
            if kind != "ret": continue
            res.count("paths_to_exit")
            ran = st.mem.get((("ran",), ()))
            if ran == TRUE and rv is not None and rv != FALSE and st.mem.get((("fpe",), ())) != ("c", 2):
                res.add(f"fpe-unchecked:{fn.q}", f"{fn.q}: a result is returned without the floating point flags having been examined", fn.where(), commands.src_trace(fn, tr))
    # the rest of the program
    mt = may_throw(p)
    for f in p.fns.values():
        for b, k, i in f.calls():
            for q in p.callee_qs(i) & ENDS:
                res.count("process_ending_calls")
                if q == "Py_Exit" and "OutputStream" in f.d: continue     # nowhere to write: stdout was removed
                if q == "std::terminate" or f.q.startswith("__clang"): continue
                res.add(f"ends:{f.q}:{q}", f"{f.q}: {q} ends the process instead of reporting an error", f.where(i))
            if i[6] >= 0 and terminates(p, f, i[6]):
                res.count("calls_that_must_not_throw")
                for s in p.callees(i):
                    g = p.resolve(s)
                    if g is not None and g.n in mt and really_throws(p, f, i):
                        res.add(f"noexcept:{f.q}:{g.q}", f"{f.q}: {g.q} may throw where an exception ends the process", f.where(i), path(p, g, mt))
    res.count("functions_that_may_throw", len(mt))
    res.need("dispatchers", 1); res.need("handler_call_sites", 1); res.need("exception_flows", 3)

def typename(p, t):
    s = std_name(t)
    return "std::" + s if s else p.globals.get(t, {}).get("d", t).replace("typeinfo for ", "")

def path(p, g, mt, n=12):
    out = []
    while g is not None and len(out) < n:
        i = mt.get(g.n)
        if i is None: break
        out.append(f"{g.q} {g.where(i)}")
        nx = [p.resolve(s) for s in p.callees(i)]
        nx = [x for x in nx if x is not None and x.n in mt]
        g = nx[0] if nx else None
    return out

# ---------------------------------------------------------------- C07: the interpreter lock
FREE_API = {"PyGILState_Ensure", "PyGILState_Release", "PyGILState_Check", "Py_IsInitialized", "PyEval_SaveThread", "PyEval_RestoreThread", "PyGILState_GetThisThreadState"}
ACQ, REL = "EnsurePythonGIL::EnsurePythonGIL", "EnsurePythonGIL::~EnsurePythonGIL"
OUT, BACK = "MasterGILControl::MasterGILControl", "MasterGILControl::~MasterGILControl"

def lock_states(p, fn):
    """at each call: (lock taken here on every path, lock given up here on some path)"""
    n = len(fn.blocks)
    ent = [None] * n
    ent[0] = (0, False)
    work = [0]
    at = {}
    while work:
        b = work.pop()
        held, gone = ent[b]
        for i in fn.blocks[b]:
            nxt = None
            if i[0] == "call":
                at[(b, id(i))] = (held, gone, i)
                q = p.callee_qs(i)
                h2, g2 = held, gone
                if q == {ACQ}: h2 = held + 1
                elif q == {REL}: h2 = max(0, held - 1)
                elif q == {OUT}: g2 = True
                elif q == {BACK}: g2 = False
                if i[5] >= 0:
                    for s, v in ((i[5], (h2, g2)), (i[6], (held, gone) if q & {ACQ, OUT} else (h2, g2))):
                        if s is None or s < 0: continue
                        flow(ent, work, s, v)
                    continue
                held, gone = h2, g2
        t = fn.blocks[b][-1]
        if t[0] != "call":
            for s in fn.succs(b, True): flow(ent, work, s, (held, gone))
    return list(at.values())

def flow(ent, work, s, v):
    o = ent[s]
    n = v if o is None else (min(o[0], v[0]), o[1] or v[1])
    if n != o:
        ent[s] = n; work.append(s)

def check_gil(res):
    p = load()
    res.explain = ("lock-state dataflow in every function: where the lock is taken (EnsurePythonGIL) and given up (MasterGILControl); a function needs the lock when it can reach the Python API "
                   "without taking it; what runs while the lock is given up must not need it, and what runs on worker threads must not use Python at all (the thread waiting for them may hold the lock)")
    res.assumptions = ["Python calls the module functions with the lock held", "a call through a function pointer reaches a function of the program only where listed"]
    states = {}
    def relevant(f): return not f.q.startswith(("EnsurePythonGIL::", "MasterGILControl::"))
    callers = p.callers()
    needs, uses, work, wu = {}, {}, [], []
    def st(f):
        r = states.get(f.n)
        if r is None:
            r = states[f.n] = {id(i): (h, g) for h, g, i in lock_states(p, f)}
        return r
    for f in p.fns.values():
        if not relevant(f): continue
        for b, k, i in f.calls():
            for q in p.callee_qs(i):
                a = py.api(q)
                if a and a not in FREE_API or q.startswith("VERIF_"):
                    res.count("api_call_sites")
                    if f.n not in uses: uses[f.n] = i; wu.append(f)
                    s = st(f).get(id(i))
                    if s and s[0] == 0 and f.n not in needs:
                        needs[f.n] = i; work.append(f)
                    if s and s[0] == 0 and s[1]: res.add(f"released:{f.q}:{q}", f"{f.q}: uses Python after having given up the lock", f.where(i))
    while wu:
        g = wu.pop()
        if g.q == "dsAssert_": continue       # a failed internal assertion
        for v in esp.variants(g.n):
            for f, b, k, i in callers.get(v, ()):
                if relevant(f) and f.n not in uses: uses[f.n] = i; wu.append(f)
    while work:
        g = work.pop()
        for v in esp.variants(g.n):
            for f, b, k, i in callers.get(v, ()):
                if not relevant(f): continue
                s = st(f).get(id(i))
                if s is None or s[0]: continue
                if s[1]:
                    res.add(f"released:{f.q}:{g.q}", f"{f.q}: {g.q} uses Python without the lock, which is given up here", f.where(i), path(p, g, needs))
                if f.n not in needs: needs[f.n] = i; work.append(f)
    res.count("functions_that_need_the_lock", len(needs)); res.count("functions_using_python", len(uses))
    # scopes without the lock
    for f in p.fns.values():
        for b, k, i in f.calls():
            if p.callee_qs(i) == {OUT}: res.count("scopes_without_lock")
            if p.callee_qs(i) == {ACQ}: res.count("scopes_with_lock")
    # worker threads
    for f in p.fns.values():
        if not f.file.startswith("/repo") : continue
        for b, k, i in f.calls():
            qs = p.callee_qs(i)
            if not any(q in ("std::async", "std::thread::thread") or q.startswith("std::thread::thread") for q in qs): continue
            res.count("thread_starts")
            names = set()
            for s in p.callees(i): names.add(p.dem.get(s, s))
            bodies = thread_bodies(p, names)
            for g in bodies:
                res.count("thread_bodies")
                if g.n in uses:
                    res.add(f"thread:{g.q}", f"{g.q}: runs on a worker thread and uses Python", g.where(), path(p, g, uses))
    check_release(p, res)
    res.need("api_call_sites", 100); res.need("scopes_with_lock", 5)

def thread_bodies(p, names):
    """the call operators of the callables handed to a thread"""
    out = []
    for d in names:
        for f in p.fns.values():
            if "operator()" not in f.d or "(" not in f.d: continue
            cls = f.d.split("operator()")[0].rstrip(":").split(" ")[-1] if False else None
        m = re.search(r"std::async<(.*)", d) or re.search(r"thread<(.*)", d)
        arg = m.group(1) if m else d
        for f in p.fns.values():
            if "::operator()" in f.d:
                cls = f.d[:f.d.index("::operator()")]
                if cls and cls in arg: out.append(f)
    return out

class Lock(Client):
    """prop = (saved, restored)"""
    max_depth = 3
    def __init__(self): self.interesting = {"PyEval_SaveThread", "PyEval_RestoreThread", "PyGILState_Ensure", "PyGILState_Release"}
    def inline_args(self, ip, st, fn, inst, g, args): return g.q.startswith(("MasterGILControl::", "EnsurePythonGIL::"))
    def call(self, ip, st, fn, inst, qs, args):
        if len(qs) != 1: return None
        q = next(iter(qs))
        ns = st.copy()
        if q == "PyEval_SaveThread":
            ns.prop = (st.prop[0] + 1, st.prop[1], st.prop[2]); return [(ns, ("p", ("saved",), ()), "ret")]
        if q == "PyEval_RestoreThread":
            ok = args and args[0] and args[0][0] == "p" and args[0][1] in (("saved",),)
            ns.prop = (st.prop[0], st.prop[1] + 1, st.prop[2] and bool(ok)); return [(ns, None, "ret")]
        if q == "PyGILState_Ensure":
            ns.prop = (st.prop[0] + 1, st.prop[1], st.prop[2]); return [(ns, ("c", 7), "ret")]
        if q == "PyGILState_Release":
            ns.prop = (st.prop[0], st.prop[1] + 1, st.prop[2] and args[0] == ("c", 7)); return [(ns, None, "ret")]
        return None

def check_release(p, res):
    """the two guards: what the constructor takes or gives up the destructor gives back, exactly once"""
    for cls, nested in (("MasterGILControl", True), ("EnsurePythonGIL", False)):
        ctors = [f for f in p.find(f"{cls}::{cls}") if "C2E" in f.n or len(p.find(f"{cls}::{cls}")) == 1]
        dtors = [f for f in p.find(f"{cls}::~{cls}") if "D2E" in f.n or len(p.find(f"{cls}::~{cls}")) == 1]
        if not ctors or not dtors: raise Broken(f"no constructor or destructor of {cls}")
        glob = [g for g in p.globals if cls in p.globals[g]["d"] and "thread_state" in p.globals[g]["d"]]
        for already in ((False, True) if nested else (False,)):
            ip = Interp(p, Lock())
            mem = {}
            for g in glob: mem[(("g", g), ())] = ("p", ("outer",), ()) if already else FALSE
            for st, rv, kind, tr in ip.run(ctors[0], State({(0, "a0"): ("p", ("arg", 0), ())}, mem, (0, 0, True))):
                if kind != "ret": continue
                if st.prop[0] != (0 if already else 1): res.add(f"guard:{cls}", f"{cls}: the constructor takes the thread state {st.prop[0]} times{' inside a scope that has it already' if already else ''}", ctors[0].where())
                st.env[(0, "a0")] = ("p", ("arg", 0), ())
                for s2, rv2, k2, t2 in Interp(p, Lock()).run(dtors[0], State(dict(st.env), dict(st.mem), st.prop)):
                    if k2 != "ret": continue
                    res.count("guard_paths")
                    if s2.prop[0] != s2.prop[1] or not s2.prop[2]: res.add(f"guard:{cls}", f"{cls}: what the constructor took is not given back exactly once", dtors[0].where())
                    for g in glob:
                        v = s2.mem.get((("g", g), ()))
                        if not already and v != FALSE: res.add(f"guard-state:{cls}", f"{cls}: the state is still recorded after it was given back", dtors[0].where())
                        if already and v != ("p", ("outer",), ()): res.add(f"guard-state:{cls}", f"{cls}: a nested scope changes the state of the outer one", dtors[0].where())
    res.need("guard_paths", 3)
