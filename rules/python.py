"""Rules on the layer between Python and the simulator (src/pythonapi)."""
import re
from common import *
import commands

# functions of the Python C API: what they return and what they do with references.
# new: a new reference; borrowed; F: can fail for some argument (NULL or -1, exception pending);
# allocation failures are not considered
NEW_F = {"PyUnicode_AsUTF8String", "PyUnicode_AsEncodedString", "PyUnicode_FromString", "PyUnicode_FromStringAndSize", "PyUnicode_DecodeUTF8",
         "PyObject_Str", "PyObject_Repr", "PyObject_Bytes", "PyNumber_Float", "PyNumber_Long", "PyNumber_Index", "PyLong_FromString", "PyFloat_FromString",
         "PySequence_GetItem", "PySequence_List", "PySequence_Tuple", "PyObject_GetItem", "PyObject_GetIter", "PyMapping_Items", "PyMapping_Keys",
         "PyImport_ImportModule", "PyImport_Import", "PyObject_GetAttrString", "PyObject_GetAttr", "PyObject_CallObject", "PyObject_CallFunction",
         "PyObject_Call", "PyObject_CallMethod", "PyObject_CallNoArgs", "PyObject_CallFunctionObjArgs", "PyObject_CallMethodObjArgs",
         "PyModule_Create2", "PyErr_NewException", "PyMemoryView_FromObject"}
NEW_A = {"PyDict_Keys", "PyDict_Items", "PyTuple_New", "PyList_New", "PyDict_New", "PyFloat_FromDouble", "PyLong_FromLong", "PyLong_FromLongLong",
         "PyLong_FromSsize_t", "PyLong_FromSize_t", "PyLong_FromUnsignedLong", "PyBool_FromLong", "PyByteArray_FromStringAndSize", "PyBytes_FromStringAndSize",
         "PyMemoryView_FromMemory", "PyTuple_Pack", "Py_BuildValue", "PyTuple_GetSlice"}
BORROWED = {"PyModule_GetDict": 0, "PyDict_GetItem": 1, "PyDict_GetItemString": 1, "PySys_GetObject": 1, "PyTuple_GetItem": 0, "PyList_GetItem": 0}   # 1: may be NULL
INT_F = {"PyObject_IsTrue", "PySequence_Size", "PyObject_Size", "PyObject_Length", "PyBytes_AsStringAndSize", "PyFile_WriteString", "PyFile_WriteObject"}
NUM_F = {"PyLong_AsLong", "PyLong_AsLongLong", "PyLong_AsSsize_t"}
OPTIONAL_NULL = {"PyObject_Call": {2}, "PyObject_CallObject": {1}, "PyErr_NewException": {1, 2}, "PyUnicode_DecodeUTF8": {2}, "PyUnicode_AsEncodedString": {2}, "Py_XINCREF": {0}, "Py_XDECREF": {0},
                 "PyObject_CallFunction": {1}, "PyObject_CallMethod": {2}, "PyErr_Restore": {0, 1, 2}, "PyLong_FromString": {1}, "PyCallable_Check": {0}, "PyTuple_SetItem": {2}}
CONVERTS = {"PyFloat_AsDouble", "PyLong_AsLong", "PyLong_AsLongLong", "PyLong_AsSsize_t", "PyObject_IsTrue"}
ROUNDTRIP = ("surrogateescape", "replace", "ignore", "backslashreplace")

def fixname(q):
    return {"VERIF_incref": "Py_INCREF", "VERIF_decref": "Py_DECREF", "VERIF_xincref": "Py_XINCREF", "VERIF_xdecref": "Py_XDECREF",
            "Py_IncRef": "Py_XINCREF", "Py_DecRef": "Py_XDECREF"}.get(q, q)

def api(q):
    q = fixname(q)
    return q if q.startswith("Py") and "::" not in q else None

NOTNULL = ("nn",)

class PyClient(Client):
    """prop = (exception pending, references held per object, state of the last conversion)"""
    max_depth = 6
    def __init__(self, p, res, root):
        self.p, self.res, self.root = p, res, root
        self.interesting = set()
        self.sites = set()
        self.badpair = []
        self.fails = set()
        self.handler_calls = []
        self.dispatch_facts = []
    # -- references
    @staticmethod
    def refs(st): return dict(st.prop[1])
    @staticmethod
    def setrefs(st, r): st.prop = (st.prop[0], tuple(sorted((k, v) for k, v in r.items())), st.prop[2])
    def setpending(self, st, b): st.prop = (b, st.prop[1], st.prop[2])
    def setconv(self, st, c): st.prop = (st.prop[0], st.prop[1], c)
    def fresh(self, st, fn, inst, n, tag=""):
        o = ("py", fn.n, inst[2] or 0, inst[1] if inst[1] is not None else -1, tag)
        r = self.refs(st)
        r[o] = n
        self.setrefs(st, r)
        return ("p", o, ())
    def add(self, st, fn, inst, v, n, what):
        r = self.refs(st)
        if v and v[0] in ("sym", "nn") and what.endswith("takes over a reference") or v and v[0] == "sym" and v in r:
            # an object held elsewhere, as by an element of a container
            n += r.get(v, 0)
            if n < 0:
                self.res.add(f"stolen:{self.root.q}", f"{self.root.q}: {what} to an object that is held elsewhere", fn.where(inst))
            r[v] = min(n, 8)
            if n <= 0: del r[v]
            self.setrefs(st, r)
            return
        if v and v[0] == "sym" and what == "Py_INCREF":
            r[v] = min(r.get(v, 0) + n, 8)
            self.setrefs(st, r)
            return
        if not v or v[0] != "p" or v[1][0] not in ("py", "arg"): return
        o = v[1]
        if r.get(o) == "?": return
        if o not in r:
            if o[0] == "arg": r[o] = 0
            else: return
        r[o] += n
        if r[o] < 0:
            self.res.add(f"over-release:{self.root.q}", f"{self.root.q}: a reference is released that is not owned ({what})", fn.where(inst))
            r[o] = 0
        if r[o] > 8: r[o] = "?"
        self.setrefs(st, r)
    def escape(self, st, v):
        """the object is handed to something that is not analysed"""
        if v and v[0] == "p" and v[1][0] == "py":
            r = self.refs(st)
            if v[1] in r: r[v[1]] = "?"; self.setrefs(st, r)
    def inline_args(self, ip, st, fn, inst, g, args):
        if g.q.startswith(("std::", "CommandHandler::", "dsGetArgs::", "EnsurePythonGIL::", "MasterGILControl::", "dsPy::", "FPECheck::", "OutputStream::")): return False
        return ("/pythonapi/" in g.file or g.q.startswith("ObjectHolder::")) and len(g.blocks) < 120
    def may_throw(self, fn, inst, qs):
        return "i" in inst[3] and self.root.q.endswith("CmdDispatch")
    def isnull(self, v): return v == ("c", 0)
    def store(self, ip, st, fn, inst, v, ptr):
        # a reference stored in memory that is not tracked is owned by that memory
        if v and v[0] == "p" and v[1][0] == "py" and not v[2]:
            if ptr is None or ptr[0] != "p" or (ptr[1][0] not in ("al", "arg", "py", "state") or "[]" in ptr[2]):
                self.add(st, fn, inst, v, -1, "stored without a reference of its own")
    def load(self, ip, st, fn, inst, ptr):
        # the result of a conversion this one builds on
        if ptr and ptr[0] == "p" and ptr[1][0] == "al" and ptr[2] and ptr[2][-1] == "first" and inst[4] == "i8": return TRUE if st.prop[2] == "ok" else FALSE
        return None
    def call(self, ip, st, fn, inst, qs, args):
        if len(qs) > 1: return None
        if not qs:
            if self.root.q.endswith("CmdDispatch") and "i" in inst[3]:
                self.dispatch_facts.append((fn, inst, st.mem.get((("fpe",), ())), st.mem.get((("argc",), ()))))
                st.mem[(("ran",), ())] = TRUE
                st.mem[(("fpe",), ())] = ("c", 3)
                self.handler_calls.append((fn, inst, st.prop, {k: v for k, v in st.mem.items() if k[1] and k[1][-1] == "kwargs_"}, dict(st.env)))
                ns = st.copy()
                th = st.copy()
                return [(ns, None, "ret"), (th, None, "throw")]
            return None
        q = next(iter(qs))
        if q == "std::swap" and len(args) == 2:
            ns = st.copy()
            def cell(a): return (a[1], a[2]) if a and a[0] == "p" and "[]" not in a[2] else None
            ca, cb = cell(args[0]), cell(args[1])
            va, vb = ns.mem.get(ca) if ca else None, ns.mem.get(cb) if cb else None
            for c, v, old in ((ca, vb, va), (cb, va, vb)):
                if c is None:
                    if v: self.add(ns, fn, inst, v, -1, "moved away")
                elif v is None: ns.mem.pop(c, None)
                else: ns.mem[c] = v
            return [(ns, None, "ret")]
        if q in ("std::make_pair", "std::pair::pair") or q.endswith("::make_pair"):
            v = None
            for a in args:
                if a and a[0] == "p" and a[1][0] == "al":
                    x = st.mem.get((a[1], a[2]))
                    if x in (TRUE, FALSE): v = x; break
                    if x is not None and x[0] == "sym": v = x; break
            if v is not None and v != FALSE and self.root.q.startswith("ObjectHolder::Get") and st.prop[2] != "ok":
                self.badpair.append((fn, inst, st.prop[2]))
            return None
        if q == "CommandHandler::GetReturnObject" and args and args[0] and args[0][0] == "p":
            a, b = st.copy(), st.copy()
            key = (args[0][1], args[0][2] + ("object_",))
            b.mem[key] = self.fresh(b, fn, inst, 1, "result")
            a.mem[key] = FALSE
            r = self.refs(b); o = b.mem[key][1]; r[o] = 2; self.setrefs(b, r)    # the handler holds one, the copy one
            self.handler_object = o
            return [(a, None, "ret"), (b, None, "ret")]
        if q == "FPECheck::ClearFPE":
            ns = st.copy()
            if ns.mem.get((("ran",), ())) is None: ns.mem[(("fpe",), ())] = TRUE
            return [(ns, None, "ret")]
        if q == "FPECheck::CheckFPE":
            a, b = st.copy(), st.copy()
            if st.mem.get((("ran",), ())): b.mem[(("fpe",), ())] = ("c", 2)
            return [(a, TRUE, "ret"), (b, FALSE, "ret")]
        if q == "dsAssert_": return [(st.copy(), None, "noreturn")]      # only called when the condition failed
        n = api(q)
        if n is None:
            # memory that goes to unknown code takes the references in it along
            for x in self.p.callees(inst) or [None]:
                g = self.p.resolve(x) if x else None
                if g is not None and self.inline_args(ip, st, fn, inst, g, args): return None
                if q.startswith("std::") or q.startswith("EnsurePythonGIL::"): continue
                for k, a in enumerate(args):
                    if a and a[0] == "p" and (x is None or not ip.param_const(x, k, len(args))):
                        self.escape(st, a)
                        for key, v in list(st.mem.items()):
                            if key[0] == a[1] and key[0][0] == "al": self.escape(st, v)
            return None
        self.sites.add((fn.n, inst[2], n))
        opt = OPTIONAL_NULL.get(n, ())
        for k, a in enumerate(args):
            if self.isnull(a) and k not in opt and k < len(inst[4]) and self.is_object_arg(n, k):
                self.res.add(f"null:{self.root.q}:{n}", f"{self.root.q}: NULL reaches {n}", fn.where(inst))
                return [(st.copy(), None, "noreturn")]
            if a and a[0] == "sym" and k not in opt and self.is_object_arg(n, k) and st.mem.get((("maybe-null", a), ())):
                self.res.add(f"unchecked:{self.root.q}:{n}", f"{self.root.q}: a possibly empty object reaches {n} without a check", fn.where(inst))
        out = []
        def ok(ret=None, f=None):
            ns = st.copy()
            if f: f(ns)
            out.append((ns, ret, "ret"))
        def fail(ret, pending=True):
            ns = st.copy()
            if pending: self.setpending(ns, True)
            if n in CONVERTS or n in ("PyNumber_Float", "PyLong_FromString"): self.setconv(ns, "fail")
            self.fails.add((fn.n, inst[2], n))
            out.append((ns, ret, "ret"))
        if n in ("Py_INCREF", "Py_XINCREF"):
            ns = st.copy(); self.add(ns, fn, inst, args[0], 1, n); return [(ns, None, "ret")]
        if n in ("Py_DECREF", "Py_XDECREF"):
            ns = st.copy(); self.add(ns, fn, inst, args[0], -1, n); return [(ns, None, "ret")]
        if n == "PyErr_Clear" or n == "PyErr_Print":
            ok(None, lambda s: self.setpending(s, False)); return out
        if n == "PyErr_SetString" or n in ("PyErr_SetObject", "PyErr_Format", "PyErr_SetNone"):
            ok(None, lambda s: self.setpending(s, True)); return out
        if n == "PyErr_Occurred":
            return [(st.copy(), NOTNULL if st.prop[0] else FALSE, "ret")]
        if n == "PyErr_ExceptionMatches":
            return [(st.copy(), None, "ret")]
        if n == "PyErr_Fetch":
            ns = st.copy()
            for k, a in enumerate(args):
                if a and a[0] == "p":
                    ns.mem[(a[1], a[2])] = self.fresh(ns, fn, inst, 1, "exc%d" % k) if st.prop[0] and k == 0 else FALSE
            outs = [ns]
            if st.prop[0]:
                b = ns.copy()
                for k, a in enumerate(args[1:], 1):
                    if a and a[0] == "p": b.mem[(a[1], a[2])] = self.fresh(b, fn, inst, 1, "exc%d" % k)
                outs.append(b)
            for s in outs: self.setpending(s, False)
            return [(s, None, "ret") for s in outs]
        if n == "PyTuple_SetItem" or n == "PyList_SetItem":
            ns = st.copy(); self.add(ns, fn, inst, args[2], -1, n + " takes over a reference"); return [(ns, FALSE, "ret")]
        if n == "PyModule_AddObject":
            ns = st.copy(); self.add(ns, fn, inst, args[2], -1, n + " takes over a reference"); return [(ns, FALSE, "ret")]
        if n in NEW_F or n in NEW_A:
            ns = st.copy()
            v = self.fresh(ns, fn, inst, 1)
            out.append((ns, v, "ret"))
            infallible = False
            if n == "PyUnicode_DecodeUTF8" and args[2] and args[2][0] == "s" and args[2][1] in ROUNDTRIP: infallible = True
            if n in ("PyUnicode_FromString", "PyUnicode_FromStringAndSize", "PyImport_ImportModule") and args and args[0] and args[0][0] == "s" and n != "PyImport_ImportModule": infallible = True
            if n == "PyObject_GetAttrString" and args[1] and args[1][0] == "s" and (("has", args[1][1]), ()) in st.mem: infallible = True
            if n in NEW_F and not infallible: fail(FALSE)
            return out
        if n in BORROWED:
            ns = st.copy(); out.append((ns, self.fresh(ns, fn, inst, 0, "borrowed"), "ret"))
            if BORROWED[n] and not self.known_present(fn, inst, st, n): fail(FALSE, False)
            return out
        if n in INT_F or n in NUM_F:
            def succ(s):
                if n in CONVERTS: self.setconv(s, "ok")
            if n == "PyObject_IsTrue":
                for c in (0, 1): ok(("c", c), succ)
            elif n in ("PyBytes_AsStringAndSize", "PyFile_WriteString", "PyFile_WriteObject"): ok(FALSE, succ)
            else: ok(None, succ)
            fail(("c", -1))
            return out
        if n == "PyFloat_AsDouble":
            ok(None, lambda s: self.setconv(s, "ok")); return out
        if self.root.q.endswith("CmdDispatch") and n in ("PyTuple_Size", "PySequence_Size", "PyObject_Size", "PyTuple_GET_SIZE"):
            a, b = st.copy(), st.copy()
            a.mem[(("argc",), ())] = FALSE; b.mem[(("argc",), ())] = NOTNULL
            return [(a, FALSE, "ret"), (b, NOTNULL, "ret")]
        if n == "PyDict_Contains" or n == "PyDict_GetItemString":
            ns = st.copy(); ns.mem[(("present",), ())] = ("c", 1)
            return [(ns, TRUE, "ret"), (st.copy(), FALSE, "ret")]
        if n == "PyModule_GetState":
            return [(st.copy(), ("p", ("state",), ()), "ret")]
        if n == "PyObject_HasAttrString":
            ns = st.copy(); nm = args[1][1] if args[1] and args[1][0] == "s" else None
            if nm: ns.mem[(("has", nm), ())] = ("c", 1)
            return [(ns, TRUE, "ret"), (st.copy(), FALSE, "ret")]
        if n == "PySequence_Check" or n == "PyCallable_Check":
            return [(st.copy(), TRUE, "ret"), (st.copy(), FALSE, "ret")]
        if n == "Py_Exit": return [(st.copy(), None, "noreturn")]
        return [(st.copy(), None, "ret")]
    def known_present(self, fn, inst, st, n):
        return n == "PyDict_GetItem" and (("present",), ()) in st.mem
    def is_object_arg(self, n, k):
        if n in ("PyErr_SetString",): return k == 0
        if n.startswith(("PyUnicode_From", "PyUnicode_Decode", "PyImport_ImportModule", "PyLong_From", "PyByteArray_From", "PyBytes_From", "PyFloat_FromD", "PySys_", "PyErr_NewEx", "PyErr_Fetch", "PyTuple_New", "PyMemoryView_FromMemory", "PyGILState", "PyEval", "PyModule_Create")): return False
        if n == "PyFile_WriteString": return k == 1
        if n in ("PyObject_GetAttrString", "PyObject_HasAttrString", "PyObject_CallMethod", "PyObject_CallFunction"): return k == 0
        if n in ("PyDict_SetItemString",): return k != 1
        if n in ("PyTuple_SetItem", "PySequence_GetItem", "PyTuple_GetItem"): return k == 0
        if n == "PyModule_AddObject": return k != 1
        if n == "PyBytes_AsStringAndSize": return k == 0
        if n.startswith("PyErr_"): return False
        return True

def holder_args(p, fn):
    """argument indices that are ObjectHolders"""
    params, const = esp.split_params(fn.d)
    params = [x for x in (params or []) if x != "void"]
    off = len(fn.aty) - len(params)
    sret = 1 if fn.aty and fn.aty[0] == "sret" else 0
    r = []
    if fn.q.startswith("ObjectHolder::") and off > sret and fn.q != "ObjectHolder::ObjectHolder": r.append(sret)
    for k, t in enumerate(params):
        if re.fullmatch(r"ObjectHolder( const)?&{1,2}", t): r.append(k + off)
    return r

def roots(p):
    """the functions of the layer that others call; what they use internally is analysed in place"""
    reach = {f.n for f in p.fns.values() if "/pythonapi/" in f.file and any(api(q) for b, k, i in f.calls() for q in p.callee_qs(i))}
    callers = p.callers()
    work = list(reach)
    while work:
        for v in esp.variants(work.pop()):
            for f, b, k, i in callers.get(v, ()):
                if "/pythonapi/" in f.file and f.n not in reach: reach.add(f.n); work.append(f.n)
    skip = ("std::", "EnsurePythonGIL", "MasterGILControl", "CommandHandler::", "dsGetArgs::")
    return sorted((f for f in p.fns.values() if f.n in reach and not f.q.startswith(skip)
                   and (f.q.endswith("::CmdDispatch") or not f.local) and not re.search(r"dsPy::\w+CmdDispatch$", f.q) and "{lambda" not in f.q and not f.q.startswith("_ZZ")), key=lambda f: f.n)

_pc = None
def simulate():
    global _pc
    if _pc is not None: return _pc
    p = load()
    out = []
    for fn in roots(p):
        if fn.q.startswith(("EnsurePythonGIL", "MasterGILControl")): continue
        res = Result()
        ha = holder_args(p, fn)
        starts = [({}, {}, ())]
        # every ObjectHolder is empty or owns one reference
        states = [{}]
        for k in ha:
            states = [dict(s, **{str(k): v}) for s in states for v in ("null", "obj")]
        c = PyClient(p, res, fn); c.unwind = fn.q.endswith("CmdDispatch")
        ip = Interp(p, c)
        # std::swap etc. are opaque; every function of the layer is worth looking into
        results = []
        if fn.q == "Interpreter::RunCommand":   # what is run was found to be callable
            states = [x for x in states if all(v == "obj" for v in x.values())]
        for s in states:
            env, mem, refs = {}, {}, {}
            for k, t in enumerate(fn.aty):
                if t in ("ptr", "sret"):
                    env[(0, "a%d" % k)] = ("p", ("arg", k), ()) if k in ha or t == "sret" or (k == 0 and fn.q.startswith(("ObjectHolder::", "Interpreter::"))) or "PyObject" in fn.d or "_object*" in fn.d else None
                    if env[(0, "a%d" % k)] is None: del env[(0, "a%d" % k)]
            if fn.q.endswith("CmdDispatch"):
                pass
            for k in ha:
                if s[str(k)] == "null": mem[(("arg", k), ("object_",))] = FALSE
                else:
                    o = ("py", "held", k, 0, "held")
                    refs[o] = 1
                    mem[(("arg", k), ("object_",))] = ("p", o, ())
            variants_ = [env]
            if fn.q.endswith("CmdDispatch"):
                e2 = dict(env); e2[(0, "a2")] = FALSE
                variants_.append(e2)
            for e in variants_:
                st = State(dict(e), dict(mem), (False, tuple(sorted(refs.items())), "none"))
                for r in ip.run(fn, st): results.append((s, e, r))
        out.append((fn, c, res, results, ip))
    _pc = (p, out)
    return _pc

def holders(fn, st, rv):
    """how many owners hold each object at the end"""
    h = {}
    if fn.q.startswith("ObjectHolder::~"): return h
    for (o, path), v in st.mem.items():
        if v and v[0] == "p" and v[1][0] == "py" and not v[2] and o[0] == "arg" and path and path[-1] == "object_":
            h[v[1]] = h.get(v[1], 0) + 1
    return h

def check_references(res):
    p, out = simulate()
    res.explain = ("path-sensitive reference counting of every function of the Python layer that calls the Python C API: each function starts from every combination of "
                   "empty and non-empty ObjectHolders, each API call that can fail forks into success and failure; at every exit each object has exactly as many references "
                   "as it has owners, NULL never reaches an API function that needs an object, and no exception is left pending behind a normal return")
    res.assumptions = ["allocation never fails", "elements of C++ containers of ObjectHolder are not empty", "exceptions thrown in between are covered by the destructors"]
    for fn, c, r, results, ip in out:
        res.count("functions"); res.count("api_call_sites", len(c.sites)); res.count("failing_calls_considered", len(c.fails)); res.count("paths_to_exit", len(results))
        for f in r.findings: res.add(f.key, f.msg, f.where, f.trace)
        for start, env, (st, rv, kind, tr) in results:
            if kind != "ret": continue
            pending, refs, conv = st.prop
            refs = dict(refs)
            if fn.q.endswith("CmdDispatch") or fn.q.startswith("PyInit"):
                null = rv is None or rv == FALSE
                if null and not pending: res.add(f"no-exception:{fn.q}", f"{fn.q}: NULL is returned to Python without an exception", fn.where(), commands.src_trace(fn, tr))
                if not null and pending: res.add(f"pending:{fn.q}", f"{fn.q}: a result is returned to Python with an exception pending", fn.where(), commands.src_trace(fn, tr))
            elif pending and not fn.q.startswith("dsPy::devsim_"):
                res.add(f"pending:{fn.q}", f"{fn.q}: returns normally and leaves a Python exception pending", fn.where(), commands.src_trace(fn, tr))
            h = holders(fn, st, rv)
            for o, n in refs.items():
                if n == "?" or o[0] in ("sym", "nn"): continue
                own = h.get(o, 0)
                if o[-1] == "result": own += 1 if False else 0
                ret = rv and rv[0] == "p" and rv[1] == o
                where = f"{rel(fn.file)}:{o[2]}" if o[0] == "py" and o[1] != "held" else fn.where()
                if ret:
                    if fn.q.endswith("CmdDispatch") or fn.q.startswith("PyInit"):
                        want = 2 if o[-1] == "result" else 1
                        if n < want: res.add(f"dangling:{fn.q}", f"{fn.q}: the object returned to Python is not referenced", where, commands.src_trace(fn, tr))
                        if n > want: res.add(f"leak:{fn.q}", f"{fn.q}: the object returned to Python has a reference too many", where, commands.src_trace(fn, tr))
                    elif n not in (0, 1) or (n == 0 and o[-1] != "borrowed"):
                        res.add(f"dangling:{fn.q}", f"{fn.q}: the returned object is not referenced", where, commands.src_trace(fn, tr))
                    continue
                if o[-1] == "result": own += 1          # the command handler keeps its own
                if o[0] == "arg": own = 0
                if fn.q.endswith("CmdDispatch") and o == ("arg", 2): own = 1 if (("ran",), ()) in st.mem else 0
                if n > own: res.add(f"leak:{fn.q}:{where.rsplit(':', 1)[-1] if False else ''}", f"{fn.q}: a reference is never released (object from line {o[2] if o[0] == 'py' else '?'})", where, commands.src_trace(fn, tr))
                if n < own: res.add(f"dangling:{fn.q}", f"{fn.q}: an object is kept without a reference", where, commands.src_trace(fn, tr))
        if c.handler_calls:
            for f, i, prop, kw, env in c.handler_calls:
                n = dict(prop[1]).get(("arg", 2), 0)
                given = env.get((0, "a2"))
                if given and given != FALSE and n != 1:
                    res.add(f"kwargs:{fn.q}", f"{fn.q}: the option dictionary is handed over with {n} references of its own, option processing releases one", f.where(i))
            res.count("handler_calls", len(c.handler_calls))
    res.need("functions", 20); res.need("api_call_sites", 60); res.need("handler_calls", 1)

# ---------------------------------------------------------------- C04: option validation
CONV = {"ObjectHolder::GetDouble": 3, "ObjectHolder::GetBoolean": 0, "ObjectHolder::GetInteger": 2, "ObjectHolder::IsList": 4}
TYPE_NAME = ["BOOLEAN", "STRING", "INTEGER", "FLOAT", "LIST"]
FREE = {1}                   # every value is acceptable as a string
ITER_EQ = ("std::operator!=", "std::operator==", "std::_Rb_tree_iterator::operator!=", "std::_Rb_tree_iterator::operator==", "std::_Rb_tree_const_iterator::operator==", "std::_Rb_tree_const_iterator::operator!=",
           "std::__detail::operator!=", "std::__detail::operator==")

class Options(Client):
    """prop = (entry, all entries seen, conversions of this entry, offences, row, loops)
    entry: none, open, known.  row: (loop, present) of the option table row being looked at"""
    max_depth = 6
    def __init__(self, p, res, root):
        self.p, self.res, self.root = p, res, root
        self.interesting = set(CONV)
        self.n = {"entries": 0, "conversions": set(), "rows": set(), "callbacks": set(), "lookups": set()}
    def bad(self, key, msg, fn, inst):
        self.res.add(f"{key}", f"{self.root.q}: {msg}", fn.where(inst))
    def inline_args(self, ip, st, fn, inst, g, args):
        if g.q.startswith("dsGetArgs::") or "{lambda" in g.q or "$_" in g.q: return True
        return None
    # -- the keyword argument being looked at
    def close(self, st, fn, inst):
        e, done, conv, off, row, loops = st.prop
        if e == "open":
            if st.mem.get((("kv",), ("first", STR))) != ("s", ""):
                self.bad("unknown-option", "an option is accepted without being looked up among the options of the command", fn, inst)
        elif e == "known":
            t = st.mem.get((("opt",), ("type",)))
            if t and t[0] == "c": kinds = {t[1]}
            else:
                kinds = set(range(5))
                if t and t[0] == "sym":
                    f = st.mem.get((("fact", t), ()))
                    if f: kinds -= set(f[1])
            for k in sorted(kinds - FREE):
                if k not in conv: self.bad(f"unconverted:{TYPE_NAME[k]}", f"a value for an option of type {TYPE_NAME[k]} is accepted without being converted to it", fn, inst)
        for k in [k for k in st.mem if k[0] in (("opt",), ("kv",))]: del st.mem[k]
        st.prop = ("none", done, frozenset(), off, row, loops)
    def offence(self, st, what):
        e, done, conv, off, row, loops = st.prop
        st.prop = ("none" if what in ("unknown", "conversion") else e, done, conv, off | {what}, row, loops)
    # -- the row of the option table being looked at
    def settle(self, st):
        """what is known about the name of the row decides whether there is one"""
        e, done, conv, off, row, loops = st.prop
        if row is None: return
        loop, have, called = row
        v = st.mem.get((("row",), ("name",)))
        L = dict(loops)
        rt, fo, comp = L.get(loop, (True, True, False))
        if v == FALSE:
            L[loop] = (rt, fo, True)
            st.prop = (e, done, conv, off, None, tuple(sorted(L.items())))
            st.mem.pop((("row",), ("name",)), None)
    def endrow(self, st, fn, inst):
        self.settle(st)
        e, done, conv, off, row, loops = st.prop
        if row is None: return
        loop, have, called = row
        L = dict(loops)
        rt, fo, comp = L.get(loop, (True, True, False))
        rq, fu = st.mem.get((("row",), ("rtype",))), st.mem.get((("row",), ("func",)))
        f = st.mem.get((("fact", rq), ())) if rq else None
        required = not (rq == FALSE or (f and 1 in f[1]))
        if have == "absent" and required: off = off | {"missing"}
        elif required and have is None: rt = False
        if not (fu == FALSE or called): fo = False
        L[loop] = (rt, fo, comp)
        for k in [k for k in st.mem if k[0] == ("row",)]: del st.mem[k]
        st.prop = (e, done, conv, off, None, tuple(sorted(L.items())))
    def is_null_test(self, fn, vid):
        return any(u[0] == "icmp" and any(isinstance(o, dict) and "n" in o for o in operands(u)) for b, k, u in fn.users().get(vid, ()))
    def load(self, ip, st, fn, inst, ptr):
        if ptr is None or ptr[0] != "p": return None
        if ptr[1] == ("opts",) and ptr[2]:
            f = ptr[2][-1]
            sym = ("sym", fn.n, inst[1], 0)
            if f == "name":
                self.settle(st)
                if self.is_null_test(fn, inst[1]):
                    self.endrow(st, fn, inst)
                    self.n["rows"].add((fn.n, inst[2]))
                    ip.subst(st, sym, None)
                    e, done, conv, off, row, loops = st.prop
                    st.prop = (e, done, conv, off, ((fn.n, inst[1]), None, False), loops)
                    st.mem[(("row",), ("name",))] = sym
                    return sym
                return ("nn",)
            if f in ("rtype", "func"):
                self.settle(st)
                v = st.mem.get((("row",), (f,)))
                if v is None or v == ("nn",) and f == "rtype":
                    ip.subst(st, sym, None); v = sym
                    st.mem[(("row",), (f,))] = v
                return v
        if ptr[2] and ptr[2][-1] == "first" and inst[4] == "i8":
            e, done, conv, off, row, loops = st.prop
            v = st.mem.get((("conv",), ()))
            return v
        return None
    def container(self, args):
        if not args or not args[0] or args[0][0] != "p": return None
        path = args[0][2]
        if "optionMap" in path: return "optionMap"
        if "selections" in path: return "selections"
        return "other"
    def lookup(self, st, fn, inst, which, mk):
        e, done, conv, off, row, loops = st.prop
        out = []
        self.n["lookups"].add((fn.n, inst[2]))
        if which == "optionMap":
            a = st.copy(); b = st.copy()
            if e == "open":
                a.prop = ("known", done, frozenset(), off, row, loops)
                self.offence(b, "unknown")
            out = [(b, mk(False), "ret")]
            for k in range(len(TYPE_NAME)):
                x = a.copy(); x.mem[(("opt",), ("type",))] = ("c", k); out.append((x, mk(True), "ret"))
            return out
        if which == "selections":
            self.settle(st)
            e, done, conv, off, row, loops = st.prop
            if row is not None:
                for have in ("present", "absent"):
                    ns = st.copy()
                    ns.prop = (e, done, conv, off, (row[0], have, row[2]), loops)
                    out.append((ns, mk(have == "present"), "ret"))
                return out
            if e != "none": return [(st.copy(), mk(False), "ret")]       # the keys of a dictionary are unique
        return None
    def cell_tag(self, st, a):
        if a and a[0] == "p":
            for k, v in st.mem.items():
                if k[0] == a[1] and k[1][:len(a[2])] == a[2] and v and v[0] == "sym" and v[1] == "it": return v[2]
        return None
    def call(self, ip, st, fn, inst, qs, args):
        e, done, conv, off, row, loops = st.prop
        if "i" in inst[3] and not qs:
            # a check function of the option table
            self.settle(st)
            e, done, conv, off, row, loops = st.prop
            self.n["callbacks"].add((fn.n, inst[2]))
            if not done or off - {"callback", "missing"}:
                self.bad("early-check", "a check function is called before the options are known to be valid", fn, inst)
            a = st.copy(); b = st.copy()
            if row: a.prop = (e, done, conv, off, (row[0], row[1], True), loops); b.prop = (e, done, conv, off | {"callback"}, (row[0], row[1], True), loops)
            for x in args[1:]:
                if x and x[0] == "p" and x[1][0] in ("al", "arg"): ip.setstr(b, x, ("nonempty",)); ip.setstr(a, x, st.mem.get((x[1], x[2] + (STR,))))
            return [(a, TRUE, "ret"), (b, FALSE, "ret")]
        if len(qs) != 1: return None
        q = next(iter(qs))
        if q == "dsAssert_": return [(st.copy(), None, "noreturn")]
        if q in CONV:
            k = CONV[q]
            self.n["conversions"].add((fn.n, inst[2], k))
            a, b = st.copy(), st.copy()
            a.mem[(("conv",), ())] = TRUE; b.mem[(("conv",), ())] = FALSE
            a.prop = (e, done, conv | {k}, off, row, loops)
            b.prop = (e, done, conv, off | {"failed%d" % k}, row, loops)
            r = q.endswith("IsList")
            return [(a, TRUE if r else None, "ret"), (b, FALSE if r else None, "ret")]
        if q.startswith("ObjectHolder::"): 
            if q == "ObjectHolder::GetString" and args and args[0] and args[0][0] == "p": ip.setstr(st, args[0], None)
            return [(st.copy(), None, "ret")]
        m = q.rsplit("::", 1)[-1]
        dem = self.p.dem.get(self.p.callees(inst)[0], "") if self.p.callees(inst) else ""
        if q.startswith(("std::map::", "std::unordered_map::")):
            which = self.container(args)
            if m in ("count", "contains"): return self.lookup(st, fn, inst, which, lambda x: TRUE if x else FALSE)
            if m == "find": return self.lookup(st, fn, inst, which, lambda x: ("sym", "it", "hit" if x else "miss", 0))
            if m in ("operator[]", "at") and which == "optionMap":
                ns = st.copy(); ns.mem[(("slot",), ("v",))] = ("p", ("opt",), ())
                return [(ns, ("p", ("slot",), ("v",)), "ret")]
            if m in ("begin", "cbegin"): return [(st.copy(), ("sym", "it", "pos", 0), "ret")]
            if m in ("end", "cend"): return [(st.copy(), ("sym", "it", "end", 0), "ret")]
            return [(st.copy(), None, "ret")]
        if "iterator" in q or "iterator" in dem.split("(")[0] or (q in ITER_EQ and "iterator" in dem):
            if q in ITER_EQ or m in ("operator!=", "operator=="):
                tags = [self.cell_tag(st, a) for a in args[:2]]
                eq = m.endswith("==")
                def val(same): return TRUE if same == eq else FALSE
                if "hit" in tags: return [(st.copy(), val(False), "ret")]
                if "miss" in tags: return [(st.copy(), val(True), "ret")]
                if "end" in tags and ("pos" in tags or None in tags):
                    more, stop = st.copy(), st.copy()
                    self.close(more, fn, inst); self.close(stop, fn, inst)
                    x = more.prop; more.prop = ("open", False, frozenset(), x[3], x[4], x[5])
                    x = stop.prop; stop.prop = ("none", True, frozenset(), x[3], x[4], x[5])
                    self.n["entries"] += 1
                    return [(more, val(False), "ret"), (stop, val(True), "ret")]
                return [(st.copy(), None, "ret")]
            if m in ("operator->", "operator*"):
                t = self.cell_tag(st, args[0])
                ns = st.copy()
                if t == "hit":
                    ns.mem[(("slot",), ("v", "second"))] = ("p", ("opt",), ())
                    return [(ns, ("p", ("slot",), ("v",)), "ret")]
                return [(ns, ("p", ("kv",), ()), "ret")]
            if m == "operator++": return [(st.copy(), args[0] if args and len(args) == 1 else None, "ret")]
            return None
        return None

def check_process(res):
    p = load()
    fns = [f for f in p.fns.values() if f.q == "dsGetArgs::GetArgs::processOptions" or (f.q.endswith("GetArgs::processOptions"))]
    for fn in fns:
        c = Options(p, res, fn)
        ip = Interp(p, c)
        env = {(0, "a0"): ("p", ("arg", 0), ()), (0, "a1"): ("p", ("arg", 1), ()), (0, "a2"): ("p", ("arg", 2), ())}
        mem = {(("arg", 0), ("options",)): ("p", ("opts",), ()), (("arg", 2), (STR,)): ("s", "")}
        for st, rv, kind, tr in ip.run(fn, State(env, mem, ("none", False, frozenset(), frozenset(), None, ()))):
            if kind != "ret": continue
            res.count("paths_to_exit")
            # the conversion that failed matters when it is the one the option calls for
            e, done, conv, off, row, loops = st.prop
            c.endrow(st, fn, None) if row else None
            e, done, conv, off, row, loops = st.prop
            t = commands.src_trace(fn, tr)
            rejected = rv == TRUE
            if not rejected:
                for x in sorted(off):
                    what = {"unknown": "an unknown option", "missing": "a missing required option", "callback": "an option its check function refuses"}.get(x)
                    if x.startswith("failed"):
                        what = f"a value that cannot be converted to {TYPE_NAME[int(x[6:])]}"
                    res.add(f"accepts:{x}", f"{fn.q}: accepts {what}", fn.where(), t)
                if not done: res.add("incomplete", f"{fn.q}: accepts the options before having looked at all of them", fn.where(), t)
                if not any(comp and rt for k, (rt, fo, comp) in loops): res.add("required", f"{fn.q}: accepts the options without having looked for every required one", fn.where(), t)
                if not any(comp and fo for k, (rt, fo, comp) in loops): res.add("unchecked", f"{fn.q}: accepts the options without having called every check function", fn.where(), t)
            else:
                if ip.getstr(st, ("p", ("arg", 2), ())) == ("s", ""): res.add("silent", f"{fn.q}: rejects the options without a message", fn.where(), t)
                if not off: res.add("rejects-valid", f"{fn.q}: rejects options that are valid", fn.where(), t)
        res.count("option_processors"); res.count("conversions", len(c.n["conversions"])); res.count("row_loops", len(c.n["rows"])); res.count("check_call_sites", len(c.n["callbacks"])); res.count("lookups", len(c.n["lookups"]))
    res.need("option_processors", 1); res.need("conversions", 4); res.need("row_loops", 1); res.need("check_call_sites", 1)

class Check(Client):
    """prop: set of (what was looked up, result)"""
    LOOK = {"GlobalData::GetDevice": "device", "Device::GetRegion": "region", "Device::GetContact": "contact", "Device::GetInterface": "interface", "dsMesh::MeshKeeper::GetMesh": "mesh"}
    def __init__(self, p):
        self.interesting = set(self.LOOK)
        self.p = p
    def inline_args(self, ip, st, fn, inst, g, args):
        return True if g.q.startswith(("dsValidate::", "dsCommand::")) else None
    def call(self, ip, st, fn, inst, qs, args):
        if len(qs) != 1: return None
        q = next(iter(qs))
        def add(*x):
            ns = st.copy(); ns.prop = frozenset(set(ns.prop) | {x}); return ns
        known = dict(st.prop)
        if q in self.LOOK:
            w = self.LOOK[q]
            if w in known: return [(st.copy(), ("nn",) if known[w] else FALSE, "ret")]
            return [(add(w, True), ("nn",), "ret"), (add(w, False), FALSE, "ret")]
        if q.endswith("Mesh::IsFinalized"):
            return [(add("finalized", True), TRUE, "ret"), (add("finalized", False), FALSE, "ret")]
        if q == "CommandHandler::GetStringOption":
            r = []
            for empty in (True, False):
                ns = add("empty", empty)
                if args[0] and args[0][0] == "p": ip.setstr(ns, args[0], ("s", "") if empty else ("nonempty",))
                r.append((ns, None, "ret"))
            return r
        return None

CHECKS = {"mustBeValidDevice": [("device", True)], "mustNotBeValidDevice": [("device", False)], "mustBeValidRegion": [("region", True)], "mustBeValidContact": [("contact", True)],
          "mustBeValidInterface": [("interface", True)], "meshMustExist": [("mesh", True)], "meshCannotExist": [("mesh", False)],
          "meshMustNotBeFinalized": [("mesh", True), ("finalized", False)], "meshMustBeFinalized": [("mesh", True), ("finalized", True)], "stringCannotBeEmpty": [("empty", False)]}

def check_checks(res):
    p = load()
    fns = {r[4] for rows in commands.option_tables(p).values() for r in rows if r[4]}
    for n in sorted(fns):
        fn = p.resolve(n)
        if fn is None: continue
        res.count("check_functions")
        c = Check(p)
        ip = Interp(p, c)
        env = {(0, "a%d" % k): ("p", ("arg", k), ()) for k in range(3)}
        short = fn.q.rsplit("::", 1)[-1]
        for st, rv, kind, tr in ip.run(fn, State(env, {(("arg", 1), (STR,)): ("s", "")}, frozenset())):
            if kind != "ret": continue
            res.count("check_paths")
            t = commands.src_trace(fn, tr)
            msg = ip.getstr(st, ("p", ("arg", 1), ()))
            if rv != TRUE and msg == ("s", ""): res.add(f"check-silent:{short}", f"{fn.q}: refuses an option without a message", fn.where(), t)
            if rv != FALSE:
                for w, v in CHECKS.get(short, ()):
                    if (w, v) not in st.prop or (w, not v) in st.prop:
                        res.add(f"check-wrong:{short}", f"{fn.q}: accepts an option although {'no ' + w + ' was found' if v and w != 'finalized' else 'the mesh is not finalized' if w == 'finalized' and v else 'the mesh is finalized' if w == 'finalized' else 'the string is empty' if w == 'empty' else w + ' exists'}", fn.where(), t)
                if msg != ("s", ""): res.add(f"check-dropped:{short}", f"{fn.q}: accepts an option after having reported an error", fn.where(), t)
    res.need("check_functions", 8)

def check_defaults(res):
    p = load()
    for g, rows in commands.option_tables(p).items():
        for nm, dflt, ty, req, fn in rows:
            if req: continue
            res.count("defaults")
            d = dflt or ""
            if ty == "BOOLEAN" and d != "": res.add(f"default:{g}:{nm}", f"option {nm}: the default \"{d}\" of a BOOLEAN option counts as true whatever it says", g)
            if ty == "INTEGER" and not re.fullmatch(r"\s*[-+]?\d+\s*", d): res.add(f"default:{g}:{nm}", f"option {nm}: the default \"{d}\" is not an INTEGER", g)
            if ty == "FLOAT":
                try: float(d)
                except ValueError:
                    if d not in ("MAXDOUBLE", "-MAXDOUBLE"): res.add(f"default:{g}:{nm}", f"option {nm}: the default \"{d}\" is not a FLOAT", g)

def check_conversions(res):
    p, out = simulate()
    for fn, c, r, results, ip in out:
        if not fn.q.startswith("ObjectHolder::Get"): continue
        res.count("conversion_functions")
        for f, inst, how in c.badpair:
            res.add(f"ok:{fn.q}", f"{fn.q}: reports success {'after the conversion failed' if how == 'fail' else 'without a successful conversion'}", f.where(inst))
    res.need("conversion_functions", 5)

def check_options(res):
    res.explain = ("typestate simulation of option processing: every keyword argument, option table row and check function on all paths; the check functions against what they promise; "
                   "the conversions of ObjectHolder on all outcomes of the Python API; the defaults in all option tables")
    res.assumptions = ["the keys of the dictionary are unique", "a value of any type is acceptable as a string (converted with str)"]
    check_process(res); check_checks(res); check_defaults(res); check_conversions(res)
