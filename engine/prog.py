"""The program as the rules see it: functions in SSA form, call graph, paths."""
import json, re, sys, os
from collections import defaultdict, deque

def strip_templates(s):
    """'A<x>::f<y>(int)' -> 'A::f'; operators are kept."""
    s = s.strip()
    if s.startswith("vtable for"):
        return s
    s = s.replace("[abi:cxx11]", "").replace("(anonymous namespace)", "{anon}").replace("operator()", "operator{}").replace("'lambda", "{lambda")
    s = re.sub(r"operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)", lambda m: "operator" + m.group(1).replace("<", "\x01").replace(">", "\x02"), s)
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            if c == "(":
                inner = len(s)
                depth = 0
                for j in range(i, len(s)):
                    depth += (s[j] == "(") - (s[j] == ")")
                    if depth == 0: inner = j + 1; break
                if re.match(r"( const)?( &&?)?::(\{lambda|\$_)", s[inner:]): out.append("::{lambda}")
                # a class inside a function
                m = re.match(r"( const)?( &&?)?(?=::[~\w])", s[inner:])
                if m:
                    i = inner + m.end()
                    continue
                break
            if c == "{" :
                j = s.find("}", i)
                if s.startswith("{lambda", i):
                    j2 = s.find("#", i)
                    j3 = j2 + 1
                    while j2 >= 0 and j3 < len(s) and s[j3].isdigit(): j3 += 1
                    out.append("{lambda}")
                    i = (j3 + 1) if j2 >= 0 else len(s)
                    continue
                if j >= 0:
                    out.append(s[i:j + 1]); i = j + 1
                    continue
            out.append(c)
        i += 1
    r = "".join(out).replace("\x01", "<").replace("\x02", ">").strip()
    # drop a return type ("void f<..>" of template functions)
    m = re.search(r"operator[^:]*$", r)
    head, tail = (r[:m.start()], r[m.start():]) if m else (r, "")
    if " " in head:
        head = head.split(" ")[-1]
    return head + tail

class Fn:
    __slots__ = ("n", "d", "q", "file", "line", "local", "args", "aty", "rty", "names", "blocks", "_def", "_succ", "_pred", "prog", "_rpo", "_dom", "_uses", "_users")
    def __init__(self, o, prog):
        self.n, self.d, self.file, self.line, self.local = o["n"], o["d"], o["file"], o["line"], o["local"]
        self.args, self.aty, self.rty, self.blocks = o["args"], o["aty"], o["rty"], o["blocks"]
        self.names = {int(k): v for k, v in o["names"].items()}
        self.q = strip_templates(o["d"])
        self.prog = prog
        self._def = self._succ = self._pred = self._rpo = self._dom = self._uses = self._users = None
    def __repr__(self):
        return f"<{self.d}>"
    @property
    def defs(self):
        if self._def is None:
            self._def = {}
            for b, insts in enumerate(self.blocks):
                for k, i in enumerate(insts):
                    if i[1] is not None and i[1] >= 0:
                        self._def[i[1]] = (b, k, i)
        return self._def
    def inst(self, v):
        """the instruction that defines an SSA operand (or None)"""
        if isinstance(v, int):
            d = self.defs.get(v)
            return d[2] if d else None
        return None
    def succs(self, b, unwind=False):
        """successor blocks; exceptional edges only on request"""
        t = self.blocks[b][-1]
        if t[0] == "br":
            return t[4]
        if t[0] == "switch":
            r = [t[4]]
            for c, s in t[5]:
                if s not in r: r.append(s)
            return r
        if t[0] == "call":
            if t[5] < 0: return []
            if t[9]:
                return [t[6]] if unwind else []
            return [t[5], t[6]] if unwind else [t[5]]
        return []
    def exits(self):
        return [(b, self.blocks[b][-1]) for b in range(len(self.blocks)) if self.blocks[b][-1][0] == "ret"]
    def calls(self):
        for b, insts in enumerate(self.blocks):
            for k, i in enumerate(insts):
                if i[0] == "call":
                    yield b, k, i
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            def visit(o, it):
                if isinstance(o, int) and not isinstance(o, bool): u[o].append(it)
                elif isinstance(o, dict):
                    if "ge" in o: visit(o["ge"], it)
            for b, insts in enumerate(self.blocks):
                for k, i in enumerate(insts):
                    for o in operands(i):
                        visit(o, (b, k, i))
            self._users = u
        return self._users
    def where(self, i=None):
        f = self.file
        return f"{f}:{i[2] if i is not None and i[2] else self.line}"

def operands(i):
    op = i[0]
    if op == "call":
        r = list(i[4])
        if "i" in i[3]: r.append(i[3]["i"])
        return r
    if op == "load": return [i[3]]
    if op == "store": return [i[3], i[4]]
    if op == "gep": return [i[3]] + list(i[6])
    if op == "phi": return [x[0] for x in i[3]]
    if op in ("icmp", "fcmp", "bin"): return [i[4], i[5]]
    if op in ("un", "cast"): return [i[4]]
    if op == "select": return [i[3], i[4], i[5]]
    if op == "br": return [i[3]] if i[3] is not None else []
    if op == "switch": return [i[3]]
    if op == "ret": return [i[3]] if i[3] is not None else []
    if op == "extract": return [i[3]]
    if op == "insert": return [i[3], i[4]]
    if op == "op": return [x for x in i[4]]
    return []

class Program:
    def __init__(self, path):
        self.fns, self.globals, self.dem = {}, {}, {}
        self.byq = defaultdict(list)
        vt = self._vt = defaultdict(list)
        self._vc = {}
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                if "n" in o:
                    fn = Fn(o, self)
                    self.fns[fn.n] = fn
                    self.byq[fn.q].append(fn)
                elif "g" in o:
                    self.globals[o["g"]] = o
                elif "vtable" in o:
                    for t, off in o["types"]: vt[t].append((off, o["slots"]))
                elif "demangled" in o:
                    self.dem = o["demangled"]
        self._q = {}
        # C1/C2 constructor and destructor variants share a body
        self._callers = None
    def q(self, name):
        """qualified name without templates and parameters of a symbol"""
        r = self._q.get(name)
        if r is None:
            r = self._q[name] = strip_templates(self.dem.get(name, name))
        return r
    def find(self, q):
        return self.byq.get(q, [])
    def callees(self, inst):
        """symbols a call may reach (resolved directly or through the class hierarchy)"""
        c = inst[3]
        if "f" in c: return [c["f"]]
        if "v" in c:
            key = (c["v"], c["o"])
            r = self._vc.get(key)
            if r is None:
                r = self._vc[key] = sorted({sl[str(off + c["o"])] for off, sl in self._vt.get(c["v"], ()) if str(off + c["o"]) in sl})
            return r
        return []
    def callee_qs(self, inst):
        return {self.q(s) for s in self.callees(inst)}
    def resolve(self, sym):
        f = self.fns.get(sym)
        if f: return f
        # complete/base object constructors: C1 <-> C2, D1 <-> D2
        for a, b in (("C1E", "C2E"), ("C2E", "C1E"), ("D1E", "D2E"), ("D2E", "D1E"), ("D0E", "D1E")):
            if a in sym:
                g = self.fns.get(sym.replace(a, b, 1))
                if g: return g
        return None
    def callers(self):
        if self._callers is None:
            m = defaultdict(list)
            for f in self.fns.values():
                for b, k, i in f.calls():
                    for s in self.callees(i):
                        m[s].append((f, b, k, i))
            self._callers = m
        return self._callers
    def addr_taken(self, fn):
        """functions whose address a function mentions (callbacks, lambdas)"""
        r = set()
        for b, insts in enumerate(fn.blocks):
            for i in insts:
                for o in operands(i):
                    if isinstance(o, dict) and "f" in o: r.add(o["f"])
        return r

_p = None
def load():
    global _p
    if _p is None:
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        import build_ir
        _p = Program(build_ir.build() + "/facts.jsonl")
    return _p

def show(fn, out=sys.stdout):
    p = fn.prog
    print(fn.d, fn.where(), fn.args, fn.aty, file=out)
    for b, insts in enumerate(fn.blocks):
        print(f" B{b}:", file=out)
        for i in insts:
            nm = fn.names.get(i[1], "") if i[1] is not None else ""
            if i[0] == "call":
                c = i[3]
                cs = p.dem.get(c["f"], c["f"]) if "f" in c else (f"virtual {c['v']}+{c['o']} {[p.q(x) for x in p.callees(i)]}" if "v" in c else f"indirect {c['i']}")
                print(f"   L{i[2]} %{i[1]}{'('+nm+')' if nm else ''} = call {cs} {json.dumps(i[4])} -> {i[5]} unw {i[6]}", file=out)
            else:
                print(f"   L{i[2]} {'%'+str(i[1])+('('+nm+')' if nm else '')+' = ' if i[1]>=0 else ''}{i[0]} {json.dumps(i[3:])}", file=out)

if __name__ == "__main__":
    p = load()
    for a in sys.argv[1:]:
        for f in p.fns.values():
            if f.q == a: show(f)
