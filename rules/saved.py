"""What is written about an object recreates it: commands are interpreted up to the objects they make, the objects' constructors
up to the members they fill, and Serialize / GetCommandOptions_Impl up to what they write; the command that is written is then
carried out again on what was written, and has to make the same object."""
import re
from loads import *
from commands import option_tables
from esp import Budget

UNKNOWN = "‹?›"
OWNERS = {f"{c}::GetName": f"‹{c.lower()}›" for c in ("Device", "Region", "Contact", "Interface")}
STREAM, OPTIONS = ("p", ("stream",), ()), ("p", ("options",), ())

class Tables(Client):
    """constant tables of strings (and of structures with a string and a number)"""
    def step(self, v): return v[1] if v and v[0] == "c" and isinstance(v[1], int) else None
    def index(self, ip, st, fn, inst, v):
        k = self.step(v)
        return f"[{k}]" if k is not None else super().index(ip, st, fn, inst, v)
    def table(self, inst, ptr):
        if not ptr or ptr[0] != "p" or ptr[1][0] != "g" or ptr[1][1] not in self.p.globals: return None
        init = self.p.globals[ptr[1][1]].get("init")
        if not isinstance(init, list): return None
        k = 0
        for x in ptr[2]:
            m = re.fullmatch(r"\[(-?\d+)\]", str(x))
            if m: k += int(m.group(1))
            elif x == "[]": return None
        if not 0 <= k < len(init): return None
        e = init[k]
        if isinstance(e, list):
            want = ("s", "n") if inst[4] == "ptr" else ("c",)
            es = [x for x in e if isinstance(x, dict) and any(w in x for w in want)]
            if len(es) != 1: return None
            e = es[0]
        if "s" in e: return ("s", e["s"])
        if "n" in e: return ("c", 0)
        if "c" in e: return ("c", e["c"])
        return None
    def load(self, ip, st, fn, inst, ptr):
        v = self.table(inst, ptr)
        return v if v is not None else super().load(ip, st, fn, inst, ptr)

class Maker(Tables, Command):
    """a command, up to the objects it makes"""
    max_depth, max_states = 9, 20000
    def __init__(self, p, makers, way, command):
        super().__init__(p, makers)
        self.way, self.command = way, command
    def call(self, ip, st, fn, inst, qs, args):
        syms = self.p.callees(inst)
        if len(syms) == 1:
            q = self.p.q(syms[0])
            if q == "CommandHandler::GetCommandName":
                sret = args[inst[8]] if inst[8] >= 0 and len(args) > inst[8] else None
                s = st.copy()
                ptr = sret or ("p", ("option", "$command"), ())
                s.mem[(ptr[1], ptr[2] + ("$str",))] = ("s", self.command)
                return [(s, None if sret else ptr, "ret")]
            g = self.p.resolve(syms[0])
            if g is not None and g.n not in self.makers and (g.n in self.way or self.converts(st, g, args)): return None
            if g is not None and g.file.startswith("/repo/src") and g.n not in self.makers:
                # what a function is given the address of is filled in
                out = super().call(ip, st, fn, inst, qs, args)
                for s, v, k in out or ():
                    for a in args:
                        if a and a[0] == "p" and a[1][0] == "al" and s.mem.get((a[1], a[2])) == ("c", 0): del s.mem[(a[1], a[2])]
                return out
        return super().call(ip, st, fn, inst, qs, args)
    def converts(self, st, g, args):
        """a function from the value of an option to a number"""
        return g.file.startswith("/repo/src") and g.rty in ("i32", "i8", "i1", "i64") and bool(args) and (self.text(st, args[0]) or "").startswith("«")
    def inline_args(self, ip, st, fn, inst, callee, args): return callee.file == fn.file or callee.n in self.way or self.converts(st, callee, args)

class Writer(Tables, Fields):
    """what is written to a stream, or into a map of options"""
    def inline_args(self, ip, st, fn, inst, callee, args):
        return callee.file.startswith("/repo/src") and callee.n not in evaluating(self.p)
    def call(self, ip, st, fn, inst, qs, args):
        syms = self.p.callees(inst)
        if len(syms) == 1:
            q = self.p.q(syms[0])
            sret = args[inst[8]] if inst[8] >= 0 and len(args) > inst[8] else None
            rest = [a for j, a in enumerate(args) if j != inst[8]]
            def wrote(x, v):
                s = st.copy()
                t = s.prop[1] + (x,)
                if isinstance(x, str) and not ("".join(t).startswith("COMMAND") or "COMMAND".startswith("".join(t))): return [(s, None, "noreturn")]   # data, not a command
                s.prop = s.prop[:1] + (t,) + s.prop[2:]
                return [(s, v, "ret")]
            if (q == "std::operator<<" or q.endswith("ostream::operator<<")) and len(args) >= 2 and args[0] == STREAM:
                return wrote(self.text(st, args[1]), STREAM)
            if q == "std::map::operator[]" and len(args) == 2 and args[0] == OPTIONS:
                return [(st.copy(), ("p", ("option", self.text(st, args[1])), ()), "ret")]
            if q in ("std::map::insert", "std::map::emplace", "std::map::insert_or_assign", "std::map::try_emplace") and args and args[0] == OPTIONS:
                raise Broken(f"{fn.where(inst)}: options are not assigned one by one")
            if q == "ObjectHolder::ObjectHolder" and len(rest) == 2:
                s = st.copy()
                if "ObjectHolder const&" in self.p.dem.get(syms[0], "") or "ObjectHolder&&" in self.p.dem.get(syms[0], ""):
                    v = st.mem.get((rest[1][1], rest[1][2] + ("$held",))) if rest[1] and rest[1][0] == "p" else None
                else: v = ("s", self.text(st, rest[1]))
                if rest[0] and rest[0][0] == "p" and v: s.mem[(rest[0][1], rest[0][2] + ("$held",))] = v
                return [(s, None, "ret")]
            if q == "ObjectHolder::operator=" and len(rest) == 2:
                v = st.mem.get((rest[1][1], rest[1][2] + ("$held",))) if rest[1] and rest[1][0] == "p" else None
                if rest[0] and rest[0][0] == "p" and rest[0][1][0] == "option": return wrote((rest[0][1][1], v[1] if v else UNKNOWN), rest[0])
                s = st.copy()
                if rest[0] and rest[0][0] == "p" and v: s.mem[(rest[0][1], rest[0][2] + ("$held",))] = v
                return [(s, rest[0], "ret")]
            if q in OWNERS or q == "EngineAPI::getStringValue":
                s, ptr = st.copy(), sret or ("p", ("owner", q), ())
                s.mem[(ptr[1], ptr[2] + ("$str",))] = ("s", OWNERS.get(q, "‹equation›"))
                return [(s, None if sret else ptr, "ret")]
            if q == "ObjectHolder::~ObjectHolder": return [(st.copy(), None, "ret")]
        return super().call(ip, st, fn, inst, qs, args)
    def text(self, st, a):
        if a and a[0] == "s": return a[1]
        if a and a[0] == "p":
            v = st.mem.get((a[1], a[2] + ("$str",)))
            if v and v[0] == "s": return v[1]
        return UNKNOWN

def evaluating(p, memo={}):
    """functions that may go on to evaluate a model"""
    if id(p) not in memo:
        start = {f.n for f in p.fns.values() if last(f.q) in ("CalculateValues", "GetScalarValues", "IsUniform", "GetUniformValue") and f.file.startswith("/repo/src")}
        memo[id(p)] = start | on_the_way(calls_from(p, ()), start)
    return memo[id(p)]

def serializers(p):
    """{class: the function that writes it}"""
    return {f.d.split("::Serialize(")[0]: f for f in p.fns.values() if last(f.q) == "Serialize" and f.file.startswith("/repo/src") and len(f.args) == 2}
def describers(p):
    """{class: the function that tells its options}"""
    return {f.d.split("::GetCommandOptions_Impl(")[0]: f for f in p.fns.values() if last(f.q) == "GetCommandOptions_Impl" and f.file.startswith("/repo/src") and len(f.args) == 2}

def calls_from(p, classes):
    callers = {}
    for f in p.fns.values():
        if not f.file.startswith("/repo/src") or f.q.rsplit("::", 1)[0] in classes: continue
        for _, _, i in f.calls():
            for s in p.callees(i):
                g = p.resolve(s)
                if g: callers.setdefault(g.n, set()).add(f.n)
    return callers
def on_the_way(callers, makers):
    seen, todo = set(), list(makers)
    while todo:
        n = todo.pop()
        for c in callers.get(n, ()):
            if c not in seen: seen.add(c); todo.append(c)
    return seen

WRITTEN = re.compile(r'COMMAND (\w+)((?: +-\w+ "[^"]*")*) *;?\s*')
def parse(text):
    """(command, {option: value}) of what is written, or None if it is not a command, or an explanation"""
    if not text.startswith("COMMAND"): return None
    m = WRITTEN.fullmatch(text)
    if not m and "‹" in re.sub('"[^"]*"', "", text): return None          # not known well enough
    if not m: return f"what is written cannot be read back: {text}"
    options = re.findall(r'-(\w+) "([^"]*)"', m.group(2))
    twice = {o for o, v in options if [x for x, _ in options].count(o) > 1}
    if twice: return f"-{sorted(twice)[0]} is written twice"
    return m.group(1), dict(options)

def fits(facts, known, value):
    """whether the choices of a command can be those it makes for the values that are written"""
    for (o, lit), t in facts:
        w = value(o.strip("«»"))
        if w is None or "‹" in w: continue
        if w.startswith("«"):
            k = known.get((w, lit))
            if k is None and any(kk[0] == w and v for kk, v in known.items()): k = False
            if k is not None and k != t: return False
        elif (w == lit) != t: return False
    return True

class Commands:
    """the objects that commands make"""
    def __init__(self, p, classes):
        self.p = p
        self.makers = {f.n: f for f in p.fns.values() if f.q.rsplit("::", 1)[0] in classes and f.q.rsplit("::", 1)[-1] == f.q.rsplit("::", 2)[-2] and len(f.args) >= 2}
        self.callers = calls_from(p, classes)
        self.way = on_the_way(self.callers, self.makers)
        self.table = command_table(p)
        self.tables = option_tables(p)
        self.memo, self.opts, self.not_followed = {}, {}, set()
    def made(self, name):
        if name not in self.memo:
            g = self.p.fns[self.table[name][0]]
            c = Maker(self.p, set(self.makers), self.way, name)
            try: Interp(self.p, c).run(g, State({(0, "a%d" % j): ("p", ("par", j), ()) for j in range(len(g.args))}, {}, frozenset()))
            except Budget: c.made, self.not_followed = [], self.not_followed | {name}
            out = []
            for s, a, k in c.made:
                if "float128" in self.makers[s].d.split("(")[0]: continue
                if (s, a, k) not in out: out.append((s, a, k))
            self.memo[name] = out
        return self.memo[name]
    def options(self, name):
        """the options a command declares: {name: (default, required)}"""
        if name not in self.opts:
            out = {}
            seen, todo = set(), [self.table[name][0]]
            while todo:
                n = todo.pop()
                if n in seen or n not in self.p.fns: continue
                seen.add(n)
                f = self.p.fns[n]
                for g in globals_of(f):
                    for o, dflt, ty, req, _ in self.tables.get(g, ()): out[o] = (dflt, req)
            self.opts[name] = out
        return self.opts[name]

def globals_of(f):
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if "g" in x: out.add(x["g"])
            for v in x.values(): walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x: walk(v)
    for b in f.blocks:
        for i in b: walk(i[3:])
    return out

def fill(p, ctor, args):
    """the object a constructor makes of arguments: its memory, by path"""
    mem, env = {}, {(0, "a0"): THIS}
    for j, a in enumerate(args):
        if j == 0: continue
        if a and a[0] == "s":
            mem[(("arg", j), ("$str",))] = a
            a = ("p", ("arg", j), ())
        elif ctor.aty[j] == "ptr" and a != ("c", 0): a = ("p", ("given", j), ())
        elif a and a[0] not in ("c", "p"): a = ("sym", "given", j, 0)
        if a is not None: env[(0, "a%d" % j)] = a
    return [s for s, rv, k, tr in Interp(p, Writer(p)).run(ctor, State(env, mem, START)) if k == "ret"]

def same_args(p, ctor, a, known, b, value):
    """what differs between the arguments an object was made with and those it would be made with from what is written"""
    sub = lambda t: re.sub("«(\\w+)»", lambda m: value(m.group(1)) if value(m.group(1)) is not None else UNKNOWN, t)
    plain = lambda t: re.sub("«\\w+»", lambda m: next((l for (o, l), x in known.items() if o == m.group(0) and x), m.group(0)), t)
    for j, (x, y) in enumerate(zip(a, b)):
        if j == 0: continue
        if x and y and x[0] == "s" and y[0] == "s":
            tx, ty = plain(x[1]), plain(sub(y[1]))
            if "‹" in ty: continue
            if tx != ty: return f"{shown_text(tx)} becomes {shown_text(ty)}"
        elif x and y and (x[0] == "c" or y[0] == "c") and x != y:
            if x[0] == "c" and y[0] == "c": return "a setting becomes another one"
            return "what it belongs to, or a setting, becomes another"
    return None
def shown_text(t): return re.sub("«(\\w+)»", r"the value of -\1", t) or "no value"

def double(d): return "float128" not in d.split("(")[0]
def facts_of(s):
    return frozenset(s.prop[0])

def round_trip(r, C, key, what, where, cls, made, text):
    """what is written for an object, carried out again"""
    name, sym, args, facts = made
    known = dict(facts)
    if isinstance(text, tuple):
        command, options = text
        if not options or any("‹" in o for o in options): r.count("not_decided"); return
    else:
        got = parse(text)
        if got is None: return
        if isinstance(got, str): r.add(f"{key}:form", f"{what}: {got}", where); return
        command, options = got
    r.count("descriptions_carried_out")
    how = f"made by {name}" + shown_facts(facts)
    if command not in C.table: r.add(f"{key}:command", f"{what} {how}: it is recreated by {command}, which is not a command", where); return
    declared = C.options(command)
    for o in options:
        if o not in declared: r.add(f"{key}:{o}", f"{what} {how}: -{o} is not an option of {command}", where); return
    for o, (d, req) in declared.items():
        if req and o not in options: r.add(f"{key}:{o}", f"{what} {how}: -{o}, which {command} requires, is not there", where); return
    for o, v in options.items():
        want = f"‹{o}›"
        if o in OWN and "‹" in v and v.rstrip(";") not in (want, UNKNOWN):
            r.add(f"{key}:{o}", f"{what} {how}: -{o} is {v.strip('‹›')} of what it belongs to", where)
    def value(o):
        if o in options: v = options[o]
        elif o in declared: v = declared[o][0] or ""
        else: return None
        if (v, "") in known and known[(v, "")]: return ""
        for (k, lit), t in known.items():
            if k == v and t: return lit
        return v
    again = C.made(command) if C.table[command][0] in C.way else []
    can = [(s2, a2, k2) for s2, a2, k2 in again if fits(k2, known, value)]
    same = [m for m in can if m[0] == sym]
    if not same:
        kinds = sorted({last(C.makers[s].q) for s, _, _ in can})
        r.add(f"{key}:kind", f"{what} {how}: {command} with these options makes {' or '.join(kinds) or 'nothing'}, not {last(C.makers[sym].q)}", where); return
    diffs = [same_args(C.p, C.makers[sym], args, known, a2, value) for s2, a2, k2 in same]
    if None not in diffs:
        r.add(f"{key}:value", f"{what} {how}: carried out again, {diffs[0]}", where)

OWN = ("device", "region", "contact", "interface", "equation")
def shown_facts(facts):
    xs = []
    for (o, lit), t in sorted(facts):
        o = "-" + o.strip("«»")
        if lit == "": xs.append(o + (" not given" if t else " given"))
        elif t: xs.append(f"{o} {lit}")
    return (" with " + ", ".join(xs)) if xs else ""

def check_saved(r):
    p = load()
    ser, desc = serializers(p), describers(p)
    classes = {f.q.rsplit("::", 1)[0] for f in list(ser.values()) + list(desc.values())}
    C = Commands(p, classes)
    made = {}
    for name in sorted(C.table):
        if C.table[name][0] not in C.way: continue
        for s, a, k in C.made(name): made.setdefault(C.makers[s].d.split("(")[0].rsplit("::", 1)[0], []).append((name, s, a, k))
    r.count("commands_that_make_objects", len([n for n in C.memo if C.memo[n]]))
    r.count("commands_not_followed", len(C.not_followed))
    for kind, table, what in (("Serialize", ser, "what is saved"), ("GetCommandOptions_Impl", desc, "what is told")):
        start = {(0, "a0"): THIS, (0, "a1"): STREAM if kind == "Serialize" else OPTIONS}
        for cls, f in sorted(table.items()):
            if not double(cls): continue
            short = last(cls.split("<")[0])
            r.count("classes_saved" if kind == "Serialize" else "classes_told")
            def written(o):
                """what is written of an object, with what is known of it"""
                out = []
                for s, rv, k, tr in Interp(p, Writer(p)).run(f, State(dict(start), dict(o.mem), (o.prop[0], (), (), ()))):
                    if k == "ret": out.append("".join(s.prop[1]) if kind == "Serialize" else dict(s.prop[1]))
                return out
            decided = False
            for m in made.get(cls, ()):
                try: objects = fill(p, C.makers[m[1]], m[2])
                except (Budget, Broken): r.count("not_decided"); continue
                for o in objects:
                    try: texts = written(o)
                    except (Budget, Broken): r.count("not_decided"); continue
                    decided = True
                    for t in texts:
                        round_trip(r, C, f"{short}:{m[0]}:{kind}", f"{what} of a {short}", f.where(), cls, m, t if kind == "Serialize" else (m[0], t))
            if not decided and kind == "Serialize":
                # not made by a command that is followed: the command has to exist and get what it requires
                try: texts = written(State({}, {}, START))
                except (Budget, Broken): r.count("not_decided"); continue
                for t in texts:
                    got = parse(t)
                    if got is None: continue
                    r.count("descriptions_read")
                    if isinstance(got, str): r.add(f"{short}:form", f"what is saved of a {short}: {got}", f.where()); continue
                    command, options = got
                    if command not in C.table: r.add(f"{short}:command", f"what is saved of a {short}: it is recreated by {command}, which is not a command", f.where()); continue
                    declared = C.options(command)
                    for x in sorted(set(options) - set(declared)): r.add(f"{short}:{x}", f"what is saved of a {short}: -{x} is not an option of {command}", f.where())
                    for x in sorted(x for x, (d, req) in declared.items() if req and x not in options): r.add(f"{short}:{x}", f"what is saved of a {short}: -{x}, which {command} requires, is not there", f.where())
    # everything that can be saved is reached when devices are written
    seen = set()
    todo = [f.n for f in p.fns.values() if f.file.startswith("/repo/src/meshing/") and "RestartWriter" in f.q]
    if not todo: todo = [C.table["write_devices"][0]] if "write_devices" in C.table else []
    seen |= set(todo)
    for n in todo:
        for _, _, i in p.fns[n].calls():
            for x in p.callees(i):
                g = p.resolve(x)
                if g and g.n not in seen and g.file.startswith("/repo/src"): seen.add(g.n); todo.append(g.n)
    for cls, f in sorted(ser.items()):
        if f.n in seen: r.count("classes_reached")
        else: r.add(f"{last(cls.split('<')[0])}:unreached", f"{f.d.split('(')[0]} is not reached when devices are saved", f.where())
    r.need("descriptions_carried_out", 20)
    r.need("classes_reached", 20)
    r.explain = "Each command that makes models or equations is interpreted, with every string option standing for itself, up to the constructors it calls; each constructor up to the members; and Serialize and GetCommandOptions_Impl up to the text or options they write. The command so described is then carried out again on the options as written: it must exist, declare all of them, be given all it requires, and call the same constructor with the same arguments under the same facts about the options."
    r.assumptions = ["the text is read back by the grammar of saved devices as it is written: names hold no quotation marks", "the expression of a model is read back as its text", "the name and the kind of the object a solution belongs to are written by the caller of Serialize"]
