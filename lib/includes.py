"""P22: sorting includes moves directives and loses none.

Each loop is followed for an arbitrary element (styles.Scan): includes are gathered one by one, each is put in the group of its
priority, each group is sorted and its members are taken out of the list of prefixes and put back one behind the other."""
import re
from collections import namedtuple

import ir
from absint import Client, Engine, State
from docs import cstr, offs
from ir import AnalysisError
from styles import Scan
from tokens import ret_ins

FILE = "cpp-include.c"
S = namedtuple("S", "first inb done phase grp tail inlist refs alt")
S0 = S(True, None, frozenset(), 0, None, "after", True, 0, frozenset())
MAX = 0x7fffffff


def mv(st, l):
    v = st.mem.get(l)
    return v[0] if v is not None else None


class Lay:
    def __init__(self, prog):
        self.prog = prog
        self.ci = offs(prog, "cpp_include", ["includes", "groups", "prefixes", "after", "st", "ignore", "regroup"], FILE)
        self.inc = offs(prog, "include", ["tk", "priority"], FILE)
        self.grp = offs(prog, "include_group", ["includes"], FILE)
        self.tk = offs(prog, "token", ["tk_type", "tk_flags", "tk_str", "tk_len"], FILE)
        self.pr = offs(prog, "include_priority", ["group", "sort"], FILE)
        self.prsort = self.inc["priority"] + self.pr["sort"]
        self.prgroup = self.inc["priority"] + self.pr["group"]
        self.main = self.named("is_main_include", ("strcmp",))
        self.path = self.named("findpath", ("memchr", "arena_strndup"))

    def named(self, name, calls):
        """the function of that name, or the only one that does what it does"""
        if self.prog.fn(name, FILE) is not None:
            return name
        c = [f.name for t in self.prog.tus if t.short == FILE for f in t.functions.values()
             if set(calls) <= {i.callee[1] for i in f.calls() if i.callee[0] == "g"}]
        return c[0] if len(c) == 1 else name


class Walk(Scan):
    """what the functions of cpp-include.c have in common"""
    roots = ("CI", "LX", "B1", "B2", "EL", "INC", "TK", "TAIL", "SYN", "MAP", "PFX", "GP", "GRP", "DST", "LASTSLOT", "LASTINC",
             "LASTTK", "OTHEREL", "POPPED", "POPTK", "NEW", "ARG", "PATH", "ST", "B3")
    rule = "order"
    where = FILE

    def __init__(self, L, res, prop):
        self.L, self.prog, self.res, self.prop = L, L.prog, res, prop

    def relevant(self, fn):
        return fn.tu.short == FILE

    def bad(self, ins, st, msg, rule=None):
        self.res.violate(self.prop, rule or self.rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (ins.fn.name, rule or self.rule))

    def advance(self, ins, st):
        keep = {k: v for k, v in st.facts.items() if k in (("s", "IGN"), ("s", "AFTER"), ("s", "RG"))}
        Scan.advance(self, ins, st)
        st.facts = keep

    def gep(self, eng, ins, base, idx, st):
        if self.isbase(base) and len(idx) == 1 and ins.ty != "i8" and idx[0][0] == "i" and idx[0][1] >= 0 and \
                not self.index(st, idx[0]) and not (idx[0][1] == 1 and st.auto.first):
            return ("s", "OTHEREL")
        return Scan.gep(self, eng, ins, base, idx, st)

    def own(self, name):
        return next((f for t in self.prog.tus if t.short == FILE for f in [t.functions.get(name)] if f is not None), None)

    def call(self, eng, ins, name, args, st, ctx):
        return self.calls(eng, ins, name, args, st)

    def length(self, name, args):
        if name == "vector_length" and self.isbase(args[0]):
            return [dict(ret=("s", "LEN"), havoc=False)]

    def cifield(self, o):
        for k, v in (("includes", "B1"), ("groups", "MAP"), ("prefixes", "PFX"), ("after", "AFTER"), ("ignore", "IGN"),
                     ("regroup", "RG"), ("st", "ST")):
            if o == self.L.ci[k]:
                return ("s", v)


# ---------------------------------------------------------------------- sorting
class Exec(Walk):
    def isbase(self, v):
        return v == ("s", "B2" if self.now == 1 else "B1")

    def gep(self, eng, ins, base, idx, st):
        self.now = st.auto.phase
        if base[0] == "s" and base[1] in ("B1", "B2") and len(idx) == 1 and idx[0] == ("s", "LASTIX"):
            return ("s", "LASTSLOT")
        if base == ("s", "GPV") and len(idx) == 1 and idx[0] == ("s", "NEWIX"):
            return ("s", "DST")
        if base == ("s", "B1") and st.auto.phase == 1 or base == ("s", "B2") and st.auto.phase == 0:
            if len(idx) == 1 and ins.ty != "i8":
                raise AnalysisError("%s: element not understood" % ins.where)
        return Walk.gep(self, eng, ins, base, idx, st)

    def cmp(self, eng, ins, pred, x, y, st):
        from patch import FLIP, SIGNED, Patch
        self.now = st.auto.phase
        ends = (("s", "LEN"), ("s", "STOP"))
        if x not in ends and y not in ends:
            return self.other(eng, ins, SIGNED.get(pred, pred), x, y, st)
        if st.auto.first and st.auto.inb is None and eng.decide(st, "ne", ("s", "LEN"), ("i", 0)) is True:
            z = (("i", 0), ("s", "B2" if self.now else "B1"), ("s", "EL"))
            if x in z and y in ends or y in z and x in ends:
                self.mark(st)
                return Patch.const(SIGNED.get(pred, pred), -1 if x in z else 1)
        return Scan.cmp(self, eng, ins, pred, x, y, st)

    def arith(self, eng, ins, op, x, y, st):
        self.now = st.auto.phase
        if op == "add" and y == ("i", 1) and ins.ty == "i32" and (x[0] == "i" or x == ("s", "CNT")):
            return ("s", "CNT")
        return Scan.arith(self, eng, ins, op, x, y, st)

    def isel(self, st, v):
        self.now = st.auto.phase
        return Scan.isel(self, st, v)

    def other(self, eng, ins, pred, x, y, st):
        if x == ("s", "LEN") and y[0] == "i" or y == ("s", "LEN") and x[0] == "i":
            return None
        if x in (("s", "IX"), ("s", "NEXT")) and y == ("i", 0) and not st.auto.first:
            from patch import Patch
            return Patch.const(pred, 1)
        return None

    def rename(self, st, m):
        f = lambda v: m.get(v[1], v) if v[0] == "s" and isinstance(v[1], str) else v
        st.env = {k: f(v) for k, v in st.env.items()}
        st.mem = {k: (f(v[0]),) + tuple(v[1:]) for k, v in st.mem.items()}

    def leave(self, ins, st):
        a = st.auto
        if a.phase == 0:
            n = sum(1 for k in a.done if k in ("kept", "twice"))
            if n == 0:
                self.bad(ins, st, "an include is put in no group: it stays behind", "kept")
        else:
            if not a.inlist:
                self.bad(ins, st, "an include is taken out and not put back", "lost")
            if "moved" not in a.done:
                self.bad(ins, st, "an include is not put where it belongs", "order")
            if a.refs != 0:
                self.bad(ins, st, "an include is kept by %s references than before" % ("more" if a.refs > 0 else "less"), "refs")
            old = ("s", "OLD")
            m = {"INC": old, "TK": ("s", "TAIL") if a.tail == "cur" else old}
            if a.tail == "cur":
                m.update(TAIL=old, AFTER=old, SYN=old)
            self.rename(st, m)
            st.auto = st.auto._replace(tail="tail" if a.tail == "cur" else a.tail, inlist=True, refs=0)
        st.mem = {k: v for k, v in st.mem.items() if k[0] not in (("S", "INC"), ("S", "TK"), ("S", "DST"))}

    def load(self, eng, ins, ptr, st, ctx):
        self.now = st.auto.phase
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if b == ("S", "CI"):
            return self.cifield(o) if (b, o) not in st.mem else None
        if b == ("S", "LASTSLOT") and o == 0:
            return ("s", "LASTINC")
        if b in (("S", "LASTINC"), ("S", "INC")) and o == self.L.inc["tk"]:
            return ("s", "LASTTK" if b[1] == "LASTINC" else "TK")
        if b == ("S", "GP") and o == self.L.grp["includes"]:
            return ("s", "GPV")
        if b == ("S", "GRP") and o == self.L.grp["includes"]:
            return ("s", "B2")
        if b == ("S", "TK"):
            return ("s", ("EF", "t%d" % o)) if (b, o) not in st.mem else None
        return Scan.load(self, eng, ins, ptr, st, ctx)

    def field(self, o, ty):
        if self.now == 1:
            return ("s", "INC") if o == 0 else None
        if o == self.L.inc["tk"]:
            return ("s", "TK")

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return
        b, o = l
        a = st.auto
        if b == ("S", "DST"):
            if o != 0 or val not in (("s", "EL"),) and not (val == ("s", "B1") and a.first):
                self.bad(ins, st, "an include other than the one at hand is put in the group", "kept")
            elif "kept" in a.done:
                self.bad(ins, st, "an include is put in two groups", "kept")
            self.note(st, "kept")
        elif b == ("S", "CI"):
            self.bad(ins, st, "the block is changed while being sorted", "block")
        elif b in (("S", "TK"), ("S", "LASTTK"), ("S", "INC")):
            if b == ("S", "TK") and o == self.L.tk["tk_len"] and val == ("b", "add", ("s", ("EF", "t%d" % o)), ("i", -1)) and \
                    "blank" in a.done and "cut" not in a.done:
                self.note(st, "cut")
            else:
                self.bad(ins, st, "the text of a directive is changed", "text")
        elif b in (("S", "EL"), ("S", "B1")) and a.phase == 0:
            if o not in (self.L.prgroup, self.L.prsort):
                self.bad(ins, st, "an include is changed", "text")

    def put(self, ins, st, tk, pos):
        a = st.auto
        if a.phase != 1 or eng_zero(self.eng, st, ("s", "IGN")) is not True:
            self.bad(ins, st, "includes are moved although the block is not to be sorted", "block")
        want = {"after": "AFTER", "cur": "TK", "tail": "TAIL", "syn": "SYN"}[a.tail]
        if pos is None:
            if a.tail != "after" or self.eng.decide(st, "eq", ("s", "AFTER"), ("i", 0)) is not True:
                self.bad(ins, st, "an include is put in front of what precedes the block", "order")
        else:
            if pos != ("s", want):
                self.bad(ins, st, "an include is not put behind the one preceding it", "order")
            elif want == "AFTER" and self.eng.decide(st, "ne", pos, ("i", 0)) is not True:
                self.bad(ins, st, "an include is put behind nothing", "order")
        if tk == ("s", "SYN"):
            if "line" not in a.done:
                raise AnalysisError("%s: token not understood" % ins.where)
            if a.tail not in ("cur", "tail"):
                self.bad(ins, st, "a line is put where no include is", "order")
            st.auto = a._replace(tail="syn", done=a.done - {"line"})
            return
        if tk != ("s", "TK"):
            self.bad(ins, st, "something other than the include at hand is put in the list", "order")
            return
        if a.inlist:
            self.bad(ins, st, "an include is put in the list twice", "lost")
        st.auto = a._replace(inlist=True, tail="cur", done=a.done | {"moved"})

    def group(self, st):
        return st.auto

    def ended(self, ins, st):
        a = st.auto
        if a.phase == 1 and a.grp == "open" and not (a.inb is False or "empty" in a.done):
            if self.eng.decide(st, "eq", ("s", "LEN"), ("i", 0)) is not True:
                self.bad(ins, st, "some includes of a group are not put back in order", "lost")

    def calls(self, eng, ins, name, args, st):
        self.eng = eng
        a = st.auto
        q = st.copy()
        none = [dict(ret=None, havoc=False)]
        if name == "vector_length":
            if a.phase == 1 and args[0] == ("s", "B2") or a.phase == 0 and args[0] == ("s", "B1"):
                return [dict(ret=("s", "LEN"), havoc=False)]
            raise AnalysisError("%s: vector not understood" % ins.where)
        if name in ("vector_last", "vector_first"):
            if a.phase != 1 or args[0] != ("s", "B2"):
                raise AnalysisError("%s: vector not understood" % ins.where)
            if a.inb is not None or not a.first:
                return [dict(ret=("s", "LASTIX"), facts=[(("s", "LASTIX"), (0, 1 << 40, frozenset()))], havoc=False)]
            self.note(q, "empty")
            return [dict(base=q, ret=("i", -1), facts=[(("s", "LEN"), (0, 0, frozenset()))], havoc=False),
                    dict(ret=("s", "LASTIX"), facts=[(("s", "LASTIX"), (0, 1 << 40, frozenset())),
                                                     (("s", "LEN"), (1, 1 << 40, frozenset()))], havoc=False)]
        if name == "vector_sort":
            if args[0] != ("s", "B2") or a.phase != 1:
                self.bad(ins, st, "includes are sorted before they are put in groups", "order")
                return none
            if not a.first or not a.inlist or "moved" in a.done or a.refs:
                self.bad(ins, st, "a group is sorted while being put back", "order")
            self.rename(q, {k: ("s", "OLD") for k in ("INC", "TK", "LASTINC", "LASTTK")})
            q.mem = {k: v for k, v in q.mem.items() if k[0] not in (("S", "INC"), ("S", "TK"), ("S", "LASTTK"))}
            q.auto = q.auto._replace(done=q.auto.done - {"blank", "noblank"})
            self.cmps.add(args[1])
            self.note(q, "sorted")
            q.auto = q.auto._replace(alt=q.auto.alt | {"sorted"})
            return [dict(base=q, ret=None, havoc=False)]
        if name == "vector_alloc":
            if args[0] != ("s", "GP") and not (args[0][0] == "p" and args[0][1] == ("S", "GP")):
                raise AnalysisError("%s: vector not understood" % ins.where)
            return [dict(ret=("i", -1), havoc=False),
                    dict(ret=("s", "NEWIX"), facts=[(("s", "NEWIX"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name in ("vector_clear", "vector_pop", "vector_free", "map_insert", "map_remove", "token_list_append", "token_move_prefix"):
            self.bad(ins, st, "the block is changed while being sorted", "block")
            return none
        if name == "map_find":
            if args[0] != ("s", "MAP"):
                raise AnalysisError("%s: map not understood" % ins.where)
            l = eng.loc(args[1])
            k = mv(st, l) if l else None
            if k is None:
                raise AnalysisError("%s: key not understood" % ins.where)
            own = [mv(st, (b, self.L.prgroup)) for b in (("S", "EL"), ("S", "B1"))]
            if k not in own:
                self.bad(ins, st, "the group looked up is not the one of the include", "kept")
            sort = [mv(st, (b, self.L.prsort)) for b in (("S", "EL"), ("S", "B1"))]
            self.priority(ins, st, k, [s for s in sort if s is not None])
            return [dict(ret=("s", "GP"), havoc=False)]
        if name == "map_iterate":
            if args[0] != ("s", "MAP"):
                raise AnalysisError("%s: map not understood" % ins.where)
            if a.phase == 0:
                if a.inb is not False and eng.decide(st, "eq", ("s", "LEN"), ("i", 0)) is not True:
                    self.bad(ins, st, "includes are moved before each is in its group", "kept")
            else:
                self.ended(ins, st)
            old = ("s", "OLD")
            self.rename(q, {"INC": old, "EL": old, "IX": old, "TK": ("s", "TAIL") if a.tail == "cur" else old, "B1": old,
                            "B2": old, "GRP": old, "LASTSLOT": old, "LASTINC": old, "LASTTK": old, "LEN": old, "LASTIX": old,
                            "GP": old, "GPV": old, "NEXT": old})
            q.mem = {k: v for k, v in q.mem.items() if k[0][0] != "S" or k[0][1] in ("CI",)}
            ign = {k: v for k, v in q.facts.items() if k in (("s", "IGN"), ("s", "AFTER"), ("s", "RG"))}
            q.facts = ign
            tail = "tail" if a.tail == "cur" else a.tail
            q.auto = S(True, None, frozenset(), 1, "open", tail, True, 0, frozenset())
            e = q.copy()
            e.auto = q.auto._replace(grp="end")
            return [dict(base=q, ret=("s", "GRP"), havoc=False), dict(base=e, ret=("i", 0), havoc=False)]
        if name == "map_key":
            return [dict(ret=("s", "KEY"), havoc=False)]
        if name in ("token_list_remove", "token_list_append_after", "token_list_prepend", "token_ref", "token_rele"):
            self.res.obligations += 1
            if name.startswith("token_list") and args[0] != ("s", "PFX"):
                self.bad(ins, st, "a list other than the one of prefixes is changed", "block")
            if a.phase != 1:
                self.bad(ins, st, "includes are moved before each is in its group", "kept")
                return none
            if name == "token_list_append_after":
                self.put(ins, q, args[2], args[1])
            elif name == "token_list_prepend":
                self.put(ins, q, args[1], None)
            else:
                t = args[0] if name in ("token_ref", "token_rele") else args[1]
                if t != ("s", "TK") or a.inb is not True:
                    self.bad(ins, st, "something other than the include at hand is taken out", "lost")
                elif name == "token_list_remove":
                    if "sorted" not in a.alt:
                        self.bad(ins, st, "includes are moved before they are sorted", "order")
                    if eng_zero(eng, st, ("s", "IGN")) is not True:
                        self.bad(ins, st, "includes are moved although the block is not to be sorted", "block")
                    if not a.inlist:
                        self.bad(ins, st, "an include is taken out twice", "lost")
                    q.auto = a._replace(inlist=False, refs=a.refs - 1)
                else:
                    q.auto = a._replace(refs=max(-2, min(2, a.refs + (1 if name == "token_ref" else -1))))
            return [dict(base=q, ret=None, havoc=False)]
        if name == "token_has_verbatim_line":
            if args[0] == ("s", "TK") and args[1][0] == "i" and args[1][1] >= 2:
                if "blank" in a.done or "noblank" in a.done:
                    return [dict(ret=("i", int("blank" in a.done and "cut" not in a.done)), havoc=False)]
                n = st.copy()
                self.note(q, "blank")
                self.note(n, "noblank")
                return [dict(base=q, ret=("i", 1), havoc=False), dict(base=n, ret=("i", 0), havoc=False)]
            return [dict(ret=("i", 1), havoc=False), dict(ret=("i", 0), havoc=False)]
        if name == "lexer_emit_synthetic":
            l = eng.loc(args[1])
            tu = ins.fn.tu
            s = cstr(self.prog, tu, mv(st, (l[0], l[1] + self.L.tk["tk_str"]))) if l else None
            n = mv(st, (l[0], l[1] + self.L.tk["tk_len"])) if l else None
            t = mv(st, (l[0], l[1] + self.L.tk["tk_type"])) if l else None
            if s is None or n is None or n[0] != "i" or t is None:
                raise AnalysisError("%s: token made up not understood" % ins.where)
            if s[:n[1]].strip() or n[1] > len(s) or not s or t != ("i", self.space):
                self.bad(ins, st, "text is made up between includes", "text")
            self.note(q, "line")
            return [dict(base=q, ret=("s", "SYN"), havoc=False)]
        if name == self.L.main:
            m = a.done & {"main", "other"}
            if m:
                return [dict(ret=("i", int("main" in m)), havoc=False)]
            n = st.copy()
            self.note(q, "main")
            self.note(n, "other")
            return [dict(base=q, ret=("i", 1), havoc=False), dict(base=n, ret=("i", 0), havoc=False)]
        if name == "style_include_priority":
            if args[1] != ("s", ("EF", "path")):
                self.bad(ins, st, "the priority is the one of another include", "kept")
            return [dict(ret=("s", ("EF", "prio")), havoc=False)]
        if name == self.L.path:
            if args[0] != ("s", ("EF", "t%d" % self.L.tk["tk_str"])) or args[1] != ("s", ("EF", "t%d" % self.L.tk["tk_len"])):
                self.bad(ins, st, "the path is the one of another include", "kept")
            return [dict(ret=("s", ("EF", "path")), facts=[(("s", ("EF", "path")), (1, 1 << 62, frozenset()))], havoc=False),
                    dict(ret=("i", 0), havoc=False)]
        if name in ("arena_scope_enter_impl", "arena_scope_leave", "strchr", "lexer_get_path", "strcmp", "strncmp"):
            return [dict(ret=("s", ("R", ins.where, ins.res)), havoc=False)]
        if name in ("llvm.memset.p0.i64", "llvm.memset", "memset", "llvm.memcpy.p0.p0.i64", "err", "errx"):
            return None
        f = self.own(name) if name else None
        if f is not None:
            return None
        return [dict(ret=("s", ("R", ins.where, ins.res)), havoc=False)]

    def priority(self, ins, st, k, sorts):
        a = st.auto
        prio = ("s", ("EF", "prio"))
        rg = eng_zero(self.eng, st, ("s", "RG"))
        if rg is None:
            raise AnalysisError("%s: grouping not understood" % ins.where)
        if len(sorts) != 1:
            self.bad(ins, st, "an include is put in a group before its priority is known", "order")
            return
        s = sorts[0]
        if rg is False:
            want = (("i", 0), ("i", 0)) if "main" in a.done else (prio, ("b", "lshr", prio, ("i", 32)))
            if "main" not in a.done and "other" not in a.done:
                self.bad(ins, st, "the main include is not told apart", "main")
            elif (k, s) != want:
                self.bad(ins, st, "the priority of an include is not the one of its category", "priority")
        else:
            if k != ("i", 0):
                self.bad(ins, st, "the priority of an include is not the one of its category", "priority")
            if s != ("i", -1 if a.first and "main" in a.done else 0) or a.first and not a.done & {"main", "other"}:
                self.bad(ins, st, "the main include does not stay first, or another one becomes first", "main")


def eng_zero(eng, st, v):
    return eng.decide(st, "eq", v, ("i", 0))


def sorting(L, res, prop):
    fn = L.prog.need("cpp_include_exec", FILE)
    c = Exec(L, res, prop)
    c.now = 0
    c.cmps = set()
    c.space = fn.tu.enums().get("TOKEN_SPACE")
    if c.space is None:
        raise AnalysisError("TOKEN_SPACE not found")
    eng = c.eng = Engine(L.prog, c)
    r = ret_ins(fn)
    n = moved = 0
    for rv, q in eng.run(fn, [("s", "CI"), ("s", "LX")], State({}, {}, {}, S0)):
        n += 1
        res.obligations += 1
        if q.auto.phase == 1:
            moved += 1
            if q.auto.grp != "end":
                c.bad(r, q, "sorting ends before the last group", "lost")
    res.floor("outcomes of sorting", n, 2)
    if not moved:
        c.bad(r, State({}, {}, {}, S0), "includes are never put in order", "order")
    return c.cmps


# ------------------------------------------------------------------- comparators
class Cmp(Client):
    """one comparison of two elements of which the order is given"""
    max_states = 2000
    roots = ("A", "B", "AI", "BI", "AT", "BT")

    def __init__(self, L, file, by, text):
        self.L, self.prog, self.file, self.by, self.text = L, L.prog, file, by, text

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def relevant(self, fn):
        return fn.tu.short == self.file

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        for x in "AB":
            if b == ("S", x):
                return ("s", x + "S") if self.by == "int" else ("s", x + "I")
            if b == ("S", x + "I"):
                if o == self.L.prsort:
                    return ("s", x + "S")
                if o == self.L.inc["tk"]:
                    return ("s", x + "T")
        return None

    def cmp(self, eng, ins, pred, x, y, st):
        from patch import FLIP, SIGNED, Patch
        if pred[0] == "u" and {x, y} == {("s", "AS"), ("s", "BS")}:
            raise Bad(ins, "priorities are compared as if never negative")
        pred = SIGNED.get(pred, pred)
        if (x, y) == (("s", "BS"), ("s", "AS")):
            x, y, pred = y, x, FLIP[pred]
        if (x, y) == (("s", "AS"), ("s", "BS")):
            return Patch.const(pred, self.order)
        return None

    def arith(self, eng, ins, op, x, y, st):
        if op == "sub" and {x, y} == {("s", "AS"), ("s", "BS")}:
            raise Bad(ins, "the difference of two priorities may overflow")

    def call(self, eng, ins, name, args, st, ctx):
        if name in ("token_strcmp",):
            if tuple(args[:2]) == (("s", "AT"), ("s", "BT")):
                return [dict(ret=("i", self.text), havoc=False)]
            if tuple(args[:2]) == (("s", "BT"), ("s", "AT")):
                return [dict(ret=("i", -self.text), havoc=False)]
            raise AnalysisError("%s: comparison not understood" % ins.where)
        return None


class Bad(Exception):
    def __init__(self, ins, msg):
        self.ins, self.msg = ins, msg


def comparator(L, res, prop, name, file, by):
    fn = L.prog.need(name, file)
    for order in (-1, 0, 1):
        for text in (-1, 0, 1) if by != "int" else (0,):
            c = Cmp(L, file, by, text)
            c.order = order
            eng = Engine(L.prog, c)
            want = order or text
            try:
                for rv, q in eng.run(fn, [("s", "A"), ("s", "B")], State({}, {}, {}, 0)):
                    res.obligations += 1
                    rv = eng.norm(q, rv)
                    if rv[0] != "i":
                        raise AnalysisError("%s: result not understood" % name)
                    if (rv[1] > 0) - (rv[1] < 0) != want:
                        r = ret_ins(fn)
                        res.violate(prop, "compare", "%s (%s)" % (r.where, name), "two %s are put in the wrong order"
                                    % ("priorities" if by == "int" else "includes"), q.trace_list(), name + " compare")
            except Bad as e:
                res.violate(prop, "compare", "%s (%s)" % (e.ins.where, name), e.msg, [], name + " compare")


# ---------------------------------------------------------------------- gathering
A = namedtuple("A", "done")


class Add(Client):
    max_states = 3000
    roots = ("CI", "LX", "TK", "B1", "NEW", "OP")

    def __init__(self, L, res, prop):
        self.L, self.prog, self.res, self.prop = L, L.prog, res, prop

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def keep(self, sid):
        return True

    def relevant(self, fn):
        return fn.tu.short == FILE

    def bad(self, ins, st, msg, rule):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (ins.fn.name, rule))

    def note(self, st, *what):
        st.auto = st.auto._replace(done=st.auto.done | set(what))

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "B1") and len(idx) == 1 and idx[0] == ("s", "NEWIX"):
            return ("s", "NEW")
        return None

    cifield = Walk.cifield

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l in st.mem:
            return None
        b, o = l
        if b == ("S", "CI"):
            return self.cifield(o)
        if b == ("S", "TK"):
            if o == self.L.tk["tk_type"]:
                return ("s", "TYPE")
            if o == self.L.tk["tk_flags"]:
                return ("s", "FLAGS")
            return ("s", ("T", o))
        if b[0] == "S" and isinstance(b[1], tuple) and b[1][0] == "T":
            return ("s", ("T2", b[1][1], o))
        if b[0] == "S" and isinstance(b[1], tuple) and b[1][0] == "T2":
            return ("s", "PREV") if o == 0 else ("s", ("T3", b[1][1:], o))
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return
        b, o = l
        d = st.auto.done
        if b == ("S", "CI"):
            if o == self.L.ci["after"]:
                if val != ("s", "PREV") and not (val[0] == "s" and val[1] == "PREV"):
                    self.bad(ins, st, "the block does not start behind what precedes its first include", "start")
                self.note(st, "after")
            elif o == self.L.ci["ignore"]:
                if eng.decide(st, "ne", val, ("i", 0)) is not True and not (val[:2] == ("b", "or") and val[3][0] == "i" and val[3][1]):
                    self.bad(ins, st, "a block to be left alone is forgotten", "block")
                self.note(st, "ignore")
            else:
                self.bad(ins, st, "the block is changed", "block")
        elif b == ("S", "NEW") and o == self.L.inc["tk"]:
            if val != ("s", "TK"):
                self.bad(ins, st, "another token is gathered", "gather")
            self.note(st, "kept")
        elif b == ("S", "TK"):
            self.bad(ins, st, "the text of a directive is changed", "text")

    def call(self, eng, ins, name, args, st, ctx):
        d = st.auto.done
        q = st.copy()
        none = dict(ret=None, havoc=False)
        if name == "is_simple_enabled":
            m = d & {"on", "off"}
            if m:
                return [dict(ret=("i", int("on" in m)), havoc=False)]
            n = st.copy()
            self.note(q, "on")
            self.note(n, "off")
            return [dict(base=q, ret=("i", 1), havoc=False), dict(base=n, ret=("i", 0), havoc=False)]
        if name == "vector_length" and args[0] == ("s", "B1"):
            if "new" in d:
                return [dict(ret=("s", "LEN1"), facts=[(("s", "LEN1"), (1, 1 << 40, frozenset()))], havoc=False)]
            m = d & {"empty", "some"}
            if m:
                return [dict(ret=("i", 0) if "empty" in m else ("s", "LEN"), havoc=False)]
            n = st.copy()
            self.note(q, "empty")
            self.note(n, "some")
            return [dict(base=q, ret=("i", 0), havoc=False),
                    dict(base=n, ret=("s", "LEN"), facts=[(("s", "LEN"), (1, 1 << 40, frozenset()))], havoc=False)]
        if name in ("vector_alloc", "vector_calloc"):
            if eng.loc(args[0]) != (("S", "CI"), self.L.ci["includes"]):
                raise AnalysisError("%s: vector not understood" % ins.where)
            if "new" in d:
                self.bad(ins, st, "an include is gathered twice", "gather")
            self.note(q, "new")
            return [dict(ret=("i", -1), havoc=False),
                    dict(base=q, ret=("s", "NEWIX"), facts=[(("s", "NEWIX"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name == "token_prev" and args[0] == ("s", "TK"):
            return [dict(ret=("s", "PREV"), havoc=False)]
        if name == "token_ref":
            if args[0] != ("s", "TK") or "ref" in d:
                self.bad(ins, st, "a reference is taken on the wrong token", "refs")
            self.note(q, "ref")
            return [dict(base=q, ret=None, havoc=False)]
        if name == "token_has_verbatim_line":
            if args[0] != ("s", "TK") or args[1] != ("i", 2):
                return [dict(ret=("i", 1), havoc=False), dict(ret=("i", 0), havoc=False)]
            m = d & {"blank", "noblank"}
            if m:
                return [dict(ret=("i", int("blank" in m)), havoc=False)]
            n = st.copy()
            self.note(q, "blank")
            self.note(n, "noblank")
            return [dict(base=q, ret=("i", 1), havoc=False), dict(base=n, ret=("i", 0), havoc=False)]
        if name == "cpp_include_exec":
            if "exec" in d:
                self.bad(ins, st, "a block is sorted twice", "block")
            if "new" in d and not {"kept", "ref"} <= d:
                self.bad(ins, st, "a block is sorted before its last include is in it", "gather")
            self.note(q, "exec")
            return [dict(base=q, ret=None, havoc=False)]
        if name == "cpp_include_reset":
            if "exec" not in d:
                self.bad(ins, st, "a block is dropped before being sorted", "block")
            self.note(q, "reset")
            return [dict(base=q, ret=None, havoc=False)]
        if name in ("token_list_remove", "token_list_append_after", "token_list_prepend", "token_list_append", "token_rele"):
            self.bad(ins, st, "the list of prefixes is changed", "block")
            return [none]
        return None


def gathering(L, res, prop):
    e = L.prog.need("cpp_include_add", FILE).tu.enums()
    inc, flag = e.get("TOKEN_CPP_INCLUDE"), None
    for h in ("token.h", "lexer.h"):
        m = ir.macros(h)
        if "TOKEN_FLAG_DIFF" in m:
            flag = ir.macro(h, "TOKEN_FLAG_DIFF")
    if inc is None or flag is None:
        raise AnalysisError("TOKEN_CPP_INCLUDE or TOKEN_FLAG_DIFF not found")
    for name, args in (("cpp_include_add", [("s", "CI"), ("s", "LX"), ("s", "TK")]), ("cpp_include_leave", [("s", "CI"), ("s", "LX")])):
        fn = L.prog.need(name, FILE)
        c = Add(L, res, prop)
        eng = Engine(L.prog, c)
        r = ret_ins(fn)
        n = 0
        for rv, q in eng.run(fn, args, State({}, {}, {}, A(frozenset()))):
            n += 1
            res.obligations += 1
            d = q.auto.done
            if "off" in d:
                if d - {"off"}:
                    c.bad(r, q, "includes are gathered although not to be sorted", "gather")
                continue
            if "exec" in d and "reset" not in d:
                c.bad(r, q, "a block sorted is sorted again together with the next one", "block")
            if name == "cpp_include_leave":
                if "exec" not in d:
                    c.bad(r, q, "the last block is not sorted", "block")
                continue
            isinc = eng.decide(q, "eq", ("s", "TYPE"), ("i", inc))
            if isinc is None:
                c.bad(r, q, "includes are not told apart from other directives", "gather")
                continue
            if not isinc:
                if "exec" not in d:
                    c.bad(r, q, "a block goes on behind something other than an include", "block")
                if d & {"new", "after", "ignore"}:
                    c.bad(r, q, "something other than an include is gathered", "gather")
                continue
            if not {"new", "kept", "ref"} <= d:
                c.bad(r, q, "an include is not gathered", "gather")
            if not ("some" in d and "after" not in d or {"empty", "after"} <= d):
                c.bad(r, q, "a block does not start at its first include", "start")
            rg = eng_zero(eng, q, ("s", "RG"))
            if "exec" not in d and not (rg is False or "noblank" in d):
                c.bad(r, q, "a block goes on behind a blank line", "block")
            if "exec" in d and not (rg is True and "blank" in d):
                c.bad(r, q, "a block ends in between includes", "block")
            # an include not in the chunks of a diff
            dp = diffparse(eng, q)
            fl = eng.decide(q, "eq", eng.mk(q, "and", ("s", "FLAGS"), ("i", flag)), ("i", 0))
            if "ignore" in d:
                if not (dp is True and fl is True):
                    c.bad(r, q, "a block is left alone although to be sorted", "diff")
            elif not (dp is False or fl is False):
                c.bad(r, q, "a block with an include not part of the diff is sorted", "diff")
        res.floor("outcomes of %s" % name, n, 2)


def diffparse(eng, q):
    """what is known about the option"""
    for k, v in q.facts.items():
        if isinstance(k, tuple) and k[:2] == ("b", "and") and v is not None:
            if "FLAGS" in repr(k):
                continue
            z = eng.decide(q, "eq", k, ("i", 0))
            if z is not None:
                return not z
    return None


# ---------------------------------------------------------------------- starting over
class Reset(Walk):
    """cpp_include_reset: whatever was gathered is dropped"""
    rule = "reset"

    def isbase(self, v):
        return v == ("s", "B1")

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "B1") and len(idx) == 1 and idx[0] == ("s", "POPIX"):
            return ("s", "POPPED")
        return Walk.gep(self, eng, ins, base, idx, st)

    def cmp(self, eng, ins, pred, x, y, st):
        if {x, y} == {("s", "LEN"), ("i", 0)} and eng.decide(st, "eq", x, y) is not None:
            if st.auto.first and st.auto.inb is None and eng.decide(st, "eq", x, y) is False:
                self.mark(st)
            return None
        return Scan.cmp(self, eng, ins, pred, x, y, st)

    def field(self, o, ty):
        if o == self.L.inc["tk"]:
            return ("s", "TK")

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if b == ("S", "CI"):
            return self.cifield(o) if (b, o) not in st.mem else None
        if b == ("S", "POPPED") and o == self.L.inc["tk"]:
            return ("s", "POPTK")
        if b == ("S", "GRP") and o == self.L.grp["includes"]:
            return ("s", "B2")
        return Scan.load(self, eng, ins, ptr, st, ctx)

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0] != ("S", "CI"):
            return
        ok = {self.L.ci["after"]: "after", self.L.ci["ignore"]: "ignore"}.get(l[1])
        if ok is None:
            self.bad(ins, st, "more than the block is dropped")
        elif val == ("i", 0):
            st.auto = st.auto._replace(alt=st.auto.alt | {ok})
        else:
            st.auto = st.auto._replace(alt=st.auto.alt - {ok})

    def leave(self, ins, st):
        if "rele" not in st.auto.done:
            self.bad(ins, st, "an include is not let go")

    def calls(self, eng, ins, name, args, st):
        a = st.auto
        q = st.copy()
        none = [dict(ret=None, havoc=False)]
        if name == "vector_length" and args[0] == ("s", "B1"):
            if a.phase == "held":
                self.bad(ins, st, "an include is not let go")
            if "cleared" in a.alt:
                return [dict(ret=("i", 0), havoc=False)]
            if "popped" in a.alt or a.first and a.inb is None:
                e = st.copy()
                e.auto = a._replace(alt=a.alt | {"cleared"})
                return [dict(base=e, ret=("i", 0), havoc=False),
                        dict(ret=("s", "LEN"), facts=[(("s", "LEN"), (1, 1 << 40, frozenset()))], havoc=False)]
            return [dict(ret=("s", "LEN"), havoc=False)]
        if name == "vector_pop" and args[0] == ("s", "B1"):
            if a.phase == "held":
                self.bad(ins, st, "an include is not let go")
            q.mem = {k: v for k, v in q.mem.items() if k[0] != ("S", "POPPED")}
            q.env = {k: ("s", "OLD") if v in (("s", "POPPED"), ("s", "POPTK"), ("s", "POPIX")) else v for k, v in q.env.items()}
            q.facts = {k: v for k, v in q.facts.items() if "POP" not in repr(k)}
            q.auto = a._replace(phase="held", alt=a.alt | {"popped"})
            out = [dict(base=q, ret=("s", "POPIX"), facts=[(("s", "POPIX"), (0, 1 << 40, frozenset()))], havoc=False)]
            if eng.decide(st, "ne", ("s", "LEN"), ("i", 0)) is not True:
                e = st.copy()
                e.auto = a._replace(alt=a.alt | {"cleared"})
                out.append(dict(base=e, ret=("i", -1), havoc=False))
            return out
        if name == "vector_clear":
            if args[0] == ("s", "B1"):
                if a.inb is not False and "cleared" not in a.alt:
                    self.bad(ins, st, "includes are not let go")
                q.auto = a._replace(alt=a.alt | {"cleared"})
            elif args[0] == ("s", "B2"):
                q.auto = a._replace(grp="cleared")
            else:
                raise AnalysisError("%s: vector not understood" % ins.where)
            return [dict(base=q, ret=None, havoc=False)]
        if name == "token_rele":
            if args[0] == ("s", "POPTK") and a.phase == "held":
                q.auto = a._replace(phase=0)
            elif args[0] == ("s", "TK") and a.inb is True and "rele" not in a.done:
                self.note(q, "rele")
            else:
                self.bad(ins, st, "something other than an include gathered is let go, or twice")
            return [dict(base=q, ret=None, havoc=False)]
        if name == "map_iterate":
            if a.grp == "open":
                self.bad(ins, st, "a group is not emptied")
            q.mem = {k: v for k, v in q.mem.items() if k[0] != ("S", "GRP")}
            e = q.copy()
            q.auto = a._replace(grp="open")
            e.auto = a._replace(grp="end")
            return [dict(base=q, ret=("s", "GRP"), havoc=False), dict(base=e, ret=("i", 0), havoc=False)]
        if name == "map_key":
            return [dict(ret=("s", "KEY"), havoc=False)]
        if name and name.startswith("token_list") or name in ("map_remove", "vector_free"):
            self.bad(ins, st, "more than the block is dropped")
            return none
        return None


def starting(L, res, prop):
    fn = L.prog.need("cpp_include_reset", FILE)
    c = Reset(L, res, prop)
    eng = Engine(L.prog, c)
    r = ret_ins(fn)
    n = 0
    for rv, q in eng.run(fn, [("s", "CI")], State({}, {}, {}, S0)):
        n += 1
        res.obligations += 1
        a = q.auto
        if a.phase == "held":
            c.bad(r, q, "an include is not let go")
        if "cleared" not in a.alt:
            c.bad(r, q, "includes are still gathered after starting over")
        if a.grp != "end":
            c.bad(r, q, "groups are not emptied")
        for k in ("after", "ignore"):
            if k not in a.alt:
                c.bad(r, q, "%s is kept for the next block" % ("the start" if k == "after" else "leaving the block alone"))
    res.floor("outcomes of starting over", n, 1)


# ---------------------------------------------------------------------- groups
class Groups(Walk):
    """cpp_include_alloc: each priority has a group"""
    rule = "groups"

    def isbase(self, v):
        return v == ("s", "B3")

    def field(self, o, ty):
        return ("s", ("EF", "prio"))

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if b == ("S", "NEWCI") and o == self.L.ci["groups"]:
            return ("s", "MAP")
        if b == ("S", "B3") and o < 0:
            return ("s", "LEN")
        return Scan.load(self, eng, ins, ptr, st, ctx)

    def leave(self, ins, st):
        d = st.auto.done
        if "have" not in d and not {"made", "init"} <= d:
            self.bad(ins, st, "a priority has no group")

    def calls(self, eng, ins, name, args, st):
        q, n = st.copy(), st.copy()
        d = st.auto.done
        if self.length(name, args):
            return self.length(name, args)
        if name == "style_include_priorities":
            return [dict(ret=("s", "B3"), havoc=False)]
        if name in ("map_find", "map_insert"):
            l = eng.loc(args[1])
            if args[0] != ("s", "MAP") or not l or mv(st, l) != ("s", ("EF", "prio")):
                self.bad(ins, st, "a group is made for something other than the priority at hand")
            if name == "map_find":
                if d & {"have", "lack", "made"}:
                    return [dict(ret=("s", "GRP") if d & {"have", "made"} else ("i", 0), havoc=False)]
                self.note(q, "have")
                self.note(n, "lack")
                return [dict(base=q, ret=("s", "GRP"), havoc=False), dict(base=n, ret=("i", 0), havoc=False)]
            if "lack" not in d:
                self.bad(ins, st, "a group is made twice for one priority")
            self.note(q, "made")
            return [dict(base=q, ret=("s", "GRP"), havoc=False), dict(ret=("i", 0), havoc=False)]
        if name == "vector_init":
            l = eng.loc(args[0])
            if l and l[0] == ("S", "GRP"):
                self.note(q, "init")
            return [dict(base=q, ret=("i", 0), havoc=False), dict(ret=("i", 1), havoc=False)]
        if name in ("arena_calloc", "arena_malloc"):
            return [dict(ret=("s", "NEWCI"), facts=[(("s", "NEWCI"), (1, 1 << 62, frozenset()))], havoc=False)]
        f = self.own(name) if name else None
        if f is not None or name is None or name.startswith("llvm.") or name in ("err", "errx"):
            return None
        return [dict(ret=("s", ("R", ins.where, ins.res)), havoc=False)]


def groups(L, res, prop):
    fn = L.prog.need("cpp_include_alloc", FILE)
    c = Groups(L, res, prop)
    c.roots = c.roots + ("NEWCI",)
    eng = Engine(L.prog, c)
    r = ret_ins(fn)
    n = 0
    for rv, q in eng.run(fn, [("s", "ST"), ("s", "SI"), ("s", "PFX"), ("s", "ES"), ("s", "SC"), ("s", "OPT")],
                         State({}, {}, {}, S0)):
        n += 1
        res.obligations += 1
        if q.auto.inb is not False:
            c.bad(r, q, "the last priorities have no group")
    res.floor("outcomes of making groups", n, 1)


class Prios(Walk):
    """style_include_priorities: the priority of each category, the lowest and the highest, in order"""
    rule = "priorities"

    def relevant(self, fn):
        return fn.tu.short == "style.c"

    def isbase(self, v):
        return v == ("s", "CATS")

    def never_null(self, sid):
        return sid == "CATS" or Walk.never_null(self, sid)

    def distinct(self, b):
        return b == ("S", "CATS") or Walk.distinct(self, b)

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "OUT") and len(idx) == 1 and idx[0] == ("s", "NEWIX"):
            return ("s", "DST")
        return Walk.gep(self, eng, ins, base, idx, st)

    def field(self, o, ty):
        if o == self.gro:
            return ("s", ("EF", "group"))

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if b == ("S", "ST") and o == self.cato:
            return ("s", "CATS")
        if b == ("S", "CATS") and o < 0:
            return ("s", "LEN")
        if b == ("S", "CATS") and st.auto.first:
            b = ("S", "EL")
        if b == ("S", "EL") and st.auto.inb is True:
            return self.field(o, ins.ty)
        if b[0] != "S" and st.auto.grp == (b, o):
            return ("s", "OUT")
        return Scan.load(self, eng, ins, ptr, st, ctx)

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0] != ("S", "DST"):
            return
        a = st.auto
        if "slot" not in a.done:
            raise AnalysisError("%s: slot not understood" % ins.where)
        if val == ("s", ("EF", "group")):
            self.note(st, "kept")
        elif val in (("i", 0), ("i", MAX)):
            st.auto = a._replace(alt=a.alt | {val[1]})
        else:
            self.bad(ins, st, "a priority of no category is listed")
        st.auto = st.auto._replace(done=st.auto.done - {"slot"}, phase=0)

    def leave(self, ins, st):
        if "kept" not in st.auto.done:
            self.bad(ins, st, "the priority of a category is left out")
        if "slot" in st.auto.done:
            self.bad(ins, st, "a priority is left unset")

    def calls(self, eng, ins, name, args, st):
        a = st.auto
        q = st.copy()
        if self.length(name, args):
            return self.length(name, args)
        if name == "vector_init":
            l = eng.loc(args[0])
            if l is None:
                raise AnalysisError("%s: vector not understood" % ins.where)
            q.auto = a._replace(grp=l)
            return [dict(base=q, ret=("i", 0), havoc=False), dict(ret=("i", 1), havoc=False)]
        if name in ("vector_alloc", "vector_calloc"):
            if eng.loc(args[0]) != a.grp:
                raise AnalysisError("%s: vector not understood" % ins.where)
            if "slot" in a.done:
                self.bad(ins, st, "a priority is left unset")
            q.mem = {k: v for k, v in q.mem.items() if k[0] != ("S", "DST")}
            q.auto = a._replace(done=a.done | {"slot"}, alt=a.alt - {"sorted"})
            return [dict(ret=("i", -1), havoc=False),
                    dict(base=q, ret=("s", "NEWIX"), facts=[(("s", "NEWIX"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name == "vector_sort":
            if args[0] != ("s", "OUT"):
                raise AnalysisError("%s: vector not understood" % ins.where)
            self.cmps.add(args[1])
            q.auto = a._replace(alt=a.alt | {"sorted"})
            return [dict(base=q, ret=None, havoc=False)]
        return None


def priorities(L, res, prop):
    fn = L.prog.need("style_include_priorities", "style.c")
    c = Prios(L, res, prop)
    c.cmps = set()
    c.cato = offs(L.prog, "style", ["include_categories"], "style.c")["include_categories"]
    p = offs(L.prog, "include_category", ["priority"], "style.c")["priority"]
    c.gro = p + L.pr["group"]
    eng = Engine(L.prog, c)
    r = ret_ins(fn)
    n = 0
    for rv, q in eng.run(fn, [("s", "ST")], State({}, {}, {}, S0)):
        n += 1
        res.obligations += 1
        a = q.auto
        if rv != ("s", "OUT"):
            raise AnalysisError("style_include_priorities: result not understood")
        if a.inb is not False:
            c.bad(r, q, "the last categories are left out")
        if "slot" in a.done:
            c.bad(r, q, "a priority is left unset")
        for v in (0, MAX):
            if v not in a.alt:
                c.bad(r, q, "the priority of %s is left out" % ("the main include" if v == 0 else "includes in no category"))
        if "sorted" not in a.alt:
            c.bad(r, q, "the priorities are not in order")
    res.floor("outcomes of listing priorities", n, 1)
    return c.cmps


# ---------------------------------------------------------------------- main include, blank lines
class Main(Client):
    """is_main_include: texts are terms over the path"""
    max_states = 2000

    def __init__(self, L):
        self.L, self.prog = L, L.prog

    def keep(self, sid):
        return True

    def never_null(self, sid):
        return sid in ("INCLUDE", "PATH", "SCR") or isinstance(sid, tuple) and sid[0] in ("PART", "SPLIT", "FMT", "SLOT")

    def distinct(self, b):
        return b[0] == "S" and self.never_null(b[1])

    def relevant(self, fn):
        return fn.tu.short == FILE

    def gep(self, eng, ins, base, idx, st):
        if base[0] == "s" and base[1][:1] == ("SPLIT",) and len(idx) == 1:
            i = idx[0]
            if i[0] == "s" and i[1][:1] == ("AT",):
                return ("s", ("SLOT",) + base[1][1:] + i[1][1:])
            if i == ("i", 0):
                return ("s", ("SLOT",) + base[1][1:] + ("first",))
            raise AnalysisError("%s: part of a path not understood" % ins.where)

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0][0] != "S":
            return None
        k = l[0][1]
        if k[:1] == ("SLOT",) and l[1] == 0:
            return ("s", ("PART",) + k[1:])
        if k[:1] == ("SPLIT",) and l[1] == 0:
            return ("s", ("PART",) + k[1:] + ("first",))

    def call(self, eng, ins, name, args, st, ctx):
        tu = ins.fn.tu
        if name == "KS_str_split":
            sep = cstr(self.prog, tu, args[1])
            if sep is None:
                raise AnalysisError("%s: part of a path not understood" % ins.where)
            return [dict(ret=("s", ("SPLIT", args[0], sep)), havoc=False)]
        if name in ("vector_first", "vector_last"):
            ix = ("s", ("AT", name[7:]))
            return [dict(ret=ix, facts=[(ix, (0, 1 << 40, frozenset()))], havoc=False)]
        if name == "arena_sprintf":
            f = cstr(self.prog, tu, args[1])
            if f is None or len(args) != 3:
                raise AnalysisError("%s: path not understood" % ins.where)
            return [dict(ret=("s", ("FMT", f, args[2])), havoc=False)]
        if name in ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "strstr"):
            if name != "strcmp" or ("s", "INCLUDE") not in args[:2]:
                raise Bad(ins, "the main include is told by less than its whole path")
            t = args[1] if args[0] == ("s", "INCLUDE") else args[0]
            for was, v in st.auto:
                if was == t:
                    return [dict(ret=("i", int(not v)), havoc=False)]
            y, n = st.copy(), st.copy()
            y.auto = st.auto | {(t, True)}
            n.auto = st.auto | {(t, False)}
            return [dict(base=y, ret=("i", 0), havoc=False), dict(base=n, ret=("i", 1), havoc=False)]
        if name and self.prog.resolve(tu, name) is not None and self.prog.resolve(tu, name).tu.short == FILE:
            return None
        return [dict(ret=("s", ("R", ins.where, ins.res)), havoc=False)]


def mainfile(L, res, prop):
    fn = L.prog.need(L.main, FILE)
    if len(fn.params) != 3:
        raise AnalysisError("%s: parameters not understood" % fn.name)
    c = Main(L)
    eng = Engine(L.prog, c)
    P = ("s", "PATH")
    whole = ("s", ("FMT", '"%s.h"', ("s", ("PART", P, ".", "first"))))
    base = ("s", ("FMT", '"%s.h"', ("s", ("PART", ("s", ("PART", P, "/", "last")), ".", "first"))))
    r = ret_ins(fn)
    bad = lambda i, q, m: res.violate(prop, "main", "%s (%s)" % (i.where, fn.name), m, q.trace_list() if q else [],
                                      "is_main_include main")
    try:
        for rv, q in eng.run(fn, [("s", "INCLUDE"), P, ("s", "SCR")], State({}, {}, {}, frozenset())):
            res.obligations += 1
            rv = eng.norm(q, rv)
            d = dict(q.auto)
            yes = eng.decide(q, "ne", rv, ("i", 0))
            if yes is None:
                raise AnalysisError("is_main_include: result not understood")
            hit = [t for t, v in d.items() if v]
            if yes and not (set(hit) & {whole, base}):
                bad(r, q, "an include other than the one named after the source is taken for the main one")
            if not yes and (hit or d.get(whole) is not False or d.get(base) is not False):
                bad(r, q, "the include named after the source is not taken for the main one")
    except Bad as e:
        bad(e.ins, None, e.msg)


class Trail(Client):
    """token_has_verbatim_line: the last characters, one after the other"""
    max_states = 4000

    def __init__(self, L):
        self.L, self.prog = L, L.prog

    def keep(self, sid):
        return True

    def never_null(self, sid):
        return sid in ("TK", "STR")

    def distinct(self, b):
        return b[0] == "S" and b[1] in ("TK", "STR")

    def relevant(self, fn):
        return fn.tu.short == "token.c"

    def left(self, v):
        """v is the length less some"""
        if v == ("s", "LEN"):
            return 0
        if v[0] == "b" and v[1] == "add" and v[2] == ("s", "LEN") and v[3][0] == "i":
            return -v[3][1]
        if v[0] == "b" and v[1] == "sub" and v[2] == ("s", "LEN") and v[3][0] == "i":
            return v[3][1]

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        if l[0] == ("S", "TK") and l not in st.mem:
            return ("s", {self.L.tk["tk_str"]: "STR", self.L.tk["tk_len"]: "LEN"}.get(l[1], ("F", l[1])))
        if l[0][0] == "S" and l[0][1][:1] == ("CH",):
            k = l[0][1][1]
            if st.auto[0] < k:
                raise Bad(ins, "a character before the first one is looked at")
            return ("s", ("C", k))

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "STR") and len(idx) == 1:
            k = self.left(idx[0])
            if k is None or k < 1:
                raise AnalysisError("%s: character not understood %s" % (ins.where, idx))
            return ("s", ("CH", k))

    def arith(self, eng, ins, op, x, y, st):
        if op not in ("add", "sub") or y[0] != "i":
            return None
        d = y[1] if op == "sub" else -y[1]
        k = self.left(x)
        if k is not None:
            if k + d > 8:
                # whatever comes next, the answer is known by now
                if any(eng.decide(st, "eq", ("s", ("C", i)), ("i", 10)) is False for i in (1, 2)):
                    raise Bad(ins, "newlines other than the last characters are counted")
                return x
            return ("b", "add", ("s", "LEN"), ("i", -(k + d))) if k + d else ("s", "LEN")
        if x[0] == "i":
            return ("i", max(-8, min(8, x[1] - d)))

    def cmp(self, eng, ins, pred, x, y, st):
        from patch import FLIP, SIGNED
        k, pred = self.left(x), SIGNED.get(pred, pred)
        if k is None and self.left(y) is not None:
            x, y, pred = y, x, FLIP[pred]
            k = self.left(x)
        if k is None or y[0] != "i":
            return None
        # the length against n
        n = y[1] + k
        return ("c", pred, ("s", "LEN"), ("i", n))

    def branch(self, eng, ins, cond, taken, st, ctx):
        if cond[0] != "c" or cond[2] != ("s", "LEN"):
            return
        lo, hi = st.auto
        n, p = cond[3][1], cond[1]
        if not taken:
            p = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[p]
        if p == "sgt":
            lo = max(lo, n + 1)
        elif p == "sge":
            lo = max(lo, n)
        elif p == "slt":
            hi = min(hi, n - 1)
        elif p == "sle":
            hi = min(hi, n)
        elif p == "eq":
            lo, hi = max(lo, n), min(hi, n)
        elif p == "ne":
            if lo == n:
                lo += 1
            if hi == n:
                hi -= 1
        if lo > hi:
            return False
        st.auto = (lo, hi)
        st.facts = {k: v for k, v in st.facts.items() if not (k[0] == "c" and k[2] == ("s", "LEN")) and k != ("s", "LEN")}


def blank(L, res, prop):
    fn = L.prog.fn("token_has_verbatim_line", "token.c")
    if fn is None or len(fn.params) != 2:
        raise AnalysisError("token_has_verbatim_line not understood")
    c = Trail(L)
    eng = Engine(L.prog, c)
    r = ret_ins(fn)
    bad = lambda i, q, m: res.violate(prop, "blank", "%s (%s)" % (i.where, fn.name), m, q.trace_list() if q else [],
                                      "token_has_verbatim_line blank")
    try:
        for rv, q in eng.run(fn, [("s", "TK"), ("i", 2)], State({}, {}, {}, (0, 1 << 40))):
            res.obligations += 1
            rv = eng.norm(q, rv)
            yes = eng.decide(q, "ne", rv, ("i", 0))
            ch = [eng.decide(q, "eq", ("s", ("C", k)), ("i", 10)) for k in (1, 2)]
            for v in ([True, False] if yes is None else [yes]):
                if yes is None:
                    raise AnalysisError("token_has_verbatim_line: result not understood")
                if v and not (ch == [True, True] and q.auto[0] >= 2):
                    bad(r, q, "a blank line is seen behind a directive that has none")
                if not v and not (q.auto[1] < 2 or False in ch):
                    bad(r, q, "the blank line behind a directive is not seen")
    except Bad as e:
        bad(e.ins, None, e.msg)


def fname(v):
    return v[1][-1] if v[0] == "p" else v[1] if v[0] == "g" else None


def p22(prog, res, prop):
    L = Lay(prog)
    gathering(L, res, prop)
    for v in sorting(L, res, prop):
        comparator(L, res, prop, fname(v), FILE, "include")
    starting(L, res, prop)
    groups(L, res, prop)
    for v in priorities(L, res, prop):
        comparator(L, res, prop, fname(v), "style.c", "int")
    mainfile(L, res, prop)
    blank(L, res, prop)
