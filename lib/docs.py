"""P14: rendering the document keeps every text, prints nothing but blanks besides.

The function that renders a document is walked once per kind of document node, with
the kind fixed and rendering a child as an event.  Ghost state: children rendered,
times the text of the node was printed, line breaks printed; saving and restoring the
output buffer saves and restores the ghost state.
"""
from absint import Client, Engine, State, contains
from ir import AnalysisError
from tokens import args_of

FILE = "doc.c"
EXEC = "doc_exec1"
BLANKS = set(" \t\n")


def offs(prog, struct, names, file=None):
    for tu in prog.tus:
        if file is not None and tu.short != file:
            continue
        d = tu.di_struct(struct)
        if d:
            m = {n: o // 8 for o, _, n, _, _ in d}
            try:
                return {k: m[k] for k in names}
            except KeyError as e:
                raise AnalysisError("struct %s has no member %s" % (struct, e))
    raise AnalysisError("struct %s not found" % struct)


def cstr(prog, tu, v):
    if v is not None and v[0] == "p" and v[1][0] == "G" and v[2] == 0:
        return prog.gstr(tu, ("g", v[1][2]))
    return None


def const_byte(tu, name, off):
    """byte of a constant global"""
    g = tu.globals.get(name)
    if g is None or g[1] is None or "constant" not in g[2] and False:
        return None

    def at(t, v, o):
        if v[0] == "zero":
            return 0
        if v[0] == "str":
            return v[1][o] if o < len(v[1]) else 0
        if v[0] == "i":
            return (v[1] >> (8 * o)) & 0xff
        if v[0] == "agg":
            base = 0
            for i, (et, ev) in enumerate(v[1]):
                if isinstance(t, tuple) and t[0] == "arr":
                    base = i * tu.sizeof(t[2])
                else:
                    base = tu.field_off(t, i)[0]
                if base <= o < base + tu.sizeof(et):
                    return at(et, ev, o - base)
            return 0
        return None
    return at(g[0], g[1], off)


class Render(Client):
    """auto = (children rendered, texts printed, line breaks, blanks, saved, lost)"""
    max_states = 80000
    max_seconds = 200
    max_inline = 8

    def __init__(self, prog, res, prop, kind, o, so, muted=None, ival=None):
        self.prog, self.res, self.prop = prog, res, prop
        self.kind, self.o, self.so, self.muted, self.ival = kind, o, so, muted, ival
        self.tu = prog.need(EXEC, FILE).tu
        self.important = {so[n] for n in ("st_bf", "st_mute", "st_flags", "st_nlines", "st_maxlines", "st_newline")}
        self.counts = {}
        self.tkflags = offs(prog, "token", ["tk_flags"])["tk_flags"]

    roots = ("DC", "ST", "C0", "CU", "NX", "NN", "STR", "LEN", ("CH", 0), "BF", "TKP")

    def keep(self, sid):
        return sid in self.roots or isinstance(sid, tuple) and sid and sid[0] in ("BYTE", "BL", "F", "CH", "TKFL")

    def never_null(self, sid):
        return sid in ("DC", "ST", "BF", "BUF")

    def group(self, st):
        m = st.mem.get((("S", "ST"), self.so["st_mute"]))
        b = st.mem.get((("S", "ST"), self.so["st_bf"]))
        return st.auto, m, b, frozenset(x for x in st.facts if x[0] == "s" and x[1] in ("C0", "NX"))

    def relevant(self, fn):
        """functions that print, render children or mute, and predicates"""
        if fn.tu.short != FILE or fn.name == EXEC:
            return False
        if fn not in self.rel_cache:
            c = closure(self.prog, fn, stop=TRACES)
            names = {n for f in c for n in called(f)}
            self.rel_cache[fn] = bool(names & PRINTS) or \
                ("buffer_get_ptr" in names and any(n.startswith("llvm.memcpy") or n in COPIES for n in names)) or self.writes(c) or self.pure(fn)
        return self.rel_cache[fn]

    rel_cache = {}

    def pure(self, fn):
        return not Engine(self.prog, self).loops(fn) and not any(
            i.op == "store" and i.args[1][0] != "l" or
            i.op == "store" and i.args[1][1] not in fn.allocas for i in fn.instrs())

    def writes(self, fns):
        for f in fns:
            if f.tu.short != FILE:
                continue
            e = Engine(self.prog, self)
            for i in f.instrs():
                if i.op == "store":
                    t = e.tag(f, i.args[1], i.ty)
                    if t[0] == "struct.doc_state" and t[1] in self.important:
                        return True
        return False

    def bad(self, rule, ins, st, msg):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (self.kindname, msg))

    # ---- memory
    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, off = l
        o = self.o
        if b == ("S", "ST") and off not in self.important:
            r = eng.fresh(st, (ctx, ins.fn.name, ins.res))
            en = self.tu.di_enum_range("doc_state", off)
            if en is not None:
                st.facts[r] = (en[0], en[1], frozenset())
            return r
        if b[0] == "S" and ins.ty == "i32" and b != ("S", "DC"):
            t = eng.tag(ins.fn, ins.args[0], ins.ty)
            en = self.tu.di_enum_range(t[0][7:], t[1]) if t[0].startswith("struct.") and isinstance(t[1], int) else None
            if en is not None:
                r = eng.fresh(st, (ctx, ins.fn.name, ins.res))
                st.facts[r] = (en[0], en[1], frozenset())
                return r
        if b == ("S", "DC"):
            if off == o["dc_type"]:
                return ("i", self.kind)
            if off == o["dc_tk"] and ins.ty == "ptr" and self.isstr:
                return ("s", "TKP")
            if off == o["dc_doc"] and ins.ty == "ptr":
                return ("s", "C0")
            if ins.ty == "ptr" and off == o["dc_str"] and self.isstr:
                return ("s", "STR")
            if off == o["dc_len"] and self.isstr:
                return ("s", "LEN")
            if off == o["dc_int"] and self.ival is not None and ins.ty == "i32":
                return ("i", self.ival)
            if ins.ty == "i32":
                return eng.fresh(st, (ctx, ins.fn.name, ins.res))
        if b[0] == "S" and off == o["list_entry.tqe_next"] and ins.ty == "ptr":
            if b[1] in ("C0", "CU"):
                return ("s", "NX") if b[1] == st.auto[0] or st.auto[0] == "" else None
            if b[1] == "NX":
                return ("s", "NN")
        if b == ("S", "STR") and off == 0:
            return ("s", ("CH", 0))
        if b == ("S", "STRL") and off == 0:
            return ("s", ("CH", "last"))
        if b == ("S", "TKP") and off == self.tkflags:
            return ("s", ("TKFL",))
        if b[0] == "S" and isinstance(b[1], tuple) and b[1][0] == "BUFB":
            return ("s", ("BYTE", b[1][1] - (off or 0)))
        if b[0] == "G" and off is not None and ins.ty == "i8":
            v = const_byte(ins.fn.tu, b[2], off)
            if v is not None:
                return ("i", v)
        return None

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "STR") and len(idx) == 1 and minus_one(idx[0]):
            return ("p", ("S", "STRL"), 0)
        if base[0] == "s" and base[1] == "BUF" and len(idx) == 1:
            if idx[0][0] == "s" and isinstance(idx[0][1], tuple) and idx[0][1][0] == "BL":
                return ("p", ("S", ("BUFB", idx[0][1][1])), 0)
        return None

    def arith(self, eng, ins, op, x, y, st):
        if op in ("add", "sub") and x[0] == "s" and isinstance(x[1], tuple) and x[1][0] == "BL" and y[0] == "i":
            k = x[1][1] + (y[1] if op == "sub" else -y[1])
            if -4 <= k <= 4:
                return ("s", ("BL", k))
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l == (("S", "ST"), self.so["st_bf"]):
            self.bad("other-output", ins, st, "rendering %s switches to another output buffer" % self.kindname)
        if l == (("S", "ST"), self.so["st_mute"]) and self.kindname not in ("DOC_MUTE", "DOC_UNMUTE"):
            self.bad("mute-changed", ins, st, "rendering %s mutes or unmutes the output" % self.kindname)

    # ---- events
    def call(self, eng, ins, name, args, st, ctx):
        cur, texts, nl, blanks, saved, lost = st.auto
        ST = ("S", "ST")
        if name == EXEC:
            q = st.copy()
            self.exec(eng, ins, args, q)
            self.counts["children"] = self.counts.get("children", 0) + 1
            # a child may change everything but the output buffer and the flags
            fixed = {self.so["st_bf"], self.so["st_flags"]}
            for k in [k for k in q.mem if k[0] == ST and k[1] not in fixed]:
                del q.mem[k]
            k = (ST, self.so["st_mute"])
            q.mem[k] = (("s", ("F", "mute1")), ("struct.doc_state", self.so["st_mute"]))
            return [dict(base=q, auto=q.auto, havoc=False)]
        if name in TRACES:
            return "skip"
        bf = args[0] if args else None
        if name == "buffer_get_ptr":
            return [dict(ret=("s", "BUF"), havoc=False)]
        if name == "buffer_get_len":
            return [dict(ret=("s", ("BL", 0)), havoc=False)]
        if name in ("buffer_puts", "buffer_putc"):
            if bf != ("s", "BF"):
                self.bad("other-output", ins, st, "prints into something else than the output buffer")
            q = st.copy()
            self.newlen(eng, q)
            if name == "buffer_putc":
                s = chr(args[1][1] & 0xff) if args[1][0] == "i" else None
            else:
                s = cstr(self.prog, ins.fn.tu, args[1])
                if s is not None:
                    if args[2][0] == "i" and args[2][1] <= len(s):
                        s = s[:args[2][1]]
                    else:
                        s = None
            if name == "buffer_puts" and args[1] == ("s", "STR"):
                if eng.decide(st, "eq", args[2], ("s", "LEN")) is not True and \
                   not (args[2][0] == "i" and eng.decide(st, "eq", ("s", "LEN"), args[2]) is True):
                    self.bad("text-cut", ins, st, "the text of %s is not printed in full" % self.kindname)
                self.counts["texts"] = self.counts.get("texts", 0) + 1
                if self.kindname == "DOC_VERBATIM" and self.block(eng, st) is not False and not self.linestart(eng, st):
                    self.bad("line-start", ins, st, "a directive or comment including its line break may not start on a line of its own")
                q.auto = (cur, min(texts + 1, 2), nl, blanks, saved, lost)
            elif name == "buffer_puts" and args[1][0] == "s" and isinstance(args[1][1], tuple) and args[1][1][0] == "SAVE":
                if saved is None or args[2] != ("s", ("SAVELEN",)):
                    self.bad("restore-cut", ins, st, "the output saved before trying a layout is not restored in full")
                elif lost is None:
                    self.bad("restore-twice", ins, st, "output is restored without being reset")
                else:
                    q.auto = saved[:4] + (saved, None)
            elif s is not None and set(s) <= BLANKS:
                q.auto = (cur, texts, min(nl + s.count("\n"), 2), 1, saved, lost)
                if s.endswith("\n"):
                    q.facts[("s", ("BYTE", 1))] = (10, 10, frozenset())
            else:
                self.bad("foreign-text", ins, st, "rendering %s prints something that is neither its text nor blanks"
                         % self.kindname)
            return [dict(base=q, ret=("s", "self"), auto=q.auto, havoc=False)]
        if name in ("buffer_printf", "buffer_vprintf") and bf == ("s", "BF"):
            self.bad("foreign-text", ins, st, "rendering prints formatted text")
            return "skip"
        if name == "strindent_buffer":
            q = st.copy()
            self.newlen(eng, q)
            return [dict(base=q, ret=("s", "self"), havoc=False)]
        if name == "buffer_pop":
            if args[1][0] != "i":
                self.counts["undecided_pops"] = self.counts.get("undecided_pops", 0) + 1
                q = st.copy()
                self.newlen(eng, q)
                return [dict(base=q, ret=("s", "self"), havoc=False)]
            n = args[1][1]
            self.counts["pops"] = self.counts.get("pops", 0) + 1
            for k in range(1, n + 1):
                self.res.obligations += 1
                if not self.blank(eng, st, k):
                    self.bad("text-trimmed", ins, st, "removes a character from the output that is not known to be a "
                             "trailing blank")
                    break
            q = st.copy()
            self.shift(eng, q, n)
            return [dict(base=q, ret=("i", n), havoc=False)]
        if name == "buffer_reset":
            q = st.copy()
            self.newlen(eng, q)
            return [dict(base=q, auto=(cur, texts, nl, blanks, saved, "reset"), havoc=False)]
        if name in ("arena_malloc", "malloc", "arena_strndup", "arena_calloc"):
            if args[-1] == ("s", ("BL", 0)):
                if name == "arena_strndup" and args[1] == ("s", "BUF"):
                    return self.save(st)
                return [dict(ret=("s", ("SAVE",)), havoc=False)]
            return [dict(ret=("s", "self"), havoc=False)]
        return None

    def save(self, st):
        q = st.copy()
        self.markold(q)
        return [dict(base=q, ret=("s", ("SAVE",)), auto=q.auto[:4] + (q.auto[:4], None), havoc=False)]

    def memcpy_hook(self, eng, st, args):
        """the output is copied aside"""
        if args[0] == ("s", ("SAVE",)) and args[1] == ("s", "BUF") and args[2] == ("s", ("BL", 0)):
            self.markold(st)
            st.auto = st.auto[:4] + (st.auto[:4], None)

    def markold(self, st):
        # the length saved
        for k, v in list(st.mem.items()):
            if v[0] == ("s", ("BL", 0)):
                st.mem[k] = (("s", ("SAVELEN",)), v[1])

    def block(self, eng, st):
        """is the text known to be a line, or not to be one"""
        a = eng.decide(st, "ugt", ("s", "LEN"), ("i", 1))
        b = eng.decide(st, "eq", ("s", ("CH", "last")), ("i", 10))
        if a is False or b is False:
            return False
        return True if a and b else None

    def linestart(self, eng, st):
        if st.facts.get(("s", ("BYTE", 1)), (None,))[:2] == (10, 10):
            return True
        if eng.decide(st, "eq", ("s", ("BL", 0)), ("i", 0)) is True:
            return True
        # line breaks are left out only after others
        return eng.decide(st, "uge", ("s", ("F", "st_nlines")), ("s", ("F", "st_maxlines"))) is True

    def blank(self, eng, st, k):
        b = ("s", ("BYTE", k))
        lo, hi, ex = st.facts.get(b, (None, None, frozenset()))
        if lo is None or lo != hi:
            return False
        if lo in (32, 9):
            return True
        if lo == 10:
            f = st.facts.get(("s", ("BYTE", k + 1)))
            return f is not None and f[0] == f[1] == 10
        return False

    def newlen(self, eng, st):
        """the output changed: what is known about its end is void"""
        self.retag(eng, st, lambda k: None)

    def shift(self, eng, st, n):
        self.retag(eng, st, lambda k: k - n if -4 <= k - n else None)

    def retag(self, eng, st, f):
        syms = set()
        from absint import walk_syms
        for v in st.env.values():
            walk_syms(v, syms)
        for (b, _), v in st.mem.items():
            walk_syms(b, syms)
            if v[0] is not None:
                walk_syms(v[0], syms)
        for k in st.facts:
            walk_syms(k, syms)
        todo = sorted((s for s in syms if isinstance(s, tuple) and s and s[0] in ("BL", "BYTE")), key=lambda s: s[1])
        for s in todo:
            k = f(s[1])
            if k is None or (s[0] == "BYTE" and k < 1):
                eng.forget_facts(st, s)
                eng.rename(st, s, ("stale", s[0]))
                eng.forget_facts(st, ("stale", s[0]))
            else:
                eng.rename(st, s, (s[0], k))

    def exec(self, eng, ins, args, st):
        cur, texts, nl, blanks, saved, lost = st.auto
        a = args[0]
        if args[1] != ("s", "ST"):
            self.bad("other-state", ins, st, "renders a child with another state")
        m = st.mem.get((("S", "ST"), self.so["st_mute"]))
        if self.one and m is not None and m[0] == ("s", ("F", "mute1")):
            self.bad("mute-leak", ins, st, "a layout is tried with the muting another try left behind")
        if a == ("s", "C0"):
            if cur != "":
                self.bad("child-twice", ins, st, "%s renders a child twice" % self.kindname)
            st.auto = ("C0", texts, nl, blanks, saved, lost)
        elif a == ("s", "NX"):
            eng.forget_facts(st, "OLD")
            eng.rename(st, "CU", "OLD")
            eng.forget_facts(st, "OLD")
            eng.rename(st, "NX", "CU")
            eng.rename(st, "NN", "NX")
            st.auto = ("CU", texts, nl, blanks, saved, lost)
        elif a in (("s", "CU"), ("s", "OLD")):
            self.bad("child-twice", ins, st, "%s renders a child twice" % self.kindname)
        else:
            self.bad("child-unknown", ins, st, "%s renders something that is not the next of its children" % self.kindname)


PRINTS = {"buffer_puts", "buffer_putc", "buffer_printf", "buffer_vprintf", "buffer_pop", "buffer_reset",
          "strindent_buffer", EXEC}
COPIES = {"arena_strndup", "memcpy", "arena_malloc"}
TRACES = {"doc_trace_impl", "doc_trace_enter_impl", "doc_trace_leave_impl"}
_clos = {}


def called(f):
    return {c.callee[1] for c in f.calls() if c.callee[0] == "g"}


def closure(prog, fn, stop=()):
    k = (fn, tuple(sorted(stop)))
    if k not in _clos:
        out, work = set(), [fn]
        while work:
            f = work.pop()
            if f in out:
                continue
            out.add(f)
            for n in called(f):
                t = prog.resolve(f.tu, n)
                if t is not None and n not in stop:
                    work.append(t)
        _clos[k] = out
    return _clos[k]


def render(prog, res, prop):
    fn = prog.need(EXEC, FILE)
    tu = fn.tu
    o = offs(prog, "doc", ["dc_type", "dc_doc", "dc_tk", "dc_list.tqh_first", "dc_str", "dc_len", "dc_int",
                           "list_entry.tqe_next"], FILE)
    dst = tu.di_struct("doc_state")
    so = {n: off // 8 for off, _, n, _, _ in dst}
    for n in ("st_bf", "st_mute", "st_flags", "st_nlines", "st_maxlines", "st_newline"):
        if n not in so:
            raise AnalysisError("struct doc_state has no member %s" % n)
    kinds = tu.enum_members("doc_type")
    res.floor("document_kinds", len(kinds), 10)
    g = tu.globals.get("doc_descriptions")
    if g is None:
        raise AnalysisError("doc_descriptions not found")
    esz = tu.sizeof(g[0][2])
    childoff = 8
    total = {}
    for name, kind in sorted(kinds.items(), key=lambda x: x[1]):
        bits = const_byte(tu, "doc_descriptions", kind * esz + childoff)
        many, one, token = bits & 1, bits & 2, bits & 4
        modes = [(0, None)]
        if name in ("DOC_MUTE", "DOC_UNMUTE"):
            modes = [(m, v) for m in (0, 1, 2) for v in (1, -1)]
        else:
            modes = [(0, None), (1, None)]
        for mute, ival in modes:
            c = Render(prog, res, prop, kind, o, so, mute, ival)
            c.kindname, c.one, c.isstr = name, bool(one), bool(token)
            if one:
                c.merge_at = 12
            mem = {}
            S = ("S", "ST")
            for off, size, n, bf, sub in dst:
                if sub or n == "":
                    continue
                v = ("s", ("F", n))
                if n == "st_bf":
                    v = ("s", "BF")
                elif n == "st_flags":
                    v = ("i", 0)
                elif n == "st_mute":
                    v = ("i", mute)
                mem[(S, off // 8)] = (v, ("struct.doc_state", off // 8))
            facts = {}
            eng = Engine(prog, c)
            outs = eng.run(fn, [("s", "DC"), ("s", "ST")], State({}, mem, facts, ("", 0, 0, 0, None, None)))
            res.count("rendering_paths", len(outs))
            for k, v in c.counts.items():
                total[k] = total.get(k, 0) + v
            judge(prog, res, prop, eng, fn, c, outs, name, many, one, token, mute, ival)
    for k, v in total.items():
        res.cov["events_" + k] = v
    res.floor("events_children", total.get("children", 0), 8)
    res.floor("events_texts", total.get("texts", 0), 2)


def minus_one(v):
    """LEN - 1"""
    if v[0] != "b" or v[2] != ("s", "LEN") or v[3][0] != "i":
        return False
    return v[1] == "sub" and v[3][1] == 1 or v[1] == "add" and v[3][1] in (-1, (1 << 64) - 1)


def judge(prog, res, prop, eng, fn, c, outs, name, many, one, token, mute, ival):
    so = c.so
    import ir
    c99 = ir.macro("token.h", "TOKEN_FLAG_COMMENT_C99")

    def bad(rule, q, msg):
        res.violate(prop, rule, "%s:%s (%s)" % (fn.tu.short, fn.line, fn.name), msg, q.trace_list(), "%s %s" % (name, rule))
    if not outs:
        bad("no-render", State({}, {}, {}, None), "rendering %s never returns" % name)
    for rv, q in outs:
        res.obligations += 1
        cur, texts, nl, blanks, saved, lost = q.auto
        if lost is not None:
            bad("output-lost", q, "%s resets the output without restoring it" % name)
        if many:
            exp = "C0" if cur == "" else "NX"
            if eng.decide(q, "eq", ("s", exp), ("i", 0)) is not True:
                bad("child-lost", q, "%s may leave out a child" % name)
        elif one:
            if cur == "":
                bad("child-lost", q, "%s may leave out its child" % name)
        elif cur != "":
            bad("child-unknown", q, "%s renders a child it does not have" % name)
        if token:
            if mute:
                if texts:
                    bad("text-muted", q, "the text of %s is printed although the output is muted" % name)
            elif texts == 0:
                if not (eng.decide(q, "eq", ("s", "LEN"), ("i", 1)) is True and
                        (eng.decide(q, "eq", ("s", ("CH", 0)), ("i", 10)) is True or
                         eng.decide(q, "eq", ("s", ("CH", 0)), ("i", 32)) is True)):
                    bad("text-lost", q, "the text of %s may not be printed" % name)
            elif texts > 1:
                bad("text-twice", q, "the text of %s may be printed twice" % name)
        elif texts:
            bad("text-unknown", q, "%s prints a text" % name)
        S = ("S", "ST")
        if name == "DOC_VERBATIM" and texts and c.block(eng, q) is not True:
            v = q.mem.get((S, so["st_newline"]))
            if not (v is not None and eng.decide(q, "ne", v[0], ("i", 0)) is True) and \
               eng.decide(q, "eq", ("s", "TKP"), ("i", 0)) is not True and \
               eng.decide(q, "eq", ("b", "and", ("s", ("TKFL",)), ("i", c99)), ("i", 0)) is not True:
                bad("comment-open", q, "text may follow a C99 comment on the same line")
        if name in ("DOC_LINE", "DOC_HARDLINE") and not mute:
            full = eng.decide(q, "uge", ("s", ("F", "st_nlines")), ("s", ("F", "st_maxlines"))) is True
            v = q.mem.get((S, so["st_newline"]))
            pend = v is not None and eng.decide(q, "ne", v[0], ("i", 0)) is True
            if name == "DOC_HARDLINE" and not (nl or full):
                bad("break-lost", q, "a hard line break may be left out")
            if name == "DOC_LINE" and not (blanks or full or pend):
                bad("break-lost", q, "a line break or blank between two texts may be left out")
        if ival is not None:
            v = q.mem.get((S, so["st_mute"]))
            want = mute + ival if (ival > 0 or mute >= -ival) else mute
            if v is None or v[0] != ("i", want):
                bad("mute-count", q, "%s by %d while muted %d times does not give %d" % (name, ival, mute, want))


# ------------------------------------------------------------ whole documents

class Root(Render):
    """doc_exec(): the document given is rendered once into the buffer given"""
    kindname, one, isstr = "the document", False, False
    roots = Render.roots + ("ARG",)

    def __init__(self, prog, res, prop, o, so):
        Render.__init__(self, prog, res, prop, -1, o, so)
        self.fn = prog.need("doc_exec", FILE)

    def stbase(self, v):
        return v[1] if v is not None and v[0] == "p" else None

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0] == ("S", "DC"):
            return None
        return Render.load(self, eng, ins, ptr, st, ctx)

    def store(self, eng, ins, val, ptr, st, ctx):
        pass

    def exec(self, eng, ins, args, st):
        if args[0] != ("s", "DC"):
            self.bad("child-unknown", ins, st, "renders something else than the document given")
        if st.auto[0] != "":
            self.bad("child-twice", ins, st, "the document is rendered twice")
        b = self.stbase(args[1])

        def get(n):
            v = st.mem.get((b, self.so[n]))
            if v is None:
                v = st.mem.get((b, "*"))
            return v[0] if v is not None else None
        if get("st_bf") != ("s", "BF"):
            self.bad("other-output", ins, st, "the document is not rendered into the buffer given")
        if get("st_mute") != ("i", 0):
            self.bad("mute-leak", ins, st, "rendering starts muted")
        m = get("st_maxlines")
        if m is None or m[0] != "i" or m[1] < 1:
            self.bad("break-lost", ins, st, "rendering starts with line breaks forbidden")
        st.auto = ("DC",) + st.auto[1:]


def root(prog, res, prop, o, so):
    fn = prog.need("doc_exec", FILE)
    ao = offs(prog, "doc_exec_arg", ["bf", "dc", "flags"], FILE)
    import ir
    trim = ir.macro("doc.h", "DOC_EXEC_TRIM")
    for flags in (0, trim):
        c = Root(prog, res, prop, o, so)
        A = ("S", "ARG")
        mem = {(A, ao["bf"]): (("s", "BF"), None), (A, ao["dc"]): (("s", "DC"), None), (A, ao["flags"]): (("i", flags), None)}
        eng = Engine(prog, c)
        outs = eng.run(fn, [("s", "ARG")], State({}, mem, {}, ("", 0, 0, 0, None, None)))
        res.count("rendering_paths", len(outs))
        for rv, q in outs:
            res.obligations += 1
            if q.auto[0] != "DC":
                res.violate(prop, "child-lost", "%s:%s (%s)" % (fn.tu.short, fn.line, fn.name),
                            "the document may not be rendered at all", q.trace_list(), "root")


class Make(Client):
    """construction of nodes"""
    max_states = 20000
    max_inline = 6
    roots = ("PARENT", "N", "TK")

    def __init__(self, prog):
        self.prog = prog
        self.tu = prog.need(EXEC, FILE).tu

    def never_null(self, sid):
        return sid in ("PARENT", "N", "TK")

    def distinct(self, b):
        return b == ("S", "N")

    def relevant(self, fn):
        return fn.tu.short == FILE

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0][0] == "G" and l[1] is not None and ins.ty == "i8":
            v = const_byte(ins.fn.tu, l[0][2], l[1])
            if v is not None:
                return ("i", v)
        return None

    def call(self, eng, ins, name, args, st, ctx):
        if name in ("arena_calloc", "arena_malloc"):
            return [dict(ret=("s", "N"), havoc=False, rawmem=[((("S", "N"), "*"), (("i", 0), None))])]
        if name == "strlen":
            return [dict(ret=("s", ("strlen",) + tuple(args)), havoc=False)]
        if name in ("arena_cleanup", "token_ref"):
            return [dict(ret=args[0], havoc=False)]
        return None


def construct(prog, res, prop, o):
    tu = prog.need(EXEC, FILE).tu
    kinds = tu.enum_members("doc_type")
    d = {n: off // 8 for off, _, n, _, _ in tu.di_struct("doc")}
    to = offs(prog, "token", ["tk_str", "tk_len"])
    N, PA = ("S", "N"), ("S", "PARENT")

    def linked(q, what):
        def get(b, off):
            v = q.mem.get((b, off)) or q.mem.get((b, "*"))
            return v[0] if v is not None else None
        last = ("p", what, d["list_entry.tqe_next"])
        if get(PA, d["dc_doc"]) == ("s", what[1]) and get(PA, d["dc_list.tqh_last"]) != last:
            return True
        slot = q.mem.get((("S", "LAST"), 0))
        return slot is not None and slot[0] == ("s", what[1]) and get(PA, d["dc_list.tqh_last"]) == last and \
            get(what, d["list_entry.tqe_next"]) == ("i", 0)

    def run(name, args, judge, mem=None):
        fn = prog.need(name, FILE)
        c = Make(prog)
        eng = Engine(prog, c)
        m = {(PA, d["dc_list.tqh_last"]): (("s", "LAST"), ("struct.doc_list", 8))}
        m.update(mem or {})
        c.roots = c.roots + ("LAST", "D")
        outs = eng.run(fn, args, State({}, m, {}, None))
        res.count("construction_paths", len(outs))
        if not outs:
            res.violate(prop, "node-lost", "%s:%s (%s)" % (fn.tu.short, fn.line, name), "never returns", (), name)
        for rv, q in outs:
            res.obligations += 1
            msg = judge(rv, q)
            if msg:
                res.violate(prop, "node-built", "%s:%s (%s)" % (fn.tu.short, fn.line, name), msg, q.trace_list(),
                            "%s %s" % (name, msg))

    def val(q, b, off):
        v = q.mem.get((b, off)) or q.mem.get((b, "*"))
        return v[0] if v is not None else None

    run("doc_append", [("s", "D"), ("s", "PARENT")],
        lambda rv, q: None if linked(q, ("S", "D")) else "the node is not added at the end of its parent")

    def alloc(kind):
        def j(rv, q):
            if rv != ("s", "N"):
                return "returns something else than the node built"
            if val(q, N, d["dc_type"]) != ("i", kind):
                return "the node has another kind than asked for"
            if not linked(q, N):
                return "the node is not added at the end of its parent"
            return None
        return j
    for name, kind in sorted(kinds.items()):
        run("doc_alloc_impl", [("i", kind), ("s", "PARENT"), ("s", "VAL"), ("s", "FUN"), ("s", "LNO")], alloc(kind))
    strl = [(n, kinds[n]) for n in ("DOC_LITERAL", "DOC_VERBATIM")]
    for name, kind in strl:
        def j(rv, q, kind=kind):
            m = alloc(kind)(rv, q)
            if m:
                return m
            if val(q, N, d["dc_tk"]) != ("s", "TK"):
                return "the node does not refer to its token"
            if val(q, N, d["dc_str"]) != ("s", "TKSTR") or val(q, N, d["dc_len"]) != ("s", "TKLEN"):
                return "the text of the node is not the text of its token"
            return None
        T = ("S", "TK")
        run("doc_token", [("s", "TK"), ("s", "PARENT"), ("i", kind), ("s", "FUN"), ("s", "LNO")], j,
            {(T, to["tk_str"]): (("s", "TKSTR"), None), (T, to["tk_len"]): (("s", "TKLEN"), None)})

    def lit(rv, q):
        m = alloc(kinds["DOC_LITERAL"])(rv, q)
        if m:
            return m
        if val(q, N, d["dc_str"]) != ("s", "LIT") or val(q, N, d["dc_len"]) != ("s", ("strlen", ("s", "LIT"))):
            return "the text of the node is not the string given"
        return None
    run("doc_literal_impl", [("s", "LIT"), ("s", "PARENT"), ("s", "FUN"), ("s", "LNO")], lit)


class Blanks(Client):
    """a function that prints blanks only"""
    max_states = 5000

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop

    def call(self, eng, ins, name, args, st, ctx):
        s = None
        if name == "buffer_putc" and args[1][0] == "i":
            s = chr(args[1][1] & 0xff)
        elif name == "buffer_puts":
            s = cstr(self.prog, ins.fn.tu, args[1])
        elif name not in ("buffer_printf", "buffer_putc", "buffer_vprintf", "buffer_reset", "buffer_pop"):
            return None
        self.res.obligations += 1
        self.res.count("blanks_printed")
        if s is None or not set(s) <= {" ", "\t"}:
            self.res.violate(self.prop, "foreign-text", "%s (%s)" % (ins.where, ins.fn.name),
                             "indentation prints something else than blanks", st.trace_list(), "indent")
        return [dict(ret=("s", "self"), havoc=False)]


def blanks(prog, res, prop):
    fn = prog.need("strindent_buffer")
    c = Blanks(prog, res, prop)
    Engine(prog, c).run(fn, args_of(fn), State({}, {}, {}, None))
    res.floor("blanks_printed", res.cov.get("blanks_printed", 0), 1)


def p14(prog, res, prop):
    import contracts
    render(prog, res, prop)
    tu = prog.need(EXEC, FILE).tu
    o = offs(prog, "doc", ["dc_type", "dc_doc", "dc_str", "dc_len", "dc_int", "list_entry.tqe_next"], FILE)
    so = {n: off // 8 for off, _, n, _, _ in tu.di_struct("doc_state")}
    root(prog, res, prop, o, so)
    construct(prog, res, prop, o)
    blanks(prog, res, prop)
    contracts.buffer_puts(prog, res, prop)
    contracts.buffer_pop(prog, res, prop)
