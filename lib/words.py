"""P19: what is done to the text of comments and macros changes blanks only."""
from absint import Client, Engine, State
from contracts import field
from conserve import enum_value
from ir import AnalysisError
from seg import ALL, BLANKS, BSL, NLC, Fork, Seg, SegEngine, is_, pos
from docs import cstr

OUT = ("buffer_", "strindent_buffer", "doc_", "ruler_insert")


class Words(Seg):
    """auto = (segments, put out up to, blank put in here, at the start of a line in the output, state of the result)

    state of the result: (kind, root document, current document): kind is "none", "buf" (being filled), "junk",
    "empty", "done".
    """
    roots = ("TK", "STY", "SC", "SCR", "OP")

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        self.to = {n: field(prog, "token", n) for n in ("tk_str", "tk_len", "tk_type", "tk_flags")}
        self.HARD = enum_value(prog, "DOC_HARDLINE")
        self.CONCAT = enum_value(prog, "DOC_CONCAT")
        self.events = 0
        self.rel = {}

    def relevant(self, fn):
        """delivers a part of the text or puts something out; the rest only decides about the layout"""
        if fn.tu.short not in ("comment.c", "cpp-align.c"):
            return False
        if fn not in self.rel:
            self.rel[fn] = False
            ps = {n for n, _ in fn.params}
            self.rel[fn] = fn.retty in ("ptr", "i64") or any(
                i.op == "store" and i.ty in ("ptr", "i64") and i.args[1][0] == "l" and i.args[1][1] in ps for i in fn.instrs()) or any(
                i.callee[0] == "g" and (i.callee[1].startswith(OUT) or (t := self.prog.resolve(fn.tu, i.callee[1])) is not None and
                                        self.relevant(t)) for i in fn.calls())
        return self.rel[fn]

    # ------------------------------------------------------------------ output
    def skip_blanks(self, st, to=None):
        """positions from what was put out over blanks; returns (position, whether blanks may lie in between)"""
        p = st.auto[1]
        some = False
        while p < len(self.segs(st)) and (to is None or p < to) and self.chars(st, p) <= BLANKS:
            some = True
            p += 1
        return p, some

    def set(self, st, p, ins, bol, res=None):
        st.auto = (st.auto[0], p, ins, bol, st.auto[4] if res is None else res)

    def seam(self, ins, st, some, nl):
        """blanks of the text were dropped (some) or put in between what was put out before and what comes now"""
        _, p, put, bol, _ = st.auto
        if nl or bol:
            return
        if some and not put:
            self.bad("blank-lost", ins, st, "blanks between words of a comment or macro are dropped")
        if put and not some and p > 0 and p < len(self.segs(st)):
            nxt = self.chars(st, p)
            prv = self.chars(st, p - 1)
            if not nxt <= BLANKS | {NLC, BSL} and not prv <= BLANKS | {NLC}:
                self.bad("word-cut", ins, st, "blanks are put in the middle of the text of a comment or macro")

    def put_range(self, ins, st, i, j):
        self.events += 1
        self.res.obligations += 1
        if i == j:
            return
        if i < st.auto[1]:
            return self.bad("text-repeated", ins, st, "text of a comment or macro is put out again")
        p, some = self.skip_blanks(st, i)
        if p < i:
            if self.segs(st)[p][1] == "*":
                self.some(st, p)
            return self.bad("text-lost", ins, st, "text of a comment or macro is not put out")
        self.seam(ins, st, some, False)
        # ends in a newline?
        e = self.chars(st, j - 1)
        self.set(st, j, False, e == {NLC} and self.segs(st)[j - 1][1] == "1")

    def put_byte(self, ins, st, c):
        self.events += 1
        if c in BLANKS:
            self.set(st, st.auto[1], True, st.auto[3])
            return
        self.res.obligations += 1
        p, some = self.skip_blanks(st)
        if p < len(self.segs(st)):
            cs = self.chars(st, p)
            if self.segs(st)[p][1] == "1":
                if c in cs and cs & BLANKS:
                    a, b = st.copy(), st.copy()
                    self.narrow(a, p, BLANKS)
                    self.narrow(b, p, ALL - BLANKS)
                    raise Fork([a, b])
            elif cs == {c}:
                self.first(st, p)
            # anything else may start with another byte
        if p >= len(self.segs(st)) or self.chars(st, p) != {c}:
            what = "text of a comment or macro is not put out" if p < len(self.segs(st)) else "text is put in"
            return self.bad("text-lost" if p < len(self.segs(st)) else "text-added", ins, st,
                            what + " where %r is written" % chr(c))
        self.seam(ins, st, some, c == NLC)
        self.set(st, p + 1, False, c == NLC)

    def put_text(self, ins, st, v, what):
        """v: pointer to constant, copy of part of the text"""
        if is_(v, "T"):
            self.put_range(ins, st, v[1][1][1], v[1][2][1])
            return
        s = cstr(self.prog, ins.fn.tu, v)
        if s is None:
            raise AnalysisError("%s: text not understood" % ins.where)
        q = st.copy()
        for ch in (s if isinstance(s, bytes) else s.encode("latin1")):
            self.put_byte(ins, q, ch)
        st.env, st.mem, st.facts, st.auto = q.env, q.mem, q.facts, q.auto

    # ------------------------------------------------------------------- calls
    def call(self, eng, ins, name, args, st, ctx):
        r = super().call(eng, ins, name, args, st, ctx)
        if r is not None:
            return r
        keep = dict(havoc=False)
        kind, root, cur = st.auto[4]
        if name in ("arena_buffer_alloc",):
            if kind != "none":
                raise AnalysisError("%s: second buffer" % ins.where)
            self.set(st, st.auto[1], st.auto[2], st.auto[3], ("buf", root, cur))
            return [dict(ret=("s", ("BUF", 0)), havoc=False)]
        if name in ("buffer_puts", "buffer_putc", "strindent_buffer", "buffer_reset"):
            if args[0] != ("s", ("BUF", 0)):
                raise AnalysisError("%s: buffer not understood" % ins.where)
            q = st.copy()
            if name == "buffer_reset":
                if q.auto[1] or root is None and kind == "buf" and self.wrote(q):
                    if root is None:
                        self.bad("text-lost", ins, q, "what was put out so far is dropped")
                self.set(q, q.auto[1], q.auto[2], q.auto[3], ("empty" if root is not None else kind, root, cur))
            elif root is not None:
                self.set(q, q.auto[1], q.auto[2], q.auto[3], ("junk", root, cur))
            elif name == "strindent_buffer":
                self.put_byte(ins, q, 32)
            elif name == "buffer_putc":
                if args[1][0] != "i":
                    b = args[1]
                    if is_(b, "B"):
                        self.put_range(ins, q, b[1][1], b[1][1] + 1)
                        return [dict(base=q, havoc=False)]
                    raise AnalysisError("%s: byte not understood" % ins.where)
                self.put_byte(ins, q, args[1][1] & 255)
            elif is_(args[1], "P"):
                j = self.at(q, args[1][1][1], args[2])
                if j is None or j < 0:
                    raise AnalysisError("%s: length not understood" % ins.where)
                self.put_range(ins, q, args[1][1][1], j)
            else:
                s = cstr(self.prog, ins.fn.tu, args[1])
                if s is None or args[2][0] != "i":
                    raise AnalysisError("%s: text not understood" % ins.where)
                for ch in (s if isinstance(s, bytes) else s.encode("latin1"))[:args[2][1]]:
                    self.put_byte(ins, q, ch)
            return [dict(base=q, havoc=False)]
        if name == "arena_strndup" and is_(args[1], "P"):
            j = self.at(st, args[1][1][1], args[2])
            if j is None or j < 0:
                raise AnalysisError("%s: length not understood" % ins.where)
            return [dict(base=st, ret=("s", ("T", ("P", args[1][1][1]), ("P", j))), havoc=False)]
        if name is not None and name.startswith("doc_root"):
            self.set(st, st.auto[1], st.auto[2], st.auto[3], (kind, "R", "R"))
            return [dict(ret=("s", ("DOC", "R")), havoc=False)]
        if name is not None and name.startswith(("doc_alloc", "doc_literal")):
            q = st.copy()
            parent = args[1]
            if not is_(parent, "DOC"):
                raise AnalysisError("%s: document not understood" % ins.where)
            if parent[1][1] != "R" and cur != parent[1][1]:
                self.bad("text-order", ins, q, "put into a document that is not the last one")
            if parent[1][1] == "R":
                self.set(q, q.auto[1], q.auto[2], q.auto[3], (kind, root, "R"))
            if name.startswith("doc_literal"):
                self.put_text(ins, q, args[0], "literal")
                return [dict(base=q, havoc=False)]
            if args[0] == ("i", self.HARD):
                self.put_byte(ins, q, NLC)
                return [dict(base=q, havoc=False)]
            if args[0] != ("i", self.CONCAT):
                raise AnalysisError("%s: document not understood" % ins.where)
            self.set(q, q.auto[1], q.auto[2], q.auto[3], (kind, root, "C" if parent[1][1] == "R" else cur))
            return [dict(base=q, ret=("s", ("DOC", "C")), havoc=False)]
        if name is not None and name.startswith("ruler_insert"):
            q = st.copy()
            if is_(args[2], "DOC") and args[2][1][1] not in ("R", cur):
                self.bad("text-order", ins, q, "put into a document that is not the last one")
            self.put_byte(ins, q, 32)
            return [dict(base=q, havoc=False)]
        if name in ("doc_width", "doc_exec"):
            q = st.copy()
            k = "junk"
            if name == "doc_exec":
                v = self.arg_doc(eng, q, args[0])
                if v == ("s", ("DOC", "R")) and kind == "empty":
                    k = "done"
            self.set(q, q.auto[1], q.auto[2], q.auto[3], (k, root, cur))
            return [dict(base=q, havoc=False)]
        t = self.prog.resolve(ins.fn.tu, name) if name else None
        if t is not None and self.relevant(t):
            return None
        if any(a in (("s", ("BUF", 0)),) or is_(a, "DOC") for a in args):
            raise AnalysisError("%s: %s() not understood" % (ins.where, name))
        saved = [(k, v) for k, v in st.mem.items() if k[0] == ("S", "TK")]
        return [dict(rawmem=saved)]

    def wrote(self, st):
        return st.auto[1] > 0 or st.auto[2]

    def arg_doc(self, eng, st, p):
        l = eng.loc(p)
        if l is None:
            return None
        o = field(self.prog, "doc_exec_arg", "dc")
        v = st.mem.get((l[0], l[1] + o))
        return v[0] if v else None

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l and l[0] == ("S", "TK"):
            self.bad("text-changed", ins, st, "the token itself is changed")
        if is_(ptr, "P"):
            self.bad("text-changed", ins, st, "the source is changed")


def words(prog, res, prop):
    n = 0
    for name, file in (("comment_trim", "comment.c"), ("cpp_align", "cpp-align.c")):
        fn = prog.need(name, file)
        ty = {"struct.token": "TK", "struct.style": "STY", "struct.arena_scope": "SC", "struct.arena": "SCR",
              "struct.options": "OP"}
        names = ["TK", "STY", "SC", "SCR", "OP"][:len(fn.params)]
        for segs in ((), ((ALL, "+"),)):
            c = Words(prog, res, prop)
            eng = SegEngine(prog, c)
            mem = {(("S", "TK"), c.to["tk_str"]): (pos(0), ("struct.token", c.to["tk_str"])),
                   (("S", "TK"), c.to["tk_len"]): (c.mkL((0,) if segs else (), 0), ("struct.token", c.to["tk_len"]))}
            st = State({}, mem, {}, (segs, 0, False, True, ("none", None, None)))
            outs = eng.run(fn, [("s", a) for a in names], st)
            n += len(outs)
            for rv, q in outs:
                res.obligations += 1
                r = [i for b in fn.blocks.values() for i in b.instrs if i.op == "ret"][0]
                if rv is None or rv == ("i", 0) or rv[0] == "n":
                    continue
                if rv != ("s", ("BUF", 0)):
                    raise AnalysisError("%s: result not understood" % name)
                kind, root, cur = q.auto[4]
                if root is not None and kind != "done":
                    c.bad("text-lost", r, q, "the buffer returned does not hold what was put together")
                p, _ = c.skip_blanks(q)
                if any(k != "*" or True for _, k in c.segs(q)[p:]):
                    c.bad("text-lost", r, q, "text up to the end of the comment or macro is not put out")
            res.count("states_" + name, eng.nstates)
            res.count("events_" + name, c.events)
    return n


class Replace(Client):
    """where the text of a token is replaced"""
    max_states = 200000
    track_heap = True

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        self.to = {n: field(prog, "token", n) for n in ("tk_str", "tk_len")}
        self.sites = 0

    def never_null(self, sid):
        return isinstance(sid, tuple) and sid and sid[0] in ("NEW", "TOK")

    def relevant(self, fn):
        return False

    def load(self, eng, ins, ptr, st, ctx):
        t = eng.tag(ins.fn, ins.args[0], ins.ty)
        l = eng.loc(ptr)
        if l and t in (("struct.token", self.to["tk_str"]), ("struct.token", self.to["tk_len"])):
            return ("s", ("STR" if t[1] == self.to["tk_str"] else "LEN", (l[0], l[1] - t[1])))
        return None

    def put(self, st, b, what):
        st.auto = tuple((k, v + (what,)) if k == b else (k, v) for k, v in st.auto)

    def call(self, eng, ins, name, args, st, ctx):
        if name in ("comment_trim", "cpp_align"):
            sid = ("s", ("NEW", ins.bb.name, ins.idx))
            one = tuple(x for x in st.auto if x[0] != sid) + ((sid, (eng.loc(args[0]),)),)
            return [dict(ret=("i", 0), havoc=False), dict(ret=sid, auto=one, havoc=False)]
        if name in ("arena_buffer_alloc", "buffer_alloc"):
            sid = ("s", ("NEW", ins.bb.name, ins.idx))
            return [dict(ret=sid, auto=tuple(x for x in st.auto if x[0] != sid) + ((sid, ()),), havoc=False)]
        if name in ("buffer_puts",):
            q = st.copy()
            p, n = args[1], args[2]
            ok = is_(p, "STR") and is_(n, "LEN") and p[1][1] == n[1][1]
            self.put(q, args[0], p[1][1] if ok else "?")
            return [dict(base=q, havoc=False)]
        if name in ("buffer_get_ptr", "buffer_get_len", "buffer_str", "buffer_release"):
            return [dict(ret=("s", (name[-3:], args[0])), havoc=False)]
        if name == "token_set_str":
            self.sites += 1
            self.res.obligations += 1
            tk, p, n = eng.loc(args[0]), args[1], args[2]
            got = dict(st.auto)
            ok = is_(p, "ptr") and is_(n, "len") and p[1][1] == n[1][1] and p[1][1] in got
            text = got.get(p[1][1]) if ok else None
            if not ok or "?" in text or not text or text[0] != tk or len(set(text)) != len(text):
                self.res.violate(self.prop, "other-text", "%s (%s)" % (ins.where, ins.fn.name),
                                 "the text of a token is replaced by one that does not stem from it", st.trace_list(),
                                 "%s other-text" % ins.fn.name)
            return [dict(havoc=False)]
        return None


def replacing(prog, res, prop):
    n = 0
    for tu in prog.tus:
        for fn in tu.functions.values():
            if tu.short.startswith("simple-") or tu.short in ("token.c", "t.c") or not any(
                    i.callee == ("g", "token_set_str") for i in fn.calls()):
                continue
            c = Replace(prog, res, prop)
            Engine(prog, c).run(fn, [("s", ("TOK", i)) for i, _ in enumerate(fn.params)], State({}, {}, {}, ()))
            n += c.sites
    res.floor("texts replaced", n, 2)


def p19(prog, res, prop):
    words(prog, res, prop)
    replacing(prog, res, prop)
    for k in ("events_comment_trim", "events_cpp_align"):
        res.floor(k, res.cov.get(k, 0), 5)
