"""P17, P18: the primitives of lexer.c do what the walk over clang.c takes for granted.

A position is ("s", ("OFF", k)): k bytes behind where the lexer was, ("s", ("RUN", cs)) the number of bytes out of cs
found there."""
from absint import Client, Engine, State
from conserve import enum_value
from docs import cstr, offs
from ir import AnalysisError, load_lists, macro
from lexread import Read, ch, ranges_of, table, walk
from tokens import ret_ins


class Prim(Client):
    max_states = 20000
    max_seconds = 60
    roots = ("LX", "ST", "CH", "LEN", "TPL", "TK", "RNG", "TK0")

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        o = offs(prog, "lexer", ["lx_st", "lx_input.ptr", "lx_input.len"], "lexer.c")
        so = offs(prog, "lexer_state", ["st_tk", "st_off", "st_lno"], "lexer.c")
        self.o = o
        self.cur = o["lx_st"] + so["st_off"]
        self.st_off = so["st_off"]
        self.flags = o["lx_st"] + so["st_lno"] + 4
        self.to = offs(prog, "token", ["tk_off", "tk_str", "tk_len"], "lexer.c")
        self.inp, self.inlen = o["lx_input.ptr"], o["lx_input.len"]

    def relevant(self, fn):
        # what keeps track of lines does not move
        return fn.tu.short == "lexer.c" and fn.name not in ("lexer_line_alloc", "lexer_column", "lexer_get_diffchunk")

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def keep(self, sid):
        return isinstance(sid, tuple) and sid and sid[0] in ("OFF", "RUN", "BYTE", "AT", "DIFF", "LEFT")

    @staticmethod
    def off(v):
        return v[1][1] if v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "OFF" else None

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if b[0] == "G" and b[2] == "KS_str_match":
            return ("p", b, 0)
        if b == ("S", "LX") and o == self.inp and ins.ty == "ptr":
            return ("s", "INPUT")
        if b == ("S", "LX") and o == self.inlen and ins.ty == "i64":
            return ("s", "SIZE")
        if b[0] == "S" and isinstance(b[1], tuple) and b[1] and b[1][0] == "AT" and ins.ty == "i8":
            return ("s", ("BYTE", b[1][1]))
        if b == ("S", "INPUT") and ins.ty == "i8":
            return ("s", ("BYTE", o))
        return None

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "INPUT") and len(idx) == 1:
            if self.off(idx[0]) is not None or idx[0][0] == "s":
                return ("s", ("AT", idx[0][1][1] if self.off(idx[0]) is not None else idx[0][1]))
        return None

    def arith(self, eng, ins, op, x, y, st):
        k, n = self.off(x), self.off(y)
        if op in ("add", "sub") and k is not None and y[0] == "i" and isinstance(k, int):
            d = y[1] if op == "add" else -y[1]
            if d >= 1 << 63:
                d -= 1 << 64
            return ("s", ("OFF", k + d))
        if op == "add" and k is not None and y[0] == "s" and isinstance(y[1], tuple) and y[1][0] == "RUN":
            return ("s", ("OFF", ("after", k, y[1][1])))
        if op == "add" and n is not None:
            return self.arith(eng, ins, op, y, x, st)
        if op == "sub" and k is not None and n is not None:
            return ("s", ("DIFF", k, n)) if k != n else ("i", 0)
        if op == "sub" and x == ("s", "SIZE") and n is not None:
            return ("s", ("LEFT", n))
        return None

    def cmp(self, eng, ins, pred, x, y, st):
        # whether the end is reached is known, the position is never behind it
        if x == ("s", "SIZE"):
            x, y, pred = y, x, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
        if x == ("s", ("OFF", 0)) and y == ("s", "SIZE") and pred in ("eq", "ne", "ult", "uge", "ugt", "ule"):
            return ("i", int({"eq": self.end, "ne": not self.end, "ult": not self.end, "uge": self.end, "ugt": False,
                              "ule": True}[pred]))
        return None

    def call(self, eng, ins, name, args, st, ctx):
        if name == "KS_str_match":
            cs = ranges_of(cstr(self.prog, ins.fn.tu, args[2]))
            if args[2] == ("s", "RNG"):
                cs = "RNG"
            p = args[0]
            k = p[1][1] if p[0] == "s" and isinstance(p[1], tuple) and p[1][0] == "AT" else None
            if k is None or args[1] != ("s", ("LEFT", k)) or cs is None:
                self.res.violate(self.prop, "search", "%s (%s)" % (ins.where, ins.fn.name),
                                 "the bytes searched are not the ones left in the source", st.trace_list(),
                                 "%s search" % ins.fn.name)
                cs = "?"
            ret = ("s", ("RUN", cs))
            return [dict(ret=ret, facts=[(ret, (0, None, frozenset()))], havoc=False)]
        if name is None:
            # a token is allocated, carrying the text of the template if any
            q = st.copy()
            out = []
            for t in (("i", 0), ("s", "TEXT")):
                out.append(dict(ret=("s", "TK"), rawmem=[((("S", "TK"), self.to["tk_str"]),
                                                          (t, ("struct.token", self.to["tk_str"])))],
                                facts=[(("s", "TEXT"), (1, None, frozenset()))], havoc=False))
            return out
        t = self.prog.resolve(ins.fn.tu, name) if name else None
        if t is not None and self.relevant(t):
            return None
        return [dict(havoc=False)]


def prim(prog, res, prop):
    """checks every primitive, returns what was analysed"""
    n = 0
    for name in ("lexer_getc", "lexer_ungetc", "lexer_eof", "lexer_match", "lexer_eat_spaces", "lexer_buffer_slice",
                 "lexer_emit_template", "lexer_emit"):
        fn = prog.need(name, "lexer.c")
        for flag, end in ((0, False), (0, True), (2, True)):
            c = Prim(prog, res, prop)
            c.end = end
            eng = Engine(prog, c)
            args = [("s", {"lx": "LX", "ch": "CH", "st": "ST", "ranges": "RNG"}.get(p, p)) for p, _ in fn.params]
            spec = {"lexer_getc": ["LX", "CH"], "lexer_ungetc": ["LX"], "lexer_eof": ["LX"], "lexer_match": ["LX", "RNG"],
                    "lexer_eat_spaces": ["LX", "TK0"], "lexer_buffer_slice": ["LX", "ST", "LEN"],
                    "lexer_emit_template": ["LX", "ST", "TPL"], "lexer_emit": ["LX", "ST", "TYPE"]}[name]
            args = [("s", a) for a in spec]
            if len(args) != len(fn.params):
                raise AnalysisError("%s: parameters not understood" % name)
            mem = {(("S", "LX"), c.cur): (("s", ("OFF", 0)), ("struct.lexer_state", c.st_off)),
                   (("S", "LX"), c.flags): (("i", flag), ("struct.lexer_state", c.flags - c.o["lx_st"])),
                   (("S", "ST"), c.st_off): (("s", ("OFF", "st")), ("struct.lexer_state", c.st_off))}
            for tk in ((("i", 0), ("s", "TK0")) if name == "lexer_eat_spaces" else (None,)):
                if tk is not None:
                    args[1] = tk
                st = State({}, dict(mem), {}, frozenset())
                outs = eng.run(fn, args, st)
                n += 1
                for rv, q in outs:
                    res.obligations += 1
                    msg = post(c, name, flag, rv, q, eng, args)
                    if msg:
                        r = ret_ins(fn)
                        res.violate(prop, "primitive", "%s (%s)" % (r.where, name), msg, q.trace_list(),
                                    "%s primitive" % name)
    return n


def post(c, name, flag, rv, q, eng, args):
    """why the outcome is not the expected one, if so"""
    def at(b, o):
        v = q.mem.get((("S", b), o))
        return v[0] if v else None
    cur, fl = at("LX", c.cur), at("LX", c.flags)
    k = cur[1][1] if cur and cur[0] == "s" and isinstance(cur[1], tuple) and cur[1][0] == "OFF" else None
    if fl is None or fl[0] != "i" or k is None:
        raise AnalysisError("%s: outcome not understood" % name)
    eof = bool(fl[1] & 2)
    if fl[1] & ~2:
        return "unrelated flags of the lexer change"
    end = c.end
    if name == "lexer_getc":
        if flag:
            return None if rv == ("i", 1) and k == 0 and eof else "something is read behind the end of the source"
        if end:
            return None if rv == ("i", 0) and k == 0 and eof and at("CH", 0) == ("i", 0) else \
                "the end of the source is not reported as such"
        if rv != ("i", 0) or k != 1 or eof:
            return "reading a byte does not move by one byte"
        b = ("s", ("BYTE", 0))
        return None if at("CH", 0) in (b, eng.norm(q, b)) else "the byte read is not the one at the position"
    if name == "lexer_ungetc":
        if flag:
            return None if k == 0 and eof else "the end of the source is moved"
        return None if k == -1 and not eof else "going back is not by one byte"
    if eof != bool(flag):
        return "the end of the source is assumed"
    if name == "lexer_eof":
        if k != 0:
            return "the position changes"
        return None if rv == ("i", int(end)) else "the end of the source is reported elsewhere"
    if name == "lexer_match":
        ok = rv == ("s", ("RUN", "RNG")) and k == ("after", 0, "RNG") or \
            k == 0 and (rv == ("i", 0) or eng.norm(q, rv) == ("i", 0))
        return None if ok else "the bytes matching are not the ones moved over"
    if name == "lexer_eat_spaces":
        cs = ch(" \t\f")
        run = ("s", ("RUN", cs))
        if rv == ("i", 0):
            ok = (k == 0 or k == ("after", 0, cs)) and eng.norm(q, run) == ("i", 0)
        else:
            ok = k == ("after", 0, cs) and eng.nonnull(q, run) and eng.nonnull(q, rv)
            if ok and args[1] != ("i", 0) and at("TK0", 0) != ("s", "TK"):
                return "no token is handed out for spaces"
            if ok and args[1] != ("i", 0) and not text(c, at, 0, k):
                return "the token for spaces does not cover them"
        return None if ok else "spaces are not skipped"
    if k != 0:
        return "the position changes"
    if name == "lexer_buffer_slice":
        n = at("LEN", 0)
        if n == ("i", 0) or n is not None and eng.norm(q, n) == ("i", 0):
            return None
        return None if n == ("s", ("DIFF", 0, "st")) and rv == ("s", ("AT", "st")) else \
            "the text is not the one between the positions"
    # emission
    if rv != ("s", "TK"):
        return "another token is returned"
    if at("TK", c.to["tk_str"]) == ("s", "TEXT"):
        return None
    return None if text(c, at, "st", 0) else "the text of the token is not the text consumed"


def text(c, at, a, b):
    o = at("TK", c.to["tk_off"])
    s = at("TK", c.to["tk_str"])
    n = at("TK", c.to["tk_len"])
    if s == ("s", "TEXT"):
        return True
    return o == ("s", ("OFF", a)) and s == ("s", ("AT", a)) and n == ("s", ("DIFF", b, a)) or \
        a == 0 and o == ("s", ("OFF", 0)) and s == ("s", ("AT", 0)) and n is not None and n[0] == "s"


class Eat(Read):
    """the primitives built upon others"""
    max_seconds = 120

    def __init__(self, prog, res, prop, skip):
        Read.__init__(self, prog, res, prop)
        self.skip = skip

    def call(self, eng, ins, name, args, st, ctx):
        if name in self.skip:
            return None
        return Read.call(self, eng, ins, name, args, st, ctx)


def eat(prog, res, prop):
    n = 0
    for name, more in (("lexer_eat_lines", ((("i", 0), ("i", 0)), (("i", 2), ("i", 0)), (("i", 0), ("s", "OUT")))),
                       ("lexer_eat_lines_and_spaces", ((("i", 0),), (("s", "OST"),)))):
        fn = prog.need(name, "lexer.c")
        for extra in more:
            c = Eat(prog, res, prop, {name})
            c.table, c.badlen = {}, []
            c.reach = set()
            c.roots = ("LX", "CL", "OUT", "OST")
            eng = Engine(prog, c)
            if len(extra) + 1 != len(fn.params):
                raise AnalysisError("%s: parameters not understood" % name)
            p0 = ("s", ("P", "token"))
            mem = {c.CUR: (p0, ("struct.lexer_state", c.off)), c.FL: (("i", 0), ("struct.lexer_state", c.fl)),
                   (("S", "OST"), c.off): (("s", ("P", "line")), ("struct.lexer_state", c.off))}
            st = State({}, mem, {}, (frozenset([p0]), None, frozenset(), frozenset(), frozenset()))
            n += 1
            r = ret_ins(fn)
            for rv, q in eng.run(fn, [("s", "LX")] + list(extra), st):
                res.obligations += 1
                p = c.cur(q)
                msg = None
                # a token for white space is emitted where it is consumed, the position starts over then
                if p is None:
                    raise AnalysisError("%s: position not understood" % name)
                if p not in q.auto[0]:
                    msg = "text other than white space is skipped"
                elif c.eof(q):
                    msg = None if q.auto[1] == p else "the end of the source is assumed"
                if name == "lexer_eat_lines_and_spaces" and not msg:
                    nx = c.next_bytes(q, p)
                    if nx & ch(" \t\f") or nx & ch("\n"):
                        msg = "white space is left"
                    l = q.mem.get((("S", "OST"), c.off))
                    if l is None or l[0] != ("s", ("P", "line")) and l[0] not in q.auto[0]:
                        msg = "the start of the line is elsewhere"
                elif name == "lexer_eat_lines" and not msg and extra[1] != ("i", 0) and rv != ("i", 0) and \
                        (("S", "OUT"), 0) not in q.mem:
                    msg = "no token is handed out for line breaks"
                if msg:
                    res.violate(prop, "primitive", "%s (%s)" % (r.where, name), msg, q.trace_list(),
                                "%s primitive" % name)
    return n


class Tokenize(Client):
    """all of the source is read, and everything read is kept"""
    max_states = 20000
    max_seconds = 60

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        o = offs(prog, "lexer", ["lx_st", "lx_input.ptr", "lx_input.len", "lx_callbacks.read", "lx_tokens"], "lexer.c")
        so = offs(prog, "lexer_state", ["st_off", "st_lno"], "lexer.c")
        self.CUR, self.FL = (("S", "LX"), o["lx_st"] + so["st_off"]), (("S", "LX"), o["lx_st"] + so["st_lno"] + 4)
        self.so = so
        self.PTR, self.LEN = (("S", "LX"), o["lx_input.ptr"]), (("S", "LX"), o["lx_input.len"])
        self.read, self.list = o["lx_callbacks.read"], o["lx_tokens"]
        self.to = offs(prog, "token", ["tk_flags", "tk_type"], "lexer.c")
        self.discard = macro("token.h", "TOKEN_FLAG_DISCARD")
        self.eof = enum_value(prog, "LEXER_EOF")
        self.reads = 0

    def relevant(self, fn):
        return fn.tu.short == "lexer.c" and fn.name not in ("lexer_line_alloc", "lexer_remove", "lexer_dump", "lexer_free")

    def never_null(self, sid):
        return sid in ("LX", "TK", "BUFPTR", "READ")

    def keep(self, sid):
        return sid in ("LX", "TK", "TF", "TT", "POS")

    def distinct(self, b):
        return b in (("S", "LX"), ("S", "TK"))

    def bad(self, ins, st, msg):
        self.res.violate(self.prop, "tokenize", "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s tokenize" % ins.fn.name)

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l == (("S", "LX"), self.read):
            return ("s", "READ")
        if l == (("S", "TK"), self.to["tk_flags"]):
            return ("s", "TF")
        if l == (("S", "TK"), self.to["tk_type"]):
            return ("s", "TT")
        return None

    def store(self, eng, ins, v, ptr, st, ctx):
        if v == ("s", "TK") and ptr[0] != "p" and "read" in st.auto:
            # remembered for removal
            flag = ("b", "and", ("s", "TF"), ("i", self.discard))
            if eng.decide(st, "ne", flag, ("i", 0)) is not True:
                self.bad(ins, st, "a token that is not to be dropped is remembered for removal")

    def call(self, eng, ins, name, args, st, ctx):
        if name is None:
            if eng.norm(st, eng.val(st, ins.fn, ins.callee)) != ("s", "READ"):
                return [dict(havoc=False)]
            self.reads += 1
            cur = (st.mem.get(self.CUR) or (None,))[0]
            fl = (st.mem.get(self.FL) or (None,))[0]
            want = ("s", "POS") if "read" in st.auto else ("i", 0)
            if cur != want or want == ("i", 0) and fl != ("i", 0):
                self.bad(ins, st, "a token is read from elsewhere than where the last one ended")
            if (st.mem.get(self.PTR) or (None,))[0] != ("s", "BUFPTR") or \
                    (st.mem.get(self.LEN) or (None,))[0] != ("s", "BUFLEN"):
                self.bad(ins, st, "the source is not all of the buffer")
            if "pending" in st.auto:
                self.bad(ins, st, "the token read before was not added")
            out = [dict(ret=("i", 0), havoc=False, note="nothing read")]
            q = st.copy()
            for x in ("TF", "TT"):
                q.facts = {k: v for k, v in q.facts.items() if x not in str(k)}
            q.mem[self.CUR] = (("s", "POS"), ("struct.lexer_state", self.so["st_off"]))
            q.auto = frozenset(["read", "pending"])
            out.append(dict(base=q, ret=("s", "TK"), havoc=False, note="token read"))
            return out
        if name == "arena_calloc" and "lx" not in st.auto:
            q = st.copy()
            q.auto = st.auto | {"lx"}
            q.mem[self.CUR] = (("i", 0), ("struct.lexer_state", self.so["st_off"]))
            q.mem[self.FL] = (("i", 0), ("struct.lexer_state", self.so["st_lno"] + 4))
            return [dict(base=q, ret=("s", "LX"), havoc=False)]
        if name == "buffer_get_ptr":
            return [dict(ret=("s", "BUFPTR"), havoc=False)]
        if name == "buffer_get_len":
            return [dict(ret=("s", "BUFLEN"), havoc=False)]
        if name.startswith("vp_") and name.endswith("_insert_tail") and args[1] == ("s", "TK"):
            q = st.copy()
            if eng.loc(args[0]) != (("S", "LX"), self.list) or "pending" not in st.auto:
                self.bad(ins, st, "a token is added elsewhere")
            q.auto = st.auto - {"pending"}
            return [dict(base=q, havoc=False)]
        if name.startswith("vp_") and args[-1] == ("s", "TK"):
            self.bad(ins, st, "a token read is not added at the end")
        t = self.prog.resolve(ins.fn.tu, name)
        if t is not None and self.relevant(t):
            return None
        return [dict(havoc=False)]


def tokenize(res, prop):
    prog = load_lists()
    fn = prog.need("lexer_tokenize", "lexer.c")
    c = Tokenize(prog, res, prop)
    eng = Engine(prog, c)
    r = ret_ins(fn)
    outs = eng.run(fn, [("s", "ARG")], State({}, {}, {}, frozenset()))
    for rv, q in outs:
        res.obligations += 1
        if rv == ("i", 0) or eng.norm(q, rv) == ("i", 0):
            continue
        if rv != ("s", "LX"):
            c.bad(r, q, "what is returned is not what was read")
        elif "pending" in q.auto:
            c.bad(r, q, "the last token is not added")
        elif eng.norm(q, ("s", "TT")) != ("i", c.eof):
            c.bad(r, q, "reading stops before the end of the source")
    if not c.reads:
        raise AnalysisError("lexer_tokenize: reading not found")
    return len(outs)


def lexical(prog, res, prop):
    c, eng = walk(prog, res, prop)
    table(prog, res, c)
    n = prim(prog, res, "P17") + eat(prog, res, "P17")
    n += tokenize(res, "P17")
    res.violations[:] = [v for v in res.violations if v.prop == prop]
    res.count("states", eng.nstates)
    res.count("tokens_handed_out", c.emits)
    res.count("primitive_runs", n)
    if prop == "P18":
        res.count("keywords_and_operators", len(c.table))
        for k, v in c.kinds.items():
            res.count("tokens_" + k, v)
