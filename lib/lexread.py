"""P17, P18: what the function reading one token does with the bytes of the source.

The function is walked together with everything in clang.c it uses; the primitives of
lexer.c are followed by contract (see lexprim.py).  A position in the source is a symbol
("P", site), a byte a symbol ("C", site).  Ghost state:

  M       positions such that only blanks lie between the end of the last token and them
  end     position known to be the end of the source
  steps   (p, c, q): reading byte c at position p leads to position q
  ds      state of an automaton describing the tokens of C, per position
  no      (p, q): the text between p and q is known not to be a keyword
"""
from absint import Client, Engine, State
from conserve import enum_value
from docs import cstr, offs
from ir import AnalysisError, macro
from tokens import ret_ins

BLANK = frozenset(b" \t\n\r\f\v")
ALL = frozenset(range(256))

# C locale bits of <ctype.h> as laid out by glibc on little endian machines
UPPER, LOWER, ALPHA, DIGIT, XDIGIT, SPACE, PRINT, GRAPH, BLNK, CNTRL, PNCT, ALNUM = (
    1 << 8, 1 << 9, 1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1, 2, 4, 8)


def ctype(c):
    b = 0
    ch = chr(c)
    if c < 128:
        up, lo, dg = "A" <= ch <= "Z", "a" <= ch <= "z", "0" <= ch <= "9"
        b |= UPPER * up | LOWER * lo | ALPHA * (up or lo) | DIGIT * dg | ALNUM * (up or lo or dg)
        b |= XDIGIT * (dg or "A" <= ch <= "F" or "a" <= ch <= "f")
        b |= SPACE * (c in BLANK) | BLNK * (ch in " \t") | CNTRL * (c < 32 or c == 127)
        b |= PRINT * (32 <= c < 127) | GRAPH * (32 < c < 127)
        b |= PNCT * (32 < c < 127 and not (up or lo or dg))
    return b - 65536 if b & 0x8000 else b


def ranges_of(s):
    if s is None or len(s) % 2:
        return None
    b = s.encode("latin1") if isinstance(s, str) else s
    out = set()
    for i in range(0, len(b), 2):
        out |= set(range(b[i], b[i + 1] + 1))
    return frozenset(out)


def dom_of(chars):
    lo, hi = min(chars), max(chars)
    return (lo, hi, frozenset(c for c in range(lo, hi + 1) if c not in chars))


def chars_of(d):
    lo, hi, ex = d
    return frozenset(c for c in range(max(0, lo or 0), min(255, 255 if hi is None else hi) + 1) if c not in ex)


IDS = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
DIG = frozenset(b"0123456789")
IDC = IDS | DIG


def ch(s):
    return frozenset(s.encode("latin1"))


# ------------------------------------------------- the tokens of C, byte by byte
PUNCT = ("[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>",
         "<", ">", "<=", ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=",
         "-=", "<<=", ">>=", "&=", "^=", "|=", ",")
PREFIX = frozenset(p[:i] for p in PUNCT for i in range(1, len(p) + 1))


def delta(s, c):
    """next state after reading byte c in state s"""
    x = chr(c)
    if s == "S":
        if c in BLANK:
            return "S"
        if x in "LU":
            return "PX"
        if x == "u":
            return "PU"
        if c in IDS:
            return "ID"
        if c in DIG:
            return "NUM"
        return {'"': "STR", "'": "CHR", ".": "DOT", "/": "SL", "#": "DIR"}.get(x, "OP")
    if s in ("ID", "PX", "PU", "P8"):
        if x == '"' and s != "ID":
            return "STR"
        if x == "'" and s != "ID":
            return "CHR"
        if s == "PU" and x == "8":
            return "P8"
        return "ID" if c in IDC else "X"
    if s[0] == "=":
        # an operator, exactly
        t = s[1:]
        if t == "." and c in DIG:
            return "NUM"
        if t == "/" and x in "/*":
            return {"/": "LC", "*": "BC"}[x]
        return "=" + t + x if t + x in PREFIX else "X"
    if s == "DOT":
        return "NUM" if c in DIG else "=.." if x == "." else "X"
    if s in ("NUM", "NE"):
        if x in "eEpP":
            return "NE"
        if s == "NE" and x in "+-":
            return "NUM"
        return "NUM" if c in IDC or x == "." else "X"
    if s in ("STR", "CHR"):
        if x == "\\":
            return s + "E"
        return s[0] + "END" if x == ('"' if s == "STR" else "'") else s
    if s in ("STRE", "CHRE"):
        return s[:-1]
    if s == "SL":
        return {"/": "LC", "*": "BC", "=": "=/="}.get(x, "X")
    if s in ("LC", "LCB"):
        if x == "\n":
            return "LC" if s == "LCB" else "LCN"
        return "LCB" if x == "\\" else "LC"
    if s == "LCN":
        return "LCN" if c in BLANK else "SL" if x == "/" else "X"
    if s == "BC":
        return "BCS" if x == "*" else "BC"
    if s == "BCS":
        return "BCE" if x == "/" else "BCS" if x == "*" else "BC"
    if s == "BCE":
        return "BCE" if c in BLANK else "X"
    if s in ("DIR", "DIRS", "DIRB", "DIRSB"):
        if x == "\\":
            return "DIRSB" if s == "DIRS" else "DIRB"
        if x == "\n":
            return {"DIRB": "DIR", "DIRSB": "DX"}.get(s, "DIRN")
        if s == "DIRS" and x in "*/":
            return {"*": "DC", "/": "DL"}[x]
        return {"/": "DIRS", '"': "DQ", "'": "DA"}.get(x, "DIR")
    if s in ("DL", "DLB"):
        if x == "\n":
            return "DL" if s == "DLB" else "DIRN"
        return "DLB" if x == "\\" else "DL"
    if s[:2] in ("DQ", "DA"):
        # in a literal, E: after a backslash, F: after an escaped one
        q, e = s[:2], s[2:]
        if x == "\n":
            return {"": "DIRN", "E": q, "F": "DX"}[e]
        if e == "E":
            return q + "F" if x == "\\" else q
        if x == "\\":
            return q + "E"
        return "DIR" if x == ('"' if q == "DQ" else "'") else q
    if s == "DC":
        return "DCS" if x == "*" else "DC"
    if s in ("DCS", "DCSB"):
        if x == "\\":
            return "DCSB" if s == "DCS" else "DC"
        if s == "DCSB":
            return "DX" if x == "\n" else "DCS" if x == "*" else "DC"
        return "DIR" if x == "/" else "DCS" if x == "*" else "DC"
    if s == "DIRN":
        return "DIRN" if c in BLANK else "X"
    return "X" if s in ("SEND", "CEND", "OP") else s


TABLE = {}


def step(s, c):
    if s is None:
        return None
    if (s, c) not in TABLE:
        TABLE[s, c] = delta(s, c)
    return TABLE[s, c]


def closure_over(s, cs):
    """states after one or more bytes out of cs, or None when not a single one"""
    if s is None:
        return None
    seen, work = set(), [s]
    out = set()
    while work:
        a = work.pop()
        for c in cs:
            b = step(a, c)
            if b not in out:
                out.add(b)
                work.append(b)
    return out.pop() if len(out) == 1 else frozenset(out)


def states(s):
    return s if isinstance(s, frozenset) else frozenset([s])


PRIM = {"lexer_getc", "lexer_ungetc", "lexer_match", "lexer_eat_lines", "lexer_eat_spaces",
        "lexer_eat_lines_and_spaces", "lexer_eof", "lexer_buffer_slice", "lexer_emit", "lexer_emit_template"}
STATE = {"lexer_get_state", "lexer_set_state"}


class Read(Client):
    max_states = 3000000
    max_seconds = 800
    max_inline = 14
    roots = ("LX", "CL")
    drop_dead = True
    back = 4

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        o = offs(prog, "lexer", ["lx_st", "lx_input"], "lexer.c")
        so = offs(prog, "lexer_state", ["st_tk", "st_off", "st_lno"], "lexer.c")
        self.st, self.off, self.lno = o["lx_st"], so["st_off"], so["st_lno"]
        self.fl = so["st_lno"] + 4
        self.to = offs(prog, "token", ["tk_type", "tk_str", "tk_len", "tk_flags"], "lexer.c")
        e = {n: enum_value(prog, n) for n in ("LEXER_EOF", "TOKEN_SPACE", "TOKEN_COMMENT", "TOKEN_STRING",
                                               "TOKEN_LITERAL", "TOKEN_IDENT", "TOKEN_NONE")}
        self.T = e
        self.emits = 0
        self.memo, self.busy = {}, set()
        self.kinds = {}
        self.rel = {}
        self.CUR = (("S", "LX"), self.st + self.off)
        self.FL = (("S", "LX"), self.st + self.fl)

    # ------------------------------------------------------------ which code
    def relevant(self, fn):
        if fn.name in STATE:
            return True
        return fn in self.reach or self.plain(fn)

    def plain(self, fn):
        """classifies a byte"""
        return fn.tu.short == "clang.c" and fn.params and all(t != "ptr" for _, t in fn.params) and all(
            i.callee[0] == "g" and (i.callee[1] == "__ctype_b_loc" or (self.prog.resolve(fn.tu, i.callee[1]) or fn) is not fn
                                    and self.plain(self.prog.resolve(fn.tu, i.callee[1]))) for i in fn.calls())

    def keep(self, sid):
        return isinstance(sid, tuple) and len(sid) > 0 and sid[0] in ("C", "N", "KWF")

    def never_null(self, sid):
        return sid in self.roots or isinstance(sid, tuple) and sid and sid[0] in ("SL", "KW", "TK")

    def distinct(self, b):
        return b in (("S", "LX"), ("S", "CL"))

    def bad(self, rule, ins, st, msg, prop=None):
        self.res.violate(prop or self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (ins.fn.name, rule))

    # --------------------------------------------------------------- helpers
    def cur(self, st):
        v = st.mem.get(self.CUR)
        if v is None or v[0][0] != "s" or not isinstance(v[0][1], tuple) or v[0][1][0] != "P":
            return None
        return v[0]

    def set_cur(self, st, p):
        st.mem[self.CUR] = (p, ("struct.lexer_state", self.off))

    def eof(self, st):
        v = st.mem.get(self.FL)
        if v is None or v[0][0] != "i":
            raise AnalysisError("flags of the lexer not understood")
        return bool(v[0][1] & 2)

    def set_eof(self, st):
        st.mem[self.FL] = (("i", st.mem[self.FL][0][1] | 2), ("struct.lexer_state", self.fl))

    @staticmethod
    def chars(st, v):
        d = st.facts.get(v)
        return chars_of(d) if d is not None else ALL

    def nxt(self, st, p):
        for s in st.auto[2]:
            if s[0] == p and s[1][0] == "s":
                return s
        return None

    def prev(self, st, q):
        for s in st.auto[2]:
            if s[2] == q and s[1][0] == "s":
                return s
        return None

    def run_at(self, st, p):
        """the run of bytes known to start at p"""
        for s in st.auto[2]:
            if s[0] == p and s[1][0] == "R":
                return s
        return None

    def through(self, st, s):
        """bytes of a step"""
        return s[1][1] if s[1][0] == "R" else self.chars(st, s[1])

    def next_bytes(self, st, p):
        """bytes that may follow position p, None: the end of the source, too"""
        if st.auto[1] == p:
            return frozenset()
        s = self.nxt(st, p)
        if s:
            return self.chars(st, s[1])
        s = self.run_at(st, p)
        if s:
            return s[1][1]
        return self.chars(st, ("s", ("N", p))) | {None}

    def ds(self, st, p):
        if p in st.auto[0]:
            return "S"
        for a, s in st.auto[3]:
            if a == p:
                return s
        return None

    @staticmethod
    def vals(st):
        for v in st.env.values():
            yield v
        for k, v in st.mem.items():
            yield k[0]
            yield v[0]

    def live(self, st):
        out = set()

        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] in ("P", "C"):
                    out.add(v)
                    return
                for x in v:
                    if isinstance(x, (tuple, frozenset)):
                        walk(x)
            elif isinstance(v, frozenset):
                for x in v:
                    walk(x)
        for v in self.vals(st):
            walk(v)
        return out

    def tidy(self, st, widen=True):
        M, end, steps, ds, no = st.auto
        steps = self.near(st, steps)
        live = self.live(st)
        reach = set(live)
        ch = True
        while ch:
            ch = False
            for s in steps:
                if s[0] in reach and s[2] not in reach:
                    reach.add(s[2])
                    ch = True
        steps = frozenset(s for s in steps if s[0] in reach or s[2] in reach)
        pos = reach | {s[0] for s in steps}
        cs = {s[1] for s in steps}
        for k in list(st.facts):
            if k[0] == "s" and isinstance(k[1], tuple) and k[1]:
                if k[1][0] == "C" and k not in live and k not in cs:
                    del st.facts[k]
                elif k[1][0] == "N" and (k[1][1] not in pos or any(s[0] == k[1][1] for s in steps)):
                    del st.facts[k]
                elif k[1][0] == "KWF" and (k[1][1] not in pos or k[1][2] not in pos):
                    del st.facts[k]
        # which byte it was exactly does not matter any more
        for s in steps if widen else ():
            k = s[1]
            if k[0] == "s" and k in st.facts and k not in live and s[2] in pos:
                c0 = self.chars(st, k)
                d = self.ds(st, s[0])
                if d is not None and not isinstance(d, frozenset) and d != "S":
                    to = {step(d, c) for c in c0}
                    if len(to) == 1:
                        t = to.pop()
                        full = frozenset(c for c in ALL if step(d, c) == t)
                        if full != c0 and s[0] not in live:
                            st.facts[k] = dom_of(full)
        st.auto = (frozenset(p for p in M if p in pos), end if end in pos else None, steps,
                   frozenset(x for x in ds if x[0] in pos),
                   frozenset(x for x in no if x[0] in pos))

    def near(self, st, steps):
        """steps from close behind the position on"""
        c = self.cur(st)
        if c is None or not steps:
            return steps
        at = {c}
        for _ in range(self.back):
            at |= {s[0] for s in steps if s[2] in at}
        while True:
            n = at | {s[2] for s in steps if s[0] in at}
            if n == at:
                break
            at = n
        return frozenset(s for s in steps if s[0] in at)

    def on_return(self, eng, fn, st):
        eng.gc(st)
        self.tidy(st)

    def on_goto(self, eng, st):
        self.tidy(st, False)

    def site(self, ins, n=0):
        return (ins.fn.name, ins.bb.name, ins.idx, n)

    def newpos(self, eng, st, ins, n=0):
        """a position not seen before; older ones reached here move back"""
        self.tidy(st)
        sid, csid = ("P", self.site(ins, n)), ("C", self.site(ins, n))
        old, cold = sid + ("old",), csid + ("old",)
        if eng.uses(st, sid):
            if eng.uses(st, old):
                M, end, steps, ds, no = st.auto
                a, b = ("s", sid), ("s", old)
                if b not in self.live(st):
                    # only known from reading on from further back
                    M = M - {b}
                    ds = frozenset(x for x in ds if x[0] != b)
                    da = db = self.ds(st, a)
                elif (a in M) != (b in M):
                    M = M - {a, b}
                    da = db = None
                else:
                    da, db = self.ds(st, a), self.ds(st, b)
                ds = frozenset(x for x in ds if x[0] not in (a, b))
                if da == db and da is not None and da != "S":
                    ds |= {(a, da)}
                elif a not in M:
                    ds |= {(a, "?")}
                st.auto = (M, end if end not in (a, b) else None,
                           frozenset(x for x in steps if b not in (x[0], x[2])), ds,
                           frozenset(x for x in no if b not in x))
                eng.forget_facts(st, old)
            eng.rename(st, sid, old)
        if eng.uses(st, csid):
            if eng.uses(st, cold):
                eng.forget_facts(st, cold)
                st.auto = st.auto[:2] + (frozenset(x for x in st.auto[2] if x[1] != ("s", cold)),) + st.auto[3:]
            eng.rename(st, csid, cold)
        eng.forget_facts(st, sid)
        eng.forget_facts(st, csid)
        return ("s", sid), ("s", csid)

    def with_(self, st, p, d, step=None, clean=None):
        """record position p in state d"""
        M, end, steps, ds, no = st.auto
        M = M - {p}
        ds = frozenset(x for x in ds if x[0] != p)
        if clean:
            M = M | {p}
        elif d is not None:
            ds = ds | {(p, d)}
        if step:
            steps = steps | {step}
        st.auto = (M, end, steps, ds, no)

    def set_end(self, st, p):
        st.auto = st.auto[:1] + (p,) + st.auto[2:]

    # ------------------------------------------------------------ operations
    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if ins.ty == "i32":
            t = eng.tag(ins.fn, ins.args[0], ins.ty)
            if t == ("struct.lexer_state", self.lno) or b == ("S", "LX") and o == self.st + self.lno:
                return ("s", "LNO")
        if b[0] == "G" and ins.ty == "ptr" and o == 0 and b[2] in ("clang_tokens", "cpp_token_types"):
            return ("s", ("MAP", b[2]))
        if b == ("S", "CTB"):
            return ("s", "CTAB")
        if b[0] == "S" and isinstance(b[1], tuple) and b[1]:
            k = b[1]
            if k[0] == "CT" and len(k) == 2:
                i = k[1]
                if i[0] == "i":
                    return ("i", ctype(i[1] & 255))
                return ("s", ("CTV", i))
            if k[0] == "FOUND":
                return ("s", ("DTYPE",) + k[1:])
            if k[0] == "KWP":
                return ("s", ("KW",) + k[1:])
            if k[0] == "KW" and o in (self.to["tk_flags"], self.to["tk_type"]):
                n = int(o == self.to["tk_flags"])
                if k[1] != "@":
                    return ("i", self.table[k[1]][n])
                return ("s", ("KWF", n) + k[1:])
            if k[0] == "KW":
                return ("s", ("KWX", o) + k[1:])
        return None

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "CTAB") and len(idx) == 1:
            return ("s", ("CT", idx[0]))
        return None

    def arith(self, eng, ins, op, x, y, st):
        if x == ("s", "LNO"):
            return x
        if op == "and" and y[0] == "i" and x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "CTV":
            vs = {ctype(c) & y[1] for c in self.chars(st, x[1][1])}
            if len(vs) == 1:
                return ("i", vs.pop())
            return ("s", ("CTM", x[1][1], y[1]))
        if op == "and" and y[0] == "i" and x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "KWF":
            vs = {v[x[1][1]] & y[1] for k, v in self.table.items() if ord(k[0]) in IDC}
            return ("i", vs.pop()) if len(vs) == 1 else None
        if op == "and" and y[0] == "i" and x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "CTM":
            return ("s", ("CTM", x[1][1], x[1][2] & y[1]))
        return None

    def cmp(self, eng, ins, pred, x, y, st):
        def isp(v):
            return v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "P"
        if x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "C" and y[0] == "i" and pred in ("eq", "ne"):
            cs = self.chars(st, x)
            if y[1] not in cs or cs == {y[1]}:
                return ("i", int((y[1] in cs) == (pred == "eq")))
        if isp(x) and isp(y) and pred in ("eq", "ne") and x == y:
            return ("i", int(pred == "eq"))
        if isp(x) and isp(y) and pred in ("eq", "ne") and (self.ahead(st, x, y) or self.ahead(st, y, x)):
            return ("i", int(pred == "ne"))
        if x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "KWF" and y[0] == "i" and \
                pred in ("eq", "ne"):
            if y[1] not in {v[x[1][1]] for k, v in self.table.items() if ord(k[0]) in IDC}:
                return ("i", int(pred == "ne"))
        return None

    @staticmethod
    def ahead(st, x, y):
        """y is known to lie behind x"""
        at = {x}
        while True:
            n = at | {s[2] for s in st.auto[2] if s[0] in at}
            if y in n:
                return True
            if n == at:
                return False
            at = n

    def branch(self, eng, ins, cond, taken, st, ctx):
        if cond[0] != "c" or cond[1] not in ("eq", "ne"):
            return
        x, y = cond[2], cond[3]
        if y[0] == "i" and x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "CTM":
            _, c, m = x[1]
            want = (cond[1] == "eq") == taken
            cs = frozenset(k for k in self.chars(st, c) if ((ctype(k) & m) == y[1]) == want)
            if not cs:
                return False
            st.facts[c] = dom_of(cs)
            for k in [k for k in st.facts if k[0] == "s" and isinstance(k[1], tuple) and k[1] and k[1][0] == "CTM"]:
                del st.facts[k]

    # ----------------------------------------------------------------- calls
    def call(self, eng, ins, name, args, st, ctx):
        if name == "__ctype_b_loc":
            return [dict(ret=("s", "CTB"), havoc=False)]
        if name in PRIM:
            self.res.obligations += 1
            if self.cur(st) is None or args[0] != ("s", "LX"):
                raise AnalysisError("%s: position not understood" % ins.where)
            return getattr(self, "c_" + name)(eng, ins, args, st)
        if name == "map_find_n":
            return self.find(eng, ins, args, st)
        t = self.prog.resolve(ins.fn.tu, name) if name else None
        if name and t is None or t is not None and not self.relevant(t):
            # not given to functions that could move it
            return [dict(rawmem=[(k, v) for k, v in st.mem.items() if k[0] == ("S", "LX")])]
        if t is not None and t not in self.busy and t.tu.short == "clang.c" and \
                all(a[0] == "i" or a in (("s", "LX"), ("s", "CL")) for a in args):
            return self.summary(eng, ins, t, args, st)
        return None

    def summary(self, eng, ins, fn, args, st):
        """outcomes of a function that is given nothing but the lexer, regardless of the caller"""
        st = st.copy()
        la = eng.live_after(ins.fn, ins)
        st.env = {k: v for k, v in st.env.items() if k in la}
        eng.gc(st)
        self.tidy(st)

        def mine(k):
            return k[0][0] == "A" or k[0][0] == "G"
        frame = State(st.env, {k: v for k, v in st.mem.items() if mine(k)}, {}, (), ())
        kept = sorted(self.live(frame), key=repr)
        mem = {k: v for k, v in st.mem.items() if k[0] == ("S", "LX")}
        for i, v in enumerate(kept):
            mem[(("G", "kept"), i)] = (v, "env")

        def own(k):
            return k[0] == "s" and isinstance(k[1], tuple) and k[1] and k[1][0] in ("C", "N")
        facts = {k: v for k, v in st.facts.items() if own(k)}
        key = (fn, tuple(args), frozenset(mem.items()), frozenset(facts.items()), st.auto)
        if key not in self.memo:
            sub = State({}, mem, facts, st.auto, st.trace)
            self.busy.add(fn)
            self.memo[key] = [(rv, q) for rv, q in eng.run(fn, args, sub, (("@", fn.name, 0),), (ins.fn,))]
            self.busy.discard(fn)
        out = []
        for rv, q in self.memo[key]:
            r = st.copy()
            for i, v in enumerate(kept):
                eng.rename(r, v[1], ("KEPT", i))
            for i, v in enumerate(kept):
                eng.rename(r, ("KEPT", i), q.mem[(("G", "kept"), i)][0][1])
            r.mem = {k: v for k, v in r.mem.items() if mine(k)}
            r.mem.update({k: v for k, v in q.mem.items() if k[0] == ("S", "LX")})
            r.facts = {k: v for k, v in r.facts.items() if not own(k)}
            r.facts.update({k: v for k, v in q.facts.items() if own(k) or k == rv})
            r.auto, r.trace = q.auto, q.trace
            out.append(dict(base=r, ret=rv if rv is not None else ("i", 0), havoc=False))
        return out

    def c_lexer_getc(self, eng, ins, args, st):
        p = self.cur(st)
        if self.eof(st):
            return [dict(ret=("i", 1), havoc=False, note="end of the source")]
        s = self.nxt(st, p)
        if s:
            q = st.copy()
            self.set_cur(q, s[2])
            return [dict(base=q, ret=("i", 0), mem=[(args[1], s[1])], havoc=False)]
        out = []
        n = self.next_bytes(st, p)
        if None in n or not n:
            q = st.copy()
            self.set_eof(q)
            self.set_end(q, p)
            out.append(dict(base=q, ret=("i", 0), mem=[(args[1], ("i", 0))], havoc=False, note="end of the source"))
        cs = n - {None}
        d = self.ds(st, p)
        groups = {}
        for c in cs:
            if d is None or isinstance(d, frozenset) or d == "?":
                groups.setdefault("?", set()).add(c)
            else:
                groups.setdefault((step(d, c), d == "S" and c in BLANK), set()).add(c)
        for g, cc in sorted(groups.items(), key=repr):
            q = st.copy()
            q.env["$p"] = p
            np, nc = self.newpos(eng, q, ins)
            p1 = q.env.pop("$p")
            to, clean = g if g != "?" else ("?", False)
            self.with_(q, np, to, (p1, nc, np), clean)
            q.facts[nc] = dom_of(cc)
            q.facts.pop(("s", ("N", p1)), None)
            self.set_cur(q, np)
            out.append(dict(base=q, ret=("i", 0), mem=[(args[1], nc)], havoc=False,
                            note="byte read: %s" % to))
        return out

    def c_lexer_ungetc(self, eng, ins, args, st):
        if self.eof(st):
            return [dict(havoc=False)]
        p = self.cur(st)
        s = self.prev(st, p)
        q = st.copy()
        if s:
            self.set_cur(q, s[0])
        else:
            np, _ = self.newpos(eng, q, ins)
            self.with_(q, np, "?")
            self.set_cur(q, np)
        return [dict(base=q, havoc=False)]

    def run_of(self, eng, ins, st, cs, n=0, link=False):
        """move over one or more bytes out of cs"""
        q = st.copy()
        p = self.cur(q)
        q.env["$p"] = p
        np, _ = self.newpos(eng, q, ins, n)
        p = q.env.pop("$p")
        clean = p in q.auto[0] and cs <= BLANK
        self.with_(q, np, closure_over(self.ds(q, p), cs), (p, ("R", cs), np) if link else None, clean)
        self.set_cur(q, np)
        return q, np

    def c_lexer_match(self, eng, ins, args, st):
        cs = ranges_of(cstr(self.prog, ins.fn.tu, args[1]))
        if cs is None:
            raise AnalysisError("%s: ranges not constant" % ins.where)
        out = []
        for q, moved in self.over(eng, ins, st, cs):
            if not moved:
                out.append(dict(base=q, ret=("i", 0), havoc=False, note="nothing matches"))
            else:
                ret = eng.fresh(q, ("LEN", ins.where))
                out.append(dict(base=q, ret=ret, facts=[(ret, (1, None, frozenset()))], havoc=False,
                                note="some bytes match"))
        return out

    def over(self, eng, ins, st, cs, loose=frozenset()):
        """move over all bytes out of cs, some of loose may be left: (state, whether there are any, 2: maybe lines)"""
        out = []
        work = [(st, 0)]
        while work:
            q, moved = work.pop()
            p = self.cur(q)
            if loose and (p, loose) in q.auto[4]:
                out.append((q, moved))
                continue
            s = self.nxt(q, p)
            if s:
                c = self.chars(q, s[1])
                if c - cs:
                    r = q.copy()
                    r.facts[s[1]] = dom_of(c - cs)
                    out.append((r, moved))
                if c & loose:
                    r = q.copy()
                    r.facts[s[1]] = dom_of(c & loose)
                    r.auto = r.auto[:4] + (r.auto[4] | {(p, loose)},)
                    out.append((r, moved))
                if c & cs:
                    r = q.copy()
                    r.facts[s[1]] = dom_of(c & cs)
                    self.set_cur(r, s[2])
                    work.append((r, max(moved, 1 + (10 in c & cs))))
                continue
            s = self.run_at(q, p)
            if s and s[1][1] <= cs:
                r = q.copy()
                self.set_cur(r, s[2])
                (out if s[1][1] == cs else work).append((r, max(moved, 1 + (10 in s[1][1]))))
                continue
            n = self.next_bytes(q, p)
            if None in n or n - cs or not n:
                r = q.copy()
                self.exclude(r, p, cs)
                out.append((r, moved))
            if n & loose:
                r = q.copy()
                r.facts[("s", ("N", p))] = dom_of(n & loose)
                r.auto = r.auto[:4] + (r.auto[4] | {(p, loose)},)
                out.append((r, moved))
            if n & cs:
                r, e = self.run_of(eng, ins, q, cs, 0, not s)
                r.facts[("s", ("N", e))] = dom_of(ALL - cs | loose)
                out.append((r, max(moved, 1 + (10 in cs))))
        return out

    def exclude(self, st, p, cs):
        """the byte at p is none of cs"""
        s = self.nxt(st, p)
        k = s[1] if s else ("s", ("N", p))
        left = self.chars(st, k) - cs
        if st.auto[1] != p and left:
            st.facts[k] = dom_of(left)

    def space_token(self, eng, ins, q, clean, out):
        """white space from p to the position becomes a token"""
        self.emits += 1
        if not clean:
            self.bad("text-lost", ins, q, "white space starts here although text before it is not part of any token",
                     "P17")
        self.commit(eng, q)
        return [(out, eng.fresh(q, ("TK", ins.where)))]

    def commit(self, eng, st):
        """a token ends at the position; what follows it is read again"""
        c = self.cur(st)
        end = c if st.auto[1] == c and self.eof(st) else None
        tok = ("P", "token")
        st.auto = (frozenset([c]), end, frozenset(), frozenset(), frozenset())
        if c[1] != tok:
            if eng.uses(st, tok):
                eng.rename(st, tok, ("P", "token", "old"))
            eng.rename(st, c[1], tok)
        self.tidy(st)

    def c_lexer_eat_spaces(self, eng, ins, args, st):
        cs = ch(" \t\f")
        out = []
        for q, moved in self.over(eng, ins, st, cs):
            mem = []
            if moved and args[1] != ("i", 0):
                mem = self.space_token(eng, ins, q, self.cur(st) in st.auto[0], args[1])
            out.append(dict(base=q, ret=("i", int(moved > 0)), mem=mem, havoc=False,
                            note="spaces skipped" if moved else "no spaces"))
        return out

    def c_lexer_eat_lines(self, eng, ins, args, st):
        p = self.cur(st)
        n = self.next_bytes(st, p)
        none = st.copy()
        if args[1] == ("i", 0):
            self.exclude(none, p, ch("\n"))
        out = [dict(base=none, ret=("i", 0), havoc=False, note="no lines skipped")]
        s = self.run_at(st, p)
        if not n & BLANK or s and 10 not in s[1][1] and not self.next_bytes(st, s[2]) & (BLANK | {None}):
            return out
        if args[1] != ("i", 0):
            q, e = self.run_of(eng, ins, st, ch("\n"))
            self.lines(q, p, e)
            out.append(dict(base=q, ret=("i", 0), havoc=False, note="some lines skipped"))
        q, e = self.run_of(eng, ins, st, ch("\n"))
        self.lines(q, p, e)
        if args[1] == ("i", 0):
            self.exclude(q, e, ch("\n"))
        mem = []
        if args[2] != ("i", 0):
            mem = self.space_token(eng, ins, q, p in st.auto[0], args[2])
        ret = eng.fresh(q, ("LINES", ins.where))
        out.append(dict(base=q, ret=ret, facts=[(ret, (1, None, frozenset()))], mem=mem, havoc=False,
                        note="lines skipped"))
        return out

    def lines(self, st, p, e):
        d = self.ds(st, p)
        if p not in st.auto[0] and not isinstance(d, frozenset):
            # blanks up to a line break, then any number of blanks
            m = {d: 1}
            work = [d]
            while work:
                a = work.pop()
                for c in ch(" \t\r"):
                    b = step(a, c)
                    if b not in m:
                        m[b] = 1
                        work.append(b)
            to = {step(a, 10) for a in m}
            while True:
                n = to | {step(a, c) for a in to for c in ch(" \t\r\n")}
                if n == to:
                    break
                to = n
            self.with_(st, e, to.pop() if len(to) == 1 else frozenset(to))

    def c_lexer_eat_lines_and_spaces(self, eng, ins, args, st):
        p = self.cur(st)
        out = []
        l = eng.loc(args[1])
        if args[1] != ("i", 0) and (l is None or l[1] is None):
            raise AnalysisError("%s: start of the line not understood" % ins.where)
        for q, moved in self.over(eng, ins, st, ch(" \t\f\r\n"), ch("\r")):
            out.append(dict(base=q, havoc=False, note="blanks skipped" if moved else "nothing skipped"))
            if moved > 1 and args[1] != ("i", 0):
                # the start of the last line, somewhere on the way
                r = q.copy()
                self.copy_state(r, l)
                out.append(dict(base=r, havoc=False, note="lines skipped"))
                r = q.copy()
                e = self.cur(r)
                r.env["$e"] = e
                m, _ = self.newpos(eng, r, ins, 1)
                self.with_(r, m, None, clean=self.cur(st) in st.auto[0])
                self.set_cur(r, m)
                self.copy_state(r, l)
                self.set_cur(r, r.env.pop("$e"))
                out.append(dict(base=r, havoc=False, note="lines and blanks skipped"))
        return out

    def copy_state(self, st, l):
        for k, v in list(st.mem.items()):
            if k[0] == ("S", "LX") and k[1] is not None and self.st <= k[1] < self.st + 24:
                st.mem[(l[0], l[1] + k[1] - self.st)] = v

    def c_lexer_eof(self, eng, ins, args, st):
        p = self.cur(st)
        if self.eof(st) or st.auto[1] == p:
            return [dict(ret=("i", 1), havoc=False)]
        if self.nxt(st, p):
            return [dict(ret=("i", 0), havoc=False)]
        q = st.copy()
        self.set_end(q, p)
        return [dict(base=q, ret=("i", 1), havoc=False), dict(ret=("i", 0), havoc=False)]

    def start(self, eng, st, v):
        l = eng.loc(v)
        x = st.mem.get((l[0], l[1] + self.off)) if l and l[1] is not None else None
        if x is None or x[0][0] != "s" or not isinstance(x[0][1], tuple) or x[0][1][0] != "P":
            return None
        return x[0]

    def c_lexer_buffer_slice(self, eng, ins, args, st):
        p, c = self.start(eng, st, args[1]), self.cur(st)
        if p is None:
            raise AnalysisError("%s: start of the text not understood" % ins.where)
        if p == c:
            return [dict(ret=("i", 0), mem=[(args[2], ("i", 0))], havoc=False)]
        return [dict(ret=("s", ("SL", p, c)), mem=[(args[2], ("s", ("SN", p, c)))], havoc=False)]

    def find(self, eng, ins, args, st):
        l = eng.loc(args[1])
        v = st.mem.get(l) if l else None
        key = v[0] if v else None
        if key is None or not (key[0] == "s" and isinstance(key[1], tuple) and key[1][0] == "SL"):
            return None
        _, p, c = key[1]
        if args[2] != ("s", ("SN", p, c)):
            self.bad("other-text", ins, st, "a keyword is looked up by other text than the one consumed", "P18")
            return None
        none = dict(ret=("i", 0), havoc=False, note="no such keyword")
        if args[0] != ("s", ("MAP", "clang_tokens")):
            k = ("s", ("FOUND", p, c))
            return [none, dict(ret=k, facts=[(k, (1, None, frozenset()))], havoc=False, note="found")]
        out = []
        for q, t in self.texts(st, p, c):
            if t is not None:
                if t not in self.table:
                    out.append(dict(none, base=q, note="%s is no keyword" % t))
                    continue
                k = ("s", ("KWP", t))
            else:
                first = self.first_bytes(q, p)
                keys = [k for k in self.table if k[0] in first]
                if self.ds(q, c) == "X":
                    # not even the start of an operator
                    keys = [k for k in keys if ord(k[0]) in IDC]
                out.append(dict(none, base=q))
                if not keys:
                    continue
                k = ("s", ("KWP", "@", p, c))
            out.append(dict(base=q, ret=k, facts=[(k, (1, None, frozenset()))], havoc=False, note="keyword found"))
        return out

    def texts(self, st, p, c):
        """states along with the exact text between p and c, None: not an operator"""
        s = self.nxt(st, p)
        d = self.ds(st, c)
        if s is None or self.chars(st, s[1]) & BLANK or p not in st.auto[0] or isinstance(d, frozenset) or d is None:
            return [(st, None)]
        if d[0] == "=":
            return [(st, d[1:])]
        if s[2] == c and not any(chr(b) in self.table for b in self.chars(st, s[1])):
            return [(st, chr(min(self.chars(st, s[1]))))]
        if d not in ("OP", "DOT", "SL") or s[2] != c:
            return [(st, None)]
        out = []
        for b in sorted(self.chars(st, s[1])):
            q = st.copy()
            q.facts[s[1]] = dom_of(frozenset([b]))
            self.with_(q, c, "=" + chr(b))
            out.append((q, chr(b)))
        return out

    def first_bytes(self, st, p):
        return frozenset(chr(c) for c in self.next_bytes(st, p) if c is not None)

    def c_lexer_emit(self, eng, ins, args, st):
        if args[2][0] != "i":
            return [dict(**x) for t in (self.T["TOKEN_STRING"], self.T["TOKEN_LITERAL"])
                    for x in self.emitted(eng, ins, args, st.copy(), ("i", t), ("i", 0))] \
                if self.select(eng, st, args[2]) else self.emitted(eng, ins, args, st, args[2], ("i", 0))
        return self.emitted(eng, ins, args, st, args[2], ("i", 0))

    def select(self, eng, st, v):
        return False

    def c_lexer_emit_template(self, eng, ins, args, st):
        tk = args[2]
        if tk[0] == "s" and isinstance(tk[1], tuple) and tk[1][0] == "KW":
            return self.emitted(eng, ins, args, st, None, None)
        lt = eng.loc(tk)
        if lt is None or lt[0][0] != "A" or lt[1] is None:
            raise AnalysisError("%s: token emitted not understood: %s" % (ins.where, tk))

        def field(n):
            return eng.norm(st, eng.mload(st, eng.padd(tk, self.to[n]), ("struct.token", self.to[n]), (n,), True))
        return self.emitted(eng, ins, args, st, field("tk_type"), field("tk_str"), field("tk_flags"))

    def emitted(self, eng, ins, args, st, typ, text, flags=None):
        self.emits += 1
        p, c = self.start(eng, st, args[1]), self.cur(st)
        if p is None:
            raise AnalysisError("%s: start of a token not understood" % ins.where)
        self.check(eng, ins, args, st, typ, text, p, c)
        q = st.copy()
        self.commit(eng, q)
        q.note("%s: token emitted" % ins.where)
        ret = eng.fresh(q, ("TK", ins.where))
        return [dict(base=q, ret=ret, havoc=False)]

    def check(self, eng, ins, args, st, typ, text, p, c):
        T = self.T
        M, end, steps, ds, no = st.auto
        if p not in M:
            self.bad("text-lost", ins, st, "a token starts here although text before it is not part of any token", "P17")
        if text is not None and text != ("i", 0):
            txt = cstr(self.prog, ins.fn.tu, text)
            if txt is None or txt.strip() or c not in M:
                self.bad("other-text", ins, st, "the text of a token is not the text consumed", "P17")
        d = states(self.ds(st, c))
        n = self.next_bytes(st, c)
        if typ is None:
            kw = args[2][1]
            self.kind("keyword" if kw[1] == "@" else "operator")
            if kw[1] == "@":
                if (kw[2], kw[3]) != (p, c):
                    self.bad("other-text", ins, st, "the text of the keyword emitted is not the text consumed", "P17")
                if d <= {"ID", "PX", "PU", "P8"}:
                    self.whole(ins, st, d, n, ("ID", "PX", "PU", "P8", "STR", "CHR"), "an identifier or keyword")
                else:
                    self.bad("token-cut", ins, st, "a keyword may be cut out of a longer token", "P18")
            elif d != {"=" + kw[1]}:
                self.bad("other-text", ins, st, "the operator emitted is %s, the text consumed is not" % kw[1], "P17")
            else:
                m = self.longer(st, kw[1], c)
                if m:
                    self.bad("token-cut", ins, st, "%s is read where the source may continue with %s" % (kw[1], m),
                             "P18")
            return
        if typ[0] == "s" and isinstance(typ[1], tuple) and typ[1] and typ[1][0] == "DTYPE":
            t = -1
        elif typ[0] != "i":
            raise AnalysisError("%s: type of a token not understood: %s" % (ins.where, typ))
        else:
            t = typ[1]
        if t == T["LEXER_EOF"]:
            self.kind("end")
            if c not in M or end != c:
                self.bad("early-end", ins, st, "the end of the source is reported although there is text left", "P17")
        elif t == T["TOKEN_SPACE"]:
            self.kind("space")
            if c not in M:
                self.bad("text-as-space", ins, st, "text other than blanks is treated as white space", "P17")
        elif t == T["TOKEN_NONE"]:
            self.kind("rejected")
        elif t == T["TOKEN_IDENT"]:
            self.kind("identifier")
            if not d <= {"ID", "PX", "PU", "P8"}:
                self.bad("wrong-kind", ins, st, "something else than an identifier becomes one", "P18")
            else:
                self.whole(ins, st, d, n, ("ID", "PX", "PU", "P8", "STR", "CHR"), "an identifier")
        elif t == T["TOKEN_STRING"]:
            self.kind("string")
            if not d <= {"SEND"}:
                self.bad("wrong-kind", ins, st, "a string literal does not end at its closing quote", "P18")
        elif t == T["TOKEN_LITERAL"]:
            self.kind("literal")
            if d <= {"NUM", "NE"}:
                self.whole(ins, st, d, n, ("NUM", "NE"), "a number")
            elif not d <= {"CEND"}:
                self.bad("wrong-kind", ins, st, "a character constant or number does not end where it should", "P18")
        elif t == T["TOKEN_COMMENT"]:
            self.kind("comment")
            if end == c or d <= {"BCE", "LCN"}:
                pass
            elif d <= {"LC"} and n and n <= ch("\n"):
                pass
            else:
                self.bad("wrong-kind", ins, st, "a comment does not end where it should", "P18")
        else:
            self.kind("directive")
            if d <= {"DIRN", "DX"} or end == c:
                pass
            elif d <= {"DIR", "DIRS", "DL", "DQ", "DA", "DX"} and n and n <= ch("\n"):
                pass
            else:
                self.bad("wrong-kind", ins, st, "a preprocessor directive does not end at the end of its line", "P18")

    def kind(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def whole(self, ins, st, d, n, more, what):
        if any(step(s, c) in more for s in d for c in n if c is not None):
            self.bad("token-cut", ins, st, "%s may end although the next byte is part of it" % what, "P18")

    def longer(self, st, t, c):
        """an operator longer than t which may be what the source contains at c"""
        for b in self.next_bytes(st, c):
            if b is None:
                continue
            u = t + chr(b)
            if t == "." and b in DIG:
                return "a number"
            if u in ("//", "/*"):
                return "a comment"
            if u in PUNCT:
                return u
            if u in PREFIX:
                s = self.nxt(st, c)
                if s is None:
                    return [x for x in PUNCT if x.startswith(u)][0]
                m = self.longer(st, u, s[2])
                if m:
                    return m
        return None


def table_of(prog):
    """keyword -> (type, flags)"""
    tu = prog.need("clang_init", "clang.c").tu
    rows = {}
    for g, (t, v, _, _) in tu.globals.items():
        if not g.startswith("__const") and isinstance(t, tuple) and t[0] == "arr" and t[2] == "%struct.token":
            if not v or v[0] != "agg":
                raise AnalysisError("table of keywords not understood")
            rows[g] = [row for _, row in v[1]]
    o = offs(prog, "token", ["tk_type", "tk_str", "tk_len", "tk_flags"], "clang.c")
    out, flags, bad = {}, {}, []
    for g in rows:
        for row in rows[g]:
            if row[0] != "agg":
                raise AnalysisError("table of keywords not understood")
            f = {tu.field_off("%struct.token", i)[0]: x for i, (_, x) in enumerate(row[1])}
            k = prog.gstr(tu, f[o["tk_str"]])
            if k is None or k in out and out[k][0] != f[o["tk_type"]][1]:
                raise AnalysisError("table of keywords not understood")
            out[k] = (f[o["tk_type"]][1], f[o["tk_flags"]][1])
            flags[out[k][0]] = flags.get(out[k][0], 0) | out[k][1]
            if f[o["tk_len"]] != ("i", len(k)):
                bad.append((g, k))
    # aliases inherit them
    out = {k: (t, flags[t]) for k, (t, f) in out.items()}
    return out, bad


def readers(prog):
    """functions moving in the source or looking at its text, in terms of the primitives"""
    here = [f for f in prog.functions() if f.tu.short in ("clang.c", "lexer.c") and f.name not in PRIM | STATE]
    out, names = set(), PRIM | STATE | {"map_find_n"}
    ch = True
    while ch:
        ch = False
        for f in here:
            if f in out:
                continue
            for i in f.calls():
                if i.callee[0] == "g" and (i.callee[1] in names or prog.resolve(f.tu, i.callee[1]) in out):
                    out.add(f)
                    ch = True
                    break
    return out


def walk(prog, res, prop):
    fn = prog.need("clang_read", "clang.c")
    c = Read(prog, res, prop)
    eng = Engine(prog, c)
    c.table, c.badlen = table_of(prog)
    c.reach = readers(prog)
    p0 = ("s", ("P", "token"))
    for flags, end in ((0, None), (2, p0)):
        mem = {c.CUR: (p0, ("struct.lexer_state", c.off)), c.FL: (("i", flags), ("struct.lexer_state", c.fl))}
        st = State({}, mem, {}, (frozenset([p0]), end, frozenset(), frozenset(), frozenset()))
        outs = eng.run(fn, [("s", "LX"), ("s", "CL")], st)
        r = ret_ins(fn)
        for rv, q in outs:
            res.obligations += 1
            p = c.cur(q)
            if p is None:
                raise AnalysisError("position lost")
            if p not in q.auto[0]:
                c.bad("text-lost", r, q, "text behind the token was consumed without becoming part of a token", "P17")
            if c.eof(q) and q.auto[1] != p:
                c.bad("early-end", r, q, "the end of the source is assumed although there is text left", "P17")
    return c, eng


def table(prog, res, c):
    """the operators of C are known, with the length they have"""
    fn = prog.need("clang_init", "clang.c")
    r = ret_ins(fn)
    for g, k in c.badlen:
        res.violate("P18", "table", "%s (clang.c)" % g, "the length of \"%s\" is another one" % k, [], "table %s" % k)
    for k in PUNCT:
        res.obligations += 1
        if k not in c.table:
            res.violate("P18", "table", "%s (clang_init)" % r.where, "\"%s\" is not known" % k, [], "table %s" % k)
    discard = macro("token.h", "TOKEN_FLAG_DISCARD")
    for k, (_, f) in sorted(c.table.items()):
        res.obligations += 1
        if f & discard and k != "\\":
            res.violate("P17", "text-as-space", "%s (clang_init)" % r.where, "\"%s\" is dropped" % k, [], "drop %s" % k)
