"""P20: a patch selects exactly the lines it adds.

The patch is walked line by line: numbers are affine terms over N, the number of the line of the new file the next line of
the hunk stands for, and R, how many lines of the new file the hunk still has."""
import re
from collections import namedtuple

from absint import Client, Engine, State
from docs import cstr, offs
from ir import AnalysisError, macro
from lexprim import Prim
from lexread import ranges_of
from tokens import ret_ins

SIGNED = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}
FLIP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "eq": "eq", "ne": "ne"}
NEG = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "eq": "ne", "ne": "eq"}

# hunk: inside of a hunk; rem: bounds of the number of lines left of it; nmin: N is at least that; cls: first byte of the line
# at hand if it belongs to the hunk; ch: the last range (none, new, open, closed); at: its last line relative to N;
# file: a file was named; path: a file was named and not yet taken note of; end: all of the patch was read;
# fail: reading failed
Auto = namedtuple("Auto", "hunk rem nmin cls ch at file path end fail pat")
START = Auto(False, (0, 0), 1, None, "none", 0, False, False, False, False, None)


def A(a, b, c):
    return ("i", c) if a == b == 0 else ("s", ("A", a, b, c))


def affine(v):
    if v[0] == "i":
        return (0, 0, v[1])
    if v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "A":
        return v[1][1:]
    return None


def shift(v, f):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "A" and isinstance(v[1], int):
            return f(v)
        out = tuple(shift(x, f) if isinstance(x, tuple) else x for x in v)
        return out if out != v else v
    return v


class Patch(Client):
    max_states = 150000
    max_seconds = 200
    roots = ("FILES", "ETERNAL", "SCRATCH", "OP", "FILE", "VEC", "CHUNK", "LINE", "PBUF")

    def __init__(self, prog, res, prop, groups):
        self.prog, self.res, self.prop, self.groups = prog, res, prop, groups
        self.fd = offs(prog, "file", ["fe_diff"], "diff.c")["fe_diff"]
        o = offs(prog, "diffchunk", ["du_beg", "du_end"], "diff.c")
        self.beg, self.end = o["du_beg"], o["du_end"]
        self.events = 0

    def relevant(self, fn):
        return fn.tu.short == "diff.c" and fn.name not in ("diff_init", "diff_shutdown", "diff_get_chunk")

    def never_null(self, sid):
        return sid in self.roots or isinstance(sid, tuple) and sid and sid[0] in ("GRP",)

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def keep(self, sid):
        return False

    def bad(self, rule, ins, st, msg):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (ins.fn.name, rule))

    # ------------------------------------------------------------------ numbers
    def exact(self, st, t):
        a, b, c = t
        lo, hi = st.auto.rem
        if b and lo == hi:
            return (a, 0, c + b * lo)
        return t

    def arith(self, eng, ins, op, x, y, st):
        a, b = affine(x), affine(y)
        if op in ("add", "sub") and a and b and (a[:2] != (0, 0) or b[:2] != (0, 0)):
            s = 1 if op == "add" else -1
            # an added -1 may come as a large unsigned one
            t = [p + s * q for p, q in zip(a, b)]
            if t[2] >= 1 << 31:
                t[2] -= 1 << 32
            return A(*self.exact(st, tuple(t)))
        if op in ("add", "sub") and a and b and a[2] == abs(a[2]) <= 8:
            # what is left of a hunk, known by now
            t = a[2] + (b[2] if op == "add" else -b[2])
            t -= 1 << 32 if t >= 1 << 31 else 0
            if abs(t) <= 8 and eng.induction(ins.fn, ins):
                return ("i", t)
        return None

    def cmp(self, eng, ins, pred, x, y, st):
        a, b = affine(x), affine(y)
        if not a or not b or (a[:2] == (0, 0) and b[:2] == (0, 0)):
            return None
        pred = SIGNED.get(pred, pred)
        d = self.exact(st, tuple(p - q for p, q in zip(a, b)))
        if d[0] < 0 or d[0] == 0 and d[1] < 0:
            d = tuple(-v for v in d)
            pred = FLIP[pred]
        if d[0] == 0 and abs(d[1]) <= 1:
            if d[1] == 0:
                return self.const(pred, d[2])
            return ("c", pred, ("s", "R"), ("i", -d[2]))
        if d[0] == 1 and d[1] == 0:
            # N pred k
            k, m = -d[2], st.auto.nmin
            if m > k:
                return ("i", int(pred in ("ne", "sgt", "sge")))
            if m == k and pred in ("sge", "slt"):
                return ("i", int(pred == "sge"))
            return ("c", pred, ("s", "N"), ("i", k))
        if d[0] == 1 and d[1] == 1:
            return ("c", pred, ("s", "NR"), ("i", -d[2]))
        raise AnalysisError("%s: comparison not understood" % ins.where)

    @staticmethod
    def const(pred, d):
        return ("i", int({"eq": d == 0, "ne": d != 0, "slt": d < 0, "sle": d <= 0, "sgt": d > 0, "sge": d >= 0}[pred]))

    def branch(self, eng, ins, cond, taken, st, ctx):
        if cond[0] != "c":
            return
        pred, x, y = cond[1:]
        if y[0] != "i" or x not in (("s", "R"), ("s", "N"), ("s", "NR"), ("s", "ERRNO")):
            return
        st.facts.pop(x, None)
        st.facts = {k: v for k, v in st.facts.items() if not (k[0] == "c" and x in k)}
        pred = SIGNED.get(pred, pred)
        if not taken:
            pred = NEG[pred]
        k = y[1]
        if x == ("s", "ERRNO"):
            if pred == "ne" and k == 0:
                st.auto = st.auto._replace(hunk=False)
            return
        if pred == "slt":
            pred, k = "sle", k - 1
        if pred == "sgt":
            pred, k = "sge", k + 1
        if k > 1 << 20:
            if pred == "sge" and x != ("s", "NR"):
                st.auto = st.auto._replace(hunk=False)
            return
        if x == ("s", "N"):
            if pred in ("sle", "eq") and k <= 0 or pred == "eq" and k < st.auto.nmin:
                # no line has that number
                st.auto = st.auto._replace(hunk=False)
            elif pred == "sge":
                st.auto = st.auto._replace(nmin=max(st.auto.nmin, min(k, 4)))
            return
        if x == ("s", "NR"):
            return
        lo, hi = st.auto.rem
        if pred == "eq":
            if k < lo or hi is not None and k > hi:
                return False
            lo = hi = k
        elif pred == "ne":
            if lo == hi == k:
                return False
            if lo == k:
                lo += 1
        elif pred == "sge":
            lo = max(lo, k)
        elif pred == "sle":
            hi = k if hi is None else min(hi, k)
        if hi is not None and lo > hi:
            return False
        st.auto = st.auto._replace(rem=(min(lo, 3), hi if hi is not None and hi <= 3 else None))
        self.settle(st)

    def settle(self, st):
        if st.auto.rem[0] == st.auto.rem[1]:
            self.rewrite(st, lambda v: ("A",) + self.exact(st, v[1:]))

    def rewrite(self, st, f):
        def g(v):
            t = f(v)
            return t

        def fix(v):
            v = shift(v, g)
            return self.plain(v)
        st.env = {k: fix(v) for k, v in st.env.items()}
        st.mem = {k: (fix(v[0]),) + tuple(v[1:]) for k, v in st.mem.items()}
        st.facts = {k: v for k, v in st.facts.items() if shift(k, lambda t: None) == k}

    def plain(self, v):
        if v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "A" and v[1][1] == v[1][2] == 0:
            return ("i", v[1][3])
        return v

    # -------------------------------------------------------------------- lines
    def commit(self, ins, st):
        """the line at hand was dealt with"""
        a = st.auto
        if a.path:
            self.bad("file-ignored", ins, st, "a file named by the patch is not taken note of")
        if a.cls is None:
            return
        self.res.obligations += 1
        if a.ch == "new":
            self.bad("wrong-lines", ins, st, "a range of lines has no beginning")
        ch, at = a.ch, a.at
        if a.cls == 43:
            if ch == "open" and at in (0, -1):
                at = 0
            elif ch == "open":
                self.bad("wrong-lines", ins, st, "a line not added by the patch is selected")
            elif not (ch == "closed" and at == 0):
                self.bad("line-missed", ins, st, "a line added by the patch is not selected")
        elif ch == "closed" and at == 0 and a.cls not in (45, 92):
            self.bad("wrong-lines", ins, st, "a line not added by the patch is selected")
        if a.cls in (45, 92):
            st.auto = a._replace(cls=None)
            return
        lo, hi = a.rem
        st.auto = a._replace(cls=None, rem=(max(lo - 1, 0), hi if hi is None else max(hi - 1, 0)), nmin=min(a.nmin + 1, 4), at=max(at - 1, -3))
        # lines far behind are of no interest
        self.rewrite(st, lambda v: ("A", v[1], v[2], v[3] - v[1] + v[2]) if abs(v[3]) < 8 else "STALE")
        self.settle(st)

    def over(self, ins, st):
        """the hunk ends here"""
        if st.auto.ch == "open":
            self.bad("wrong-lines", ins, st, "a range of lines is not ended at the end of the hunk")
        st.auto = st.auto._replace(hunk=False)

    def getline(self, ins, st):
        st = st.copy()
        self.events += 1
        self.commit(ins, st)
        out = []
        lo, hi = st.auto.rem
        if st.auto.hunk and lo == 0 and hi != 0:
            work = [((0, 0), st.copy()), ((1, hi), st.copy())]
        else:
            work = [(st.auto.rem, st)]
        for r, q in work:
            q.auto = q.auto._replace(rem=r)
            self.settle(q)
            e = q.copy()
            e.auto = e.auto._replace(end=True, pat=None)
            out.append(dict(base=e, ret=("i", 0), havoc=False, note="no more lines"))
            if q.auto.hunk and r[0] > 0:
                if not q.auto.file:
                    self.bad("accepted", ins, q, "a hunk before the name of its file is accepted")
                for c in (43, 45, 92, 32, 0):
                    b = q.copy()
                    b.auto = b.auto._replace(cls=c, pat=None)
                    out.append(dict(base=b, ret=("s", "LINE"), havoc=False, note="line of the hunk: %r" % chr(c)))
            else:
                if q.auto.hunk:
                    self.over(ins, q)
                q.auto = q.auto._replace(pat=None)
                out.append(dict(base=q, ret=("s", "LINE"), havoc=False, note="line outside of hunks"))
        return out

    # ------------------------------------------------------------------- memory
    def on_goto(self, eng, st):
        st.mem = {k: v for k, v in st.mem.items() if k[0] not in (("S", "CHUNK"), ("S", "ERRNO"), ("S", "FILE"), ("S", "LINE")) and
                  k[0][0] != "G" or k[0][1] == "env"}

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        a = st.auto
        if b == ("S", "LINE") and o == 0 and ins.ty == "i8":
            return ("i", a.cls) if a.cls is not None else None
        if b == ("S", "FILE") and o == self.fd:
            return ("s", "VEC")
        if b == ("S", "CHUNK") and o == self.beg:
            if a.ch == "new":
                return ("i", 0)
            v = ("s", "BEGIN")
            st.facts[v] = (1, None, frozenset())
            return v
        if b == ("S", "CHUNK") and o == self.end:
            if a.ch in ("new", "open"):
                return ("i", 0)
            if a.at > -3 and a.hunk:
                return A(1, 0, a.at)
            v = ("s", "ENDED")
            st.facts[v] = (1, None, frozenset())
            return v
        if b == ("S", "ERRNO"):
            return ("s", "ERRNO") if st.auto.pat else None
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0] != ("S", "CHUNK"):
            return
        a = st.auto
        self.events += 1
        self.res.obligations += 1
        t = affine(val)
        t = self.exact(st, t) if t else None
        if not a.hunk:
            return self.bad("wrong-lines", ins, st, "a range of lines is changed outside of hunks")
        if l[1] == self.beg:
            if a.ch != "new" or a.cls != 43 or t != (1, 0, 0):
                self.bad("wrong-lines", ins, st, "a range of lines does not begin at the line added")
            st.auto = a._replace(ch="open", at=0)
        elif l[1] == self.end:
            want = set()
            if a.ch == "open":
                want = {a.at}
                if a.cls == 43 and a.at == -1:
                    want.add(0)
            elif a.ch == "closed":
                want = {a.at}
                if a.cls == 43 and a.at == -1:
                    want.add(0)
            if t is None or t[:2] != (1, 0) or t[2] not in want:
                self.bad("wrong-lines", ins, st, "a range of lines does not end at the last line added")
                t = (1, 0, a.at)
            st.auto = a._replace(ch="closed", at=t[2])

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "LINE") and len(idx) == 1 and idx[0][0] == "s" and isinstance(idx[0][1], tuple) and \
                idx[0][1][0] == "SO":
            return ("s", ("GRP", idx[0][1][1]))
        if base == ("s", "VEC") and len(idx) == 1:
            if idx[0] == ("s", "LAST"):
                return ("s", "CHUNK")
            raise AnalysisError("%s: range not understood" % ins.where)
        return None

    # -------------------------------------------------------------------- calls
    def call(self, eng, ins, name, args, st, ctx):
        a = st.auto
        if name in ("arena_buffer_read", "arena_buffer_read_fd"):
            q = st.copy()
            q.auto = a._replace(fail=True)
            return [dict(base=q, ret=("i", 0), havoc=False), dict(ret=("s", "PBUF"), havoc=False)]
        if name in ("arena_buffer_getline", "buffer_getline_impl", "buffer_getline"):
            return self.getline(ins, st)
        if name == "regexec":
            g = args[0]
            g = self.groups.get(g[1][2]) if g[0] == "p" and g[1][0] == "G" else None
            if g is None or args[1] != ("s", "LINE"):
                raise AnalysisError("%s: pattern not understood" % ins.where)
            if a.cls is not None:
                self.bad("hunk-line", ins, st, "a line of a hunk may be taken for a header")
            self.events += 1
            rm = args[3]
            if rm[0] != "p" or args[2][0] != "i" or args[2][1] <= max(v for v in g[1:3]):
                raise AnalysisError("%s: groups not understood" % ins.where)
            out = [dict(ret=("i", 1), havoc=True)]

            def mem(unset):
                m = []
                for i in range(args[2][1]):
                    so, eo = (("i", -1), ("i", -1)) if i in unset else (("s", ("SO", i)), ("s", ("EO", i)))
                    m += [((rm[1], rm[2] + 8 * i), (so, ("struct.regmatch_t", 0))),
                          ((rm[1], rm[2] + 8 * i + 4), (eo, ("struct.regmatch_t", 4)))]
                return m
            facts = [(("s", (k, i)), (0, 1 << 20, frozenset())) for k in ("SO", "EO") for i in range(8)]
            if g[0] == "path":
                q = st.copy()
                q.auto = a._replace(path=True, pat="path")
                out.append(dict(base=q, ret=("i", 0), rawmem=mem(()), facts=facts, havoc=False, note="names a file"))
            else:
                if a.pat is not None:
                    raise AnalysisError("%s: line matched twice" % ins.where)
                for unset, r in (((), (0, None)), (g[3], (1, 1))):
                    q = st.copy()
                    self.rewrite(q, lambda v: "STALE")
                    q.auto = q.auto._replace(hunk=True, rem=r, nmin=1, at=-3, pat="hunk")
                    out.append(dict(base=q, ret=("i", 0), rawmem=mem(unset), facts=facts, havoc=False,
                                    note="starts a hunk"))
            return out
        if name in ("strtoul", "strtoull", "strtol", "strtoll", "strtonum", "atoi", "strtoumax"):
            p = args[0]
            if p[0] != "s" or not isinstance(p[1], tuple) or p[1][0] != "GRP":
                raise AnalysisError("%s: number not understood" % ins.where)
            g = next(v for v in self.groups.values() if v[0] == "hunk")
            if p[1][1] == g[1]:
                return [dict(ret=A(1, 0, 0), havoc=False)]
            if p[1][1] == g[2]:
                return [dict(ret=A(*self.exact(st, (0, 1, 0))), havoc=False)]
            self.bad("wrong-lines", ins, st, "the number taken is not the first or the count of lines of the new file")
            return [dict(havoc=False)]
        if name == "__errno_location":
            return [dict(ret=("s", "ERRNO"), havoc=False)]
        if name == "files_alloc":
            q = st.copy()
            if not a.path:
                self.bad("file-ignored", ins, q, "a file is taken note of that was not named")
            q.auto = a._replace(path=False, file=True, ch="none", at=-3)
            return [dict(base=q, ret=("s", "FILE"), havoc=False)]
        if name == "vector_last":
            if args[0] != ("s", "VEC"):
                return None
            return [dict(ret=("i", -1) if a.ch == "none" else ("s", "LAST"),
                         facts=[(("s", "LAST"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name == "vector_length" and args[0] == ("s", "VEC"):
            return [dict(ret=("i", 0) if a.ch == "none" else ("s", "LENGTH"), havoc=False,
                         facts=[(("s", "LENGTH"), (1, 1 << 40, frozenset()))])]
        if name == "vector_alloc":
            p = eng.loc(args[0])
            if p != (("S", "FILE"), self.fd):
                return None
            q = st.copy()
            self.events += 1
            if a.ch in ("open", "new"):
                self.bad("wrong-lines", ins, q, "a range of lines is not ended")
            if args[1] != ("i", 1):
                raise AnalysisError("%s: memory not cleared" % ins.where)
            q.auto = a._replace(ch="new", at=-3)
            return [dict(ret=("i", -1), havoc=False),
                    dict(base=q, ret=("s", "LAST"), facts=[(("s", "LAST"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name in ("trace", "tracef", "options_trace_level"):
            return [dict(ret=("i", 0), havoc=False)]
        if name in ("strncmp", "memcmp"):
            lit = [x for x in (cstr(self.prog, ins.fn.tu, v) for v in args[:2]) if x is not None]
            if len(lit) == 1 and args[2][0] == "i" and args[2][1] < len(lit[0]):
                self.bad("header", ins, st, "a path is taken for one starting with %r by less than that" % lit[0])
        if name in ("arena_strndup", "stat", "strncmp", "memcmp", "memchr", "searchpath"):
            return [dict(havoc=name == "stat")]
        t = self.prog.resolve(ins.fn.tu, name) if name else None
        if t is not None and self.relevant(t):
            return None
        return [dict(havoc=True)]


def patterns(prog, res, prop):
    """what the regular expressions of diff.c are for: name of the variable -> (kind, groups)"""
    tu = next((t for t in prog.tus if t.short == "diff.c"), None)
    if tu is None:
        raise AnalysisError("diff.c: not found")
    found = {}

    def scan(v, acc):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "g":
            acc.append(v[1])
        elif isinstance(v, (tuple, list)):
            for x in v:
                scan(x, acc)
    for g in list(tu.globals.values()):
        acc = []
        scan(g[1], acc)
        for a, b in zip(acc, acc[1:]):
            s = prog.gstr(tu, ("g", b))
            if s is not None:
                found[a] = s
    for fn in tu.functions.values():
        for ins in fn.instrs():
            if ins.op == "call" and ins.callee == ("g", "regcomp") and ins.args[0][0] == ins.args[1][0] == "g":
                found[ins.args[0][1]] = prog.gstr(tu, ins.args[1])
    out = {}
    for var, pat in found.items():
        pat = pat.decode() if isinstance(pat, bytes) else pat
        if not isinstance(pat, str) or not pat.startswith("^"):
            continue
        try:
            rx = re.compile(pat.replace("[:digit:]", "0-9").replace("[:space:]", " \\t\\r\\f\\v").replace("[:blank:]", " \\t"))
        except re.error:
            raise AnalysisError("diff.c: pattern %r not understood" % pat)
        kind = "hunk" if "@@" in pat else "path"
        where = "diff.c (%s)" % var
        if kind == "hunk":
            m = rx.search("@@ -11,22 +33,44 @@")
            g = [next((i for i in range(1, rx.groups + 1) if m and m.group(i) == t), None) for t in ("33", "44")]
            m = rx.search("@@ -11 +33 @@")
            if None in g or not m:
                res.violate(prop, "header", where, "a header of a hunk is not recognised", [pat], var)
                continue
            unset = tuple(i for i in range(1, rx.groups + 1) if m.group(i) is None)
            if g[1] not in unset:
                raise AnalysisError("diff.c: pattern %r not understood" % pat)
            out[var] = ("hunk", g[0], g[1], unset)
            for old in ("7", "7,1", "0,0", "123,45"):
                for a in ("1", "19", "305"):
                    for n in (None, "0", "1", "27"):
                        for tail in ("", " foo", " int a +5", " a +5,6 @@ b", "\tx"):
                            res.obligations += 1
                            m = rx.search("@@ -%s +%s%s @@%s" % (old, a, "" if n is None else "," + n, tail))
                            if not m or m.group(g[0]) != a or m.group(g[1]) != n:
                                res.violate(prop, "header", where, "a header of a hunk is misread", [pat, "@@ -%s +%s%s @@%s" % (
                                    old, a, "" if n is None else "," + n, tail)], var)
            no = ["--- a/x.c", "+++ b/x.c", "diff --git a/x b/x", "index 1..2 100644", "Index: x.c", "\\ No newline at end of file"]
        else:
            m = rx.search("+++ b/x.c")
            g = next((i for i in range(1, rx.groups + 1) if m and m.group(i) == "b/x.c"), None)
            if g is None:
                res.violate(prop, "header", where, "the name of a file is not recognised", [pat], var)
                continue
            out[var] = ("path", g)
            for p in ("b/x.c", "x.c", "b/src/a-b_c.h", "/a/b.c"):
                for tail in ("", "\t2024-01-01 00:00:00", "\t(working copy)"):
                    res.obligations += 1
                    m = rx.search("+++ " + p + tail)
                    if not m or m.group(g) != p:
                        res.violate(prop, "header", where, "the name of a file is misread", [pat, "+++ " + p + tail], var)
            no = ["--- a/x.c", "@@ -1 +1 @@", "diff --git a/x b/x", "index 1..2 100644", "Index: x.c", "++ x", "+ ++ x"]
        for t in no:
            res.obligations += 1
            if rx.search(t):
                res.violate(prop, "header", where, "%r is taken for a header" % t, [pat], var)
    if sorted(v[0] for v in out.values()) != ["hunk", "path"]:
        if res.violations:
            return None
        raise AnalysisError("diff.c: patterns not understood")
    return out


class Get(Client):
    """looking up a line: auto = (first, whether there is an element, line against begin, line against end)"""
    max_states = 5000
    max_seconds = 60
    roots = ("CHUNKS", "EL")

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        o = offs(prog, "diffchunk", ["du_beg", "du_end"], "diff.c")
        self.beg, self.end = o["du_beg"], o["du_end"]
        self.size = 8

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def relevant(self, fn):
        return fn.tu.short in ("diff.c", "lexer.c")

    def keep(self, sid):
        return True

    def bad(self, ins, st, msg):
        self.res.violate(self.prop, "lookup", "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s lookup" % ins.fn.name)

    def index(self, st, v):
        """v is the index of the element at hand"""
        return v == ("s", "IX") or v == ("i", 0) and st.auto[0]

    def reach(self, ins, st, v):
        """the index of the next element makes that one the element at hand once used"""
        if v == ("s", "NEXT"):
            self.advance(ins, st)
            st.env = {k: ("s", "IX") if w == ("s", "NEXT") else w for k, w in st.env.items()}
            return ("s", "IX")
        return v

    def advance(self, ins, st):
        _, inb, rb, re_ = st.auto
        self.res.obligations += 1
        if inb is not True or set(rb) & set("=>") and set(re_) & set("<="):
            self.bad(ins, st, "a range may be passed over without having been compared")
        for d in (st.env,):
            for k, v in list(d.items()):
                if v in (("s", "EL"), ("s", "BEG"), ("s", "END"), ("s", "IX")) or v == ("i", 0) and False:
                    d[k] = ("s", "OLD")
        st.facts = {}
        st.auto = (False, None, "<=>", "<=>")

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "CHUNKS") and len(idx) == 1 and ins.ty != "i8":
            if idx[0] == ("s", "LEN"):
                return ("s", "STOP")
            if self.index(st, self.reach(ins, st, idx[0])):
                return ("s", "EL")
            if idx[0][0] == "i" and idx[0][1] < 0:
                return None
            d = eng.defs(ins.fn).get(ins.args[0][1]) if ins.args[0][0] == "l" else None
            if idx[0] == ("i", 1) and st.auto[0] and d is not None and d.op == "phi":
                self.advance(ins, st)
                return ("s", "EL")
            if idx[0][0] == "i" and st.auto[0]:
                self.bad(ins, st, "a range may be passed over without having been compared")
                return ("s", "EL")
            raise AnalysisError("%s: element not understood" % ins.where)
        if base == ("s", "EL") and len(idx) == 1 and idx[0] == ("i", 1) and ins.ty != "i8":
            self.advance(ins, st)
            return ("s", "EL")
        return None

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if b == ("S", "CHUNKS") and o < 0:
            return ("s", "LEN")
        if b == ("S", "CHUNKS") and st.auto[0]:
            b = ("S", "EL")
        if b == ("S", "EL") and o in (self.beg, self.end):
            if st.auto[1] is not True:
                self.bad(ins, st, "a range behind the last one is looked at")
            return ("s", "BEG") if o == self.beg else ("s", "END")
        return None

    def arith(self, eng, ins, op, x, y, st):
        if op == "add" and y == ("i", 1) and eng.induction(ins.fn, ins) and self.index(st, self.reach(ins, st, x)):
            return ("s", "NEXT")
        return None

    def cmp(self, eng, ins, pred, x, y, st):
        pred = SIGNED.get(pred, pred)
        x, y = self.reach(ins, st, x), self.reach(ins, st, y)
        e = (("s", "EL"), ("s", "CHUNKS")) if st.auto[0] else (("s", "EL"),)
        if self.index(st, y) and x == ("s", "LEN") or x == ("s", "STOP") and y in e or \
                x in (("s", "BEG"), ("s", "END")) and y == ("s", "LNO"):
            x, y, pred = y, x, FLIP[pred]
        if self.index(st, x) and y == ("s", "LEN") or x in e and y == ("s", "STOP"):
            if st.auto[1] is not None:
                return Patch.const(pred, -1 if st.auto[1] else 0)
            return ("c", pred, ("s", "IX"), ("s", "LEN"))
        if x == ("s", "LNO") and y in (("s", "BEG"), ("s", "END")):
            s = st.auto[2 if y == ("s", "BEG") else 3]
            r = {self.rel(pred, k) for k in s}
            return ("i", int(r.pop())) if len(r) == 1 else ("c", pred, x, y)
        return None

    @staticmethod
    def rel(pred, k):
        return k in {"eq": "=", "ne": "<>", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[pred]

    def branch(self, eng, ins, cond, taken, st, ctx):
        if cond[0] != "c":
            return
        pred, x, y = cond[1:]
        if pred not in NEG:
            return
        f, inb, rb, re_ = st.auto
        if (x, y) == (("s", "IX"), ("s", "LEN")):
            s = "".join(k for k in "<=" if self.rel(pred, k) == taken)
            if not s:
                return False
            st.auto = (f, True if s == "<" else False if s == "=" else None, rb, re_)
            st.facts.pop(cond, None)
        elif x == ("s", "LNO") and y in (("s", "BEG"), ("s", "END")):
            if y == ("s", "BEG"):
                rb = "".join(k for k in rb if self.rel(pred, k) == taken)
                if rb == "<":
                    re_ = "<"
            else:
                re_ = "".join(k for k in re_ if self.rel(pred, k) == taken)
                if re_ == ">":
                    rb = ">"
            if not rb or not re_:
                return False
            st.auto = (f, inb, rb, re_)
        st.facts = {k: v for k, v in st.facts.items() if k[0] != "c"}

    def call(self, eng, ins, name, args, st, ctx):
        if name == "vector_length" and args[0] == ("s", "CHUNKS"):
            return [dict(ret=("s", "LEN"), havoc=False)]
        return None


def lookup(prog, res, prop):
    fn = prog.need("diff_get_chunk", "diff.c")
    c = Get(prog, res, prop)
    eng = Engine(prog, c)
    r = ret_ins(fn)
    n = 0
    for rv, q in eng.run(fn, [("s", "CHUNKS"), ("s", "LNO")], State({}, {}, {}, (True, None, "<=>", "<=>"))):
        n += 1
        res.obligations += 1
        f, inb, rb, re_ = q.auto
        if rv == ("i", 0):
            if inb is not False:
                c.bad(r, q, "the search ends before the last range")
        elif rv == ("s", "EL") or rv == ("s", "CHUNKS") and f:
            if inb is not True or not set(rb) <= set("=>") or not set(re_) <= set("<="):
                c.bad(r, q, "a range not covering the line is returned")
        else:
            raise AnalysisError("diff_get_chunk: result not understood")
    res.floor("lookup outcomes", n, 2)


class Lines(Prim):
    """numbers of lines: ("s", ("LNO", k)) is k lines behind the one the lexer is at, auto the offsets recorded"""
    roots = Prim.roots + ("LINES", "SLOT", "DIFF")
    seen = False

    def __init__(self, prog, res, prop):
        Prim.__init__(self, prog, res, prop)
        o = offs(prog, "lexer", ["lx_lines", "lx_diff"], "lexer.c")
        self.lines, self.diff = o["lx_lines"], o["lx_diff"]
        so = offs(prog, "lexer_state", ["st_lno"], "lexer.c")
        self.st_lno = so["st_lno"]
        self.lno = self.o["lx_st"] + so["st_lno"]
        self.tko = offs(prog, "token", ["tk_lno", "tk_flags"], "lexer.c")

    def relevant(self, fn):
        return fn.tu.short == "lexer.c" and fn.name != "lexer_column"

    @staticmethod
    def ln(v):
        return v[1][1] if v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "LNO" else None

    def keep(self, sid):
        return Prim.keep(self, sid) or isinstance(sid, tuple) and sid and sid[0] in ("LNO", "CHK")

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l and l[0] == ("S", "LX") and l[1] == self.lines:
            return ("s", "LINES")
        if l and l[0] == ("S", "LX") and l[1] == self.diff:
            return self.hasdiff
        return Prim.load(self, eng, ins, ptr, st, ctx)

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "LINES") and len(idx) == 1 and ins.ty != "i8":
            if idx[0] == ("s", "NEW"):
                return ("s", "SLOT")
            return None
        return Prim.gep(self, eng, ins, base, idx, st)

    def store(self, eng, ins, val, ptr, st, ctx):
        if eng.loc(ptr) == (("S", "SLOT"), 0):
            st.auto = st.auto | {(len(st.auto), val)}

    def arith(self, eng, ins, op, x, y, st):
        k = self.ln(x)
        if op in ("add", "sub") and isinstance(k, int) and y[0] == "i":
            d = y[1] if op == "add" else -y[1]
            return ("s", ("LNO", k + d))
        return Prim.arith(self, eng, ins, op, x, y, st)

    def cmp(self, eng, ins, pred, x, y, st):
        if x == ("s", "NLINES"):
            x, y, pred = y, x, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
        if y == ("s", "NLINES") and isinstance(self.ln(x), int):
            k = self.ln(x)
            # as many lines as were passed are on record, or more
            if not self.seen:
                return Patch.const(SIGNED.get(pred, pred), k)
            r = {"ult": k <= 0, "uge": k > 0, "ule": k <= 1, "ugt": k > 1, "eq": False, "ne": True}.get(pred)
            return ("i", int(r)) if r is not None and k <= 1 else None
        return Prim.cmp(self, eng, ins, pred, x, y, st)

    def call(self, eng, ins, name, args, st, ctx):
        if name == "vector_length" and args[0] == ("s", "LINES"):
            return [dict(ret=("s", "NLINES"), havoc=False)]
        if name == "vector_alloc" and eng.loc(args[0]) == (("S", "LX"), self.lines):
            return [dict(ret=("i", -1), havoc=False),
                    dict(ret=("s", "NEW"), facts=[(("s", "NEW"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name == "diff_get_chunk":
            if args[0] != ("s", "DIFF"):
                return [dict(havoc=False)]
            r = ("s", ("CHK", args[1]))
            return [dict(ret=("i", 0), havoc=False, facts=[(r, (0, 0, frozenset()))]),
                    dict(ret=r, facts=[(r, (1, None, frozenset()))], havoc=False)]
        return Prim.call(self, eng, ins, name, args, st, ctx)


def lines(prog, res, prop):
    n = 0
    bit = macro("token.h", "TOKEN_FLAG_DIFF")
    spec = {"lexer_getc": ["LX", "CH"], "lexer_ungetc": ["LX"], "lexer_match": ["LX", "RNG"],
            "lexer_eat_spaces": ["LX", "TK0"], "lexer_emit_template": ["LX", "ST", "TPL"]}
    for name, sp in spec.items():
        fn = prog.need(name, "lexer.c")
        r = ret_ins(fn)
        for flag, end, seen, diff in ((0, False, False, "DIFF"), (0, False, True, "DIFF"), (0, True, False, "DIFF"),
                                      (2, True, False, None)):
            c = Lines(prog, res, prop)
            c.end, c.seen = end, seen
            c.hasdiff = ("s", "DIFF") if diff else ("i", 0)
            eng = Engine(prog, c)
            mem = {(("S", "LX"), c.cur): (("s", ("OFF", 0)), ("struct.lexer_state", c.st_off)),
                   (("S", "LX"), c.lno): (("s", ("LNO", 0)), ("struct.lexer_state", c.st_lno)),
                   (("S", "LX"), c.flags): (("i", flag), ("struct.lexer_state", c.flags - c.o["lx_st"])),
                   (("S", "ST"), c.st_off): (("s", ("OFF", "st")), ("struct.lexer_state", c.st_off)),
                   (("S", "ST"), c.st_lno): (("s", ("LNO", "st")), ("struct.lexer_state", c.st_lno)),
                   (("S", "TK"), c.tko["tk_flags"]): (("i", 0), ("struct.token", c.tko["tk_flags"]))}
            if len(fn.params) != len(sp):
                raise AnalysisError("%s: parameters not understood" % name)
            for rv, q in eng.run(fn, [("s", a) for a in sp], State({}, mem, {}, frozenset())):
                n += 1
                res.obligations += 1
                msg = linepost(c, name, flag, q, eng, bit, diff)
                if msg:
                    res.violate(prop, "line-number", "%s (%s)" % (r.where, name), msg, q.trace_list(), "%s line" % name)
    # runs of bytes skipped at once stay on the line
    for fn in prog.functions():
        for ins in fn.instrs():
            if fn.tu.short == "lexer.c" and ins.op == "call" and ins.callee == ("g", "KS_str_match") and \
                    ins.args[2][0] == "g":
                res.obligations += 1
                t = prog.gstr(fn.tu, ins.args[2])
                if t is not None and 10 in ranges_of(t):
                    res.violate(prop, "line-number", "%s (%s)" % (ins.where, fn.name), "lines are skipped uncounted", [],
                                "%s match" % fn.name)
            if ins.op == "call" and ins.callee == ("g", "lexer_match") and len(ins.args) == 2:
                res.obligations += 1
                t = prog.gstr(fn.tu, ins.args[1]) if ins.args[1][0] == "g" else None
                if t is None:
                    raise AnalysisError("%s: bytes searched for not understood" % ins.where)
                if 10 in ranges_of(t):
                    res.violate(prop, "line-number", "%s (%s)" % (ins.where, fn.name), "lines are skipped uncounted", [],
                                "%s match" % fn.name)
    res.floor("line number outcomes", n, 12)


def linepost(c, name, flag, q, eng, bit, diff):
    def at(b, o):
        v = q.mem.get((("S", b), o))
        return v[0] if v else None
    cur = at("LX", c.lno)
    k = c.ln(cur) if cur else None
    if not isinstance(k, int):
        raise AnalysisError("%s: number of the line not understood" % name)
    rec = sorted(v for _, v in q.auto)
    want, wrec = 0, []
    if name in ("lexer_getc", "lexer_ungetc") and not flag and not (c.end and name == "lexer_getc"):
        b = ("s", ("BYTE", 0 if name == "lexer_getc" else -1))
        d = eng.norm(q, b)
        isnl = True if d == ("i", 10) else False if d[0] == "i" else None
        if isnl is None:
            dom = eng.dom(q, b)
            isnl = False if 10 in dom[2] or dom[0] is not None and dom[0] > 10 or dom[1] is not None and dom[1] < 10 else None
        if isnl is None:
            return "lines are counted whether or not a line ends" if k or rec else "the end of a line is not counted"
        if isnl and name == "lexer_getc":
            want = 1
            wrec = [] if c.seen else [("s", ("OFF", 1))]
        elif isnl:
            want = -1
    if k != want:
        return "the number of the line is off"
    if rec != wrec:
        return "the start of a line is not recorded where it is"
    if name == "lexer_emit_template":
        if at("TK", c.tko["tk_lno"]) != ("s", ("LNO", "st")):
            return "the line of a token is not the one it starts on"
        f = at("TK", c.tko["tk_flags"])
        if f is None or f[0] != "i":
            raise AnalysisError("%s: flags not understood" % name)
        chk = [q.facts[v] for v in q.facts if v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "CHK" and
               v[1][1] == ("s", ("LNO", "st"))]
        hit = bool(chk) and chk[0][0] == 1
        if diff and not chk or bool(f[1] & bit) != (hit if diff else False):
            return "a token is considered part of the patch if and only if its line is not"
    return None


class Start(Lines):
    """where reading starts"""
    def call(self, eng, ins, name, args, st, ctx):
        if name is None:
            self.reads += 1
            off, lno = st.mem.get((("S", "LX"), self.cur)), st.mem.get((("S", "LX"), self.lno))
            rec = [v for _, v in st.auto]
            self.res.obligations += 1
            if lno is None or lno[0] != ("i", 1) or off is not None and off[0] != ("i", 0) or rec != [("i", 0)]:
                self.res.violate(self.prop, "line-number", "%s (%s)" % (ins.where, ins.fn.name),
                                 "the first line is not recorded", st.trace_list(), "%s line" % ins.fn.name)
            return []
        if name == "arena_calloc":
            z = (("i", 0), None)
            return [dict(ret=("s", "LX"), havoc=False, rawmem=[
                ((("S", "LX"), self.cur), (("i", 0), ("struct.lexer_state", self.st_off))),
                ((("S", "LX"), self.lno), (("i", 0), ("struct.lexer_state", self.st_lno)))])]
        if name == "vector_init":
            return [dict(ret=("i", 0), havoc=False)]
        return Lines.call(self, eng, ins, name, args, st, ctx)

    def cmp(self, eng, ins, pred, x, y, st):
        if y == ("s", "NLINES") and x[0] == "i":
            return Patch.const(SIGNED.get(pred, pred), x[1] - len(st.auto))
        return Lines.cmp(self, eng, ins, pred, x, y, st)


def start(prog, res, prop):
    fn = prog.need("lexer_tokenize", "lexer.c")
    c = Start(prog, res, prop)
    c.reads, c.end, c.hasdiff = 0, False, ("s", "DIFF")
    eng = Engine(prog, c)
    eng.run(fn, [("s", "ARG")], State({}, {}, {}, frozenset()))
    res.floor("reading starts", c.reads, 1)


class Span(Lines):
    """text of lines [beg, end)"""
    roots = Lines.roots + ("STR", "SLEN")

    def idx(self, v):
        return v[1] if v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "LN" else None

    def arith(self, eng, ins, op, x, y, st):
        i = self.idx(x)
        if i and op in ("add", "sub") and y[0] == "i":
            d = y[1] if op == "add" else -y[1]
            if d >= 1 << 31:
                d -= 1 << 32
            return ("s", ("LN", i[1], i[2] + d))
        if op == "sub" and x[0] == y[0] == "s" and x != y:
            return ("s", ("LEN", x, y))
        return None

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "LINES") and len(idx) == 1 and self.idx(idx[0]):
            return ("s", ("AT", idx[0]))
        if base == ("s", "INPUT") and len(idx) == 1 and idx[0][0] == "s":
            return ("s", ("TXT", idx[0]))
        return None

    def load(self, eng, ins, ptr, st, ctx):
        if ptr[0] == "s" and isinstance(ptr[1], tuple) and ptr[1][0] == "AT":
            return ("s", ("START", ptr[1][1]))
        return Lines.load(self, eng, ins, ptr, st, ctx)

    def cmp(self, eng, ins, pred, x, y, st):
        if x == ("s", "NLINES"):
            x, y, pred = y, x, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
        i = self.idx(x)
        if i and y == ("s", "NLINES"):
            k = next((b for a, b in st.auto if a == i[1]), None)
            pred = SIGNED.get(pred, pred)
            if k is not None and i[2] in (0, -1):
                # known to be at most, or more than, the number of lines
                d = i[2]
                if k == "le":
                    t = {"sle": True, "sgt": False, "slt": True if d else None, "sge": False if d else None}.get(pred)
                else:
                    t = {"sgt": True if not d else None, "sle": False if not d else None, "sge": True, "slt": False}.get(pred)
                if t is not None:
                    return ("i", int(t))
            return ("c", pred, x, y)
        return None

    def branch(self, eng, ins, cond, taken, st, ctx):
        if cond[0] != "c" or cond[3] != ("s", "NLINES") or not self.idx(cond[2]):
            return
        i = self.idx(cond[2])
        pred = cond[1] if taken else NEG[cond[1]]
        st.facts.pop(cond, None)
        st.facts = {k: v for k, v in st.facts.items() if k[0] != "c"}
        k = None
        if (pred, i[2]) in (("sle", 0), ("slt", -1)):
            k = "le"
        elif (pred, i[2]) in (("sgt", 0), ("sge", -1)):
            k = "gt"
        if k:
            st.auto = st.auto | {(i[1], k)}


def span(prog, res, prop):
    fn = prog.need("lexer_get_lines", "lexer.c")
    r = ret_ins(fn)
    if len(fn.params) != 5:
        raise AnalysisError("lexer_get_lines: parameters not understood")
    n = 0
    for end in (("i", 0), ("s", ("LN", "end", 0))):
        c = Span(prog, res, prop)
        eng = Engine(prog, c)
        facts = {("s", ("LN", "beg", 0)): (1, 1 << 31, frozenset())}
        if end[0] == "s":
            facts[end] = (1, 1 << 31, frozenset())
        for rv, q in eng.run(fn, [("s", "LX"), ("s", ("LN", "beg", 0)), end, ("s", "STR"), ("s", "SLEN")],
                             State({}, {}, facts, frozenset())):
            n += 1
            res.obligations += 1
            msg = None
            known = dict(q.auto)
            if rv == ("i", 0):
                if "gt" not in known.values():
                    msg = "lines that exist are not found"
            else:
                b = ("s", ("START", ("s", ("LN", "beg", -1))))
                e = ("s", "SIZE") if end == ("i", 0) else ("s", ("START", ("s", ("LN", "end", -1))))
                t = q.mem.get((("S", "STR"), 0)), q.mem.get((("S", "SLEN"), 0))
                if known.get("beg") != "le" or end != ("i", 0) and known.get("end") != "le":
                    msg = "a line behind the last one is looked up"
                elif not t[0] or not t[1] or t[0][0] != ("s", ("TXT", b)) or t[1][0] != ("s", ("LEN", e, b)):
                    msg = "the text is not the one of the lines asked for"
            if msg:
                res.violate(prop, "line-text", "%s (lexer_get_lines)" % r.where, msg, q.trace_list(), "lexer_get_lines text")
    res.floor("line text outcomes", n, 4)


class Inherit(Client):
    """a token put behind another is part of the diff if that one is"""
    max_states = 500

    def __init__(self, prog, off):
        self.prog, self.off, self.got = prog, off, []

    def never_null(self, sid):
        return sid in ("LX", "AFTER", "DEF", "NEW")

    def distinct(self, b):
        return b[0] == "S" and self.never_null(b[1])

    def keep(self, sid):
        return True

    def relevant(self, fn):
        return fn.name == "token_flags_inherit"

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l in ((("S", "AFTER"), self.off), (("S", "NEW"), self.off)) and l not in st.mem:
            return ("s", "FLAGS-" + l[0][1])

    def store(self, eng, ins, val, ptr, st, ctx):
        if eng.loc(ptr) == (("S", "NEW"), self.off):
            st.auto = (ins, val)

    def call(self, eng, ins, name, args, st, ctx):
        if name is None:
            return [dict(ret=("s", "NEW"), havoc=False)]
        if name == "token_flags_inherit":
            return None
        return [dict(ret=("s", ("R", ins.where)), havoc=False)]


def inherit(prog, res, prop):
    fn = prog.need("lexer_insert_after", "lexer.c")
    c = Inherit(prog, offs(prog, "token", ["tk_flags"], "lexer.c")["tk_flags"])
    bit = macro("token.h", "TOKEN_FLAG_DIFF")
    eng = Engine(prog, c)
    a, n = ("s", "FLAGS-AFTER"), ("s", "FLAGS-NEW")
    for rv, q in eng.run(fn, [("s", "LX"), ("s", "AFTER"), ("s", "DEF")], State({}, {}, {}, None)):
        res.obligations += 1
        v = q.auto[1] if q.auto else None
        ins = q.auto[0] if q.auto else ret_ins(fn)
        part = ("b", "and", a, ("i", bit))
        if v is not None and v[:2] == ("b", "or") and {v[2], v[3]} == {n, part}:
            continue
        z = eng.decide(q, "eq", part, ("i", 0))
        if v is None and z is True:
            continue
        if v is not None and not mentions(v, a):
            if v == n and z is True or v[:2] == ("b", "or") and {v[2], v[3]} == {n, ("i", bit)} and z is False:
                continue
        res.violate(prop, "inherit", "%s (%s)" % (ins.where, fn.name), "a token put behind another is not part of the diff just if "
                    "that one is, or takes over more than that", q.trace_list(), "lexer_insert_after inherit")


def mentions(v, x):
    return v == x or isinstance(v, tuple) and any(mentions(k, x) for k in v)


def p20(prog, res, prop):
    g = patterns(prog, res, prop)
    if g:
        fn = prog.need("diff_parse", "diff.c")
        c = Patch(prog, res, prop, g)
        eng = Engine(prog, c)
        r = ret_ins(fn)
        if len(fn.params) != 4:
            raise AnalysisError("diff_parse: parameters not understood")
        for rv, q in eng.run(fn, [("s", x) for x in ("FILES", "ETERNAL", "SCRATCH", "OP")], State({}, {}, {}, START)):
            res.obligations += 1
            a = q.auto
            inside = a.hunk and a.rem[0] > 0
            rv = eng.norm(q, rv)
            if rv[0] != "i":
                raise AnalysisError("diff_parse: result not understood")
            if rv == ("i", 0):
                if a.fail:
                    c.bad("accepted", r, q, "a patch that cannot be read is accepted")
                elif not a.end:
                    c.bad("accepted", r, q, "the patch is not read up to its end")
                elif inside:
                    c.bad("accepted", r, q, "a patch that ends inside of a hunk is accepted")
                else:
                    c.commit(r, q)
                    if a.ch in ("open", "new"):
                        c.bad("wrong-lines", r, q, "a range of lines is not ended")
            elif not a.fail and not (a.end and a.hunk and a.rem[1] != 0) and not (a.hunk and not a.file):
                c.bad("rejected", r, q, "a patch is rejected without reason")
        res.floor("events_patch", c.events, 20)
        res.cov["events_patch"] = c.events
        res.cov["states_patch"] = eng.nstates if hasattr(eng, "nstates") else 0
    lookup(prog, res, prop)
    lines(prog, res, prop)
    start(prog, res, prop)
    span(prog, res, prop)
    inherit(prog, res, prop)
