"""P21: a style file means what it says.

The table of options is read out of its initializer; the parser of each option is followed with the entry of the table it is
given, over a key, a colon and a value of any type; getters, lookup, dispatch and defaults each have a contract of their own."""
import os
import re
from collections import namedtuple

import ir
from absint import Client, Engine, State, contains
from docs import offs
from ir import AnalysisError
from tokens import ret_ins

BOOLS = ("AfterCaseLabel AfterClass AfterEnum AfterExternBlock AfterFunction AfterNamespace AfterObjCDeclaration AfterStruct "
         "AfterUnion BeforeCatch BeforeElse BeforeLambdaBody BeforeWhile IndentBraces SplitEmptyFunction SplitEmptyNamespace "
         "SplitEmptyRecord").split()
# name: (scope, kind, accepted values, default)
OPTIONS = {
    "AlignAfterOpenBracket": ("", "enum", "Align DontAlign AlwaysBreak BlockIndent", "DontAlign"),
    "AlignEscapedNewlines": ("", "enum", "DontAlign Left Right", "Right"),
    "AlignOperands": ("", "enum", "Align DontAlign AlignAfterOperator True False", "DontAlign"),
    "AlwaysBreakAfterReturnType": ("", "enum", "None All TopLevel AllDefinitions TopLevelDefinitions", "AllDefinitions"),
    "BitFieldColonSpacing": ("", "enum", "Both None Before After", "None"),
    "BasedOnStyle": ("", "based", "LLVM Google Chromium Mozilla WebKit Microsoft GNU InheritParentConfig OpenBSD", None),
    "BraceWrapping": ("", "nested", "", None),
    "AfterControlStatement": ("BraceWrapping", "enum", "Never MultiLine Always True False", None),
    "BreakBeforeBinaryOperators": ("", "enum", "None NonAssignment All", "None"),
    "BreakBeforeBraces": ("", "enum", "Attach Linux Mozilla Stroustrup Allman Whitesmiths GNU WebKit Custom", "Linux"),
    "BreakBeforeTernaryOperators": ("", "bool", "", "False"),
    "ColumnLimit": ("", "int", "", 80),
    "ContinuationIndentWidth": ("", "int", "", 4),
    "IncludeBlocks": ("", "enum", "Merge Preserve Regroup", "Preserve"),
    "IncludeCategories": ("", "categories", "", None),
    "Priority": ("IncludeCategories", "priority", "", None),
    "SortPriority": ("IncludeCategories", "priority", "", None),
    "Regex": ("IncludeCategories", "regex", "", None),
    "IncludeGuards": ("", "int", "", None),
    "IndentWidth": ("", "int", "", 8),
    "Language": ("", "enum", "Cpp CSharp Java JavaScript Json ObjC Proto TableGen TextProto Verilog", None),
    "SortIncludes": ("", "enum", "Never CaseSensitive CaseInsensitive", "Never"),
    "UseTab": ("", "enum", "Never ForIndentation ForContinuationAndIndentation AlignWithSpaces Always", "Always"),
}
for _b in BOOLS:
    OPTIONS[_b] = ("BraceWrapping", "bool", "", None)
SPELL = {"True": "true", "False": "false"}
# option: {value not supported: the one it is taken for}
TAKEN = {
    "AlignAfterOpenBracket": {"AlwaysBreak": None, "BlockIndent": None},
    "UseTab": {"ForIndentation": "Always", "ForContinuationAndIndentation": "Always", "AlignWithSpaces": "Always"},
    "SortIncludes": {"CaseInsensitive": "Never"},
}

Entry = namedtuple("Entry", "index scope key len type parse vals off")


class Facts:
    """what is read off the sources"""

    def __init__(self, prog):
        self.prog = prog
        self.tu = next((t for t in prog.tus if t.short == "style.c"), None)
        if self.tu is None:
            raise AnalysisError("style.c not found")
        self.enum = self.tu.enum_members("style_keyword")
        self.enum.update(self.tu.enum_members("yaml_type"))
        self.all = self.tu.enums()
        for k in ("True", "False", "Align", "Colon", "Sequence", "Integer", "String"):
            if k not in self.enum:
                raise AnalysisError("style.c: enumerator %s not found" % k)
        o = offs(prog, "style_option", ["so_scope", "so_key", "so_len", "so_type", "so_parse"], "style.c")
        self.so = o
        self.eof = self.all.get("LEXER_EOF")
        if self.eof is None:
            self.eof = ir.macro("lexer.h", "LEXER_EOF") if "LEXER_EOF" in ir.macros("lexer.h") else ir.macro("token.h", "LEXER_EOF")
        m = ir.macros("style.c")
        self.code = {k: m.get(k, self.all.get(k)) for k in ("NONE", "GOOD", "SKIP", "FAIL")}
        if None in self.code.values():
            raise AnalysisError("style.c: return values of parsers not found")
        self.names = {}
        for k, v in self.enum.items():
            self.names.setdefault(v, k)
        self.table()

    def flat(self, t, v, off, out):
        """scalars of a constant by offset"""
        tu = self.tu
        if v is None:
            return
        if v[0] == "agg":
            for i, (et, ev) in enumerate(v[1]):
                if t and t[0] == "arr":
                    pos = off + i * tu.sizeof(et)
                else:
                    pos = off + tu.field_off(t, i)[0]
                self.flat(et, ev, pos, out)
        elif v[0] == "zero":
            out[off] = ("z", tu.sizeof(t))
        else:
            out[off] = v

    def table(self):
        """the table of options"""
        tu = self.tu
        size = tu.sizeof("%struct.style_option")
        best = None
        for name, g in tu.globals.items():
            if g[1] is None or g[1][0] != "agg" or tu.sizeof(g[0]) % size or tu.sizeof(g[0]) < 8 * size:
                continue
            out = {}
            try:
                self.flat(g[0], g[1], 0, out)
            except (AnalysisError, KeyError, TypeError, IndexError):
                continue
            n = tu.sizeof(g[0]) // size
            if not all(self.prog.gstr(tu, out.get(i * size + self.so["so_key"], ("?",))) is not None for i in range(n)):
                continue
            if best is None or n > best[1]:
                best = (name, n, out)
        if best is None:
            raise AnalysisError("style.c: table of options not found")
        self.tab, self.n, self.flatmap = best
        self.size = size
        d = self.tu.di_struct("style_option")
        known = {"so_scope", "so_key", "so_len", "so_type", "so_parse"}
        rest = sorted(x[0] // 8 for x in d if x[2].split("[")[0].split(".")[0] not in known)
        self.voff = offs(self.prog, "style_option", ["so_val"], "style.c")["so_val"]
        self.entries = []
        for i in range(self.n):
            b = i * size
            num = lambda o: self.scalar(b + o)
            p = self.cell(b + self.so["so_parse"])
            vals = []
            k = 0
            while self.voff + 4 * k < size and (self.voff < self.so["so_parse"] or True):
                v = num(self.voff + 4 * k)
                if v == 0:
                    break
                vals.append(v)
                k += 1
            self.entries.append(Entry(i, num(self.so["so_scope"]), self.prog.gstr(tu, self.cell(b + self.so["so_key"])),
                                      num(self.so["so_len"]), num(self.so["so_type"]),
                                      p[1] if p[0] == "g" else None, vals, b))
            self.terminated = True
            if k * 4 + self.voff >= size:
                self.entries[-1].vals.append("END")

    def cell(self, off):
        v = self.flatmap.get(off)
        if v is not None:
            return v if v[0] != "z" else ("i", 0)
        for o, z in self.flatmap.items():
            if z[0] == "z" and o <= off < o + z[1]:
                return ("i", 0)
        return ("i", 0)

    def scalar(self, off):
        v = self.cell(off)
        if v[0] in ("null",):
            return 0
        if v[0] != "i":
            raise AnalysisError("style.c: table of options not understood")
        return v[1]


def bad(res, prop, rule, where, msg, key, trace=()):
    res.violate(prop, rule, where, msg, list(trace), key)


# ------------------------------------------------------------------------ table
def table(F, res, prop):
    where = "style.c (%s)" % F.tab
    byname = {}
    for e in F.entries:
        res.obligations += 1
        if e.key in byname:
            bad(res, prop, "table", where, "%s is listed twice" % e.key, "table %s" % e.key)
        byname[e.key] = e
        if e.len != len(e.key):
            bad(res, prop, "table", where, "the length of %s is not its own" % e.key, "table %s" % e.key)
        if "END" in e.vals:
            bad(res, prop, "table", where, "the values of %s have no end" % e.key, "table %s" % e.key)
    for name, (scope, kind, vals, _) in OPTIONS.items():
        res.obligations += 1
        e = byname.get(name)
        if e is None or e.type != F.enum.get(name) or e.parse is None:
            bad(res, prop, "table", where, "%s is not an option" % name, "table %s" % name)
            continue
        if e.scope != (F.enum[scope] if scope else 0):
            bad(res, prop, "table", where, "%s is not an option at its place" % name, "table %s" % name)
        for v in vals.split():
            s = SPELL.get(v, v)
            if v not in F.enum:
                raise AnalysisError("style.c: enumerator %s not found" % v)
            w = byname.get(s)
            if w is None or w.type != F.enum[v]:
                bad(res, prop, "table", where, "the value %s of %s is not known" % (s, name), "table %s" % s)
    for e in F.entries:
        n = F.names.get(e.type)
        want = {"True": "true", "False": "false", "Colon": ":", "Sequence": "-", "DocumentBegin": "---",
                "DocumentEnd": "..."}.get(n, n)
        if want != e.key:
            bad(res, prop, "table", where, "%s is taken for %s" % (e.key, n), "table %s" % e.key)
    res.cov["entries of the table"] = F.n
    return byname


# ---------------------------------------------------------------------- parsers
Auto = namedtuple("Auto", "pos colon val excl sets log scope depth cat")


class Opt(Client):
    max_states = 20000
    max_seconds = 60
    roots = ("ST", "LX", "KEY", "VAL", "CATS", "CAT", "BUF", "TEXT", "OP", "STRS", "PAT")

    def __init__(self, F, res, prop, e):
        self.F, self.prog, self.res, self.prop, self.e = F, F.prog, res, prop, e
        o = offs(F.prog, "style", ["options", "scope", "depth"], "style.c") if False else None
        d = {x[2]: x[0] // 8 for x in F.tu.di_struct("style")}
        t = F.tu.di_struct("token")
        td = {x[2]: x[0] // 8 for x in t}
        self.ty, self.str, self.tlen = td["tk_type"], td["tk_str"], td["tk_len"]
        self.tsize = F.tu.sizeof("%struct.token")
        self.sc, self.dp = d["scope"], d["depth"]
        self.cats = d["include_categories"]
        self.optbase, self.optsize, self.valoff, self.setoff, self.typoff = optlayout(F)
        c = {x[2]: x[0] // 8 for x in F.tu.di_struct("include_category")}
        self.cpat = c["pattern"]
        self.cre = c.get("regex", min([v for k, v in c.items() if k.startswith("regex")] or [8]))
        self.cgroup = c["priority.group"]
        self.csort = c["priority.sort"]
        y = {x[2]: x[0] // 8 for x in F.tu.di_struct("yaml_token")}
        self.yint = min(v for k, v in y.items() if k.startswith("integer"))

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots or b[0] == "G"

    def relevant(self, fn):
        return fn.tu.short == "style.c" and fn.name not in (
            "style_parse_yaml", "style_parse_yaml_documents", "clang_format_dump_style", "style_dump", "yaml_find_keyword")

    def keep(self, sid):
        return sid in ("INT", "OTHER")

    def bad(self, rule, ins, st, msg):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), "%s: %s" % (self.e.key, msg),
                         st.trace_list(), "%s %s" % (self.e.key, rule))

    def const(self, b, o):
        return b[0] == "G" and b[-1] == self.F.tab

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        a = st.auto
        if b[0] == "G" and b[-1] == self.F.tab:
            if ins.ty == "ptr":
                v = self.F.cell(o)
                if v[0] == "g":
                    return ("p", ("G",) + tuple(b[1:-1]) + (v[1],), 0)
                return ("i", 0)
            return ("i", self.F.scalar(o))
        if b == ("S", "KEY") and o == self.ty:
            return ("i", self.e.type)
        if b == ("S", "VAL"):
            if o == self.ty:
                return ("i", a.val) if isinstance(a.val, int) else ("s", "OTHER")
            if o == self.tsize + self.yint:
                return ("s", "INT")
            if o == self.str:
                return ("s", "TEXT")
            if o == self.tlen:
                return ("s", "TEXTLEN")
        if b == ("S", "ST"):
            if o == self.cats:
                return ("s", "CATS")
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            raise AnalysisError("%s: store not understood" % ins.where)
        b, o = l
        a = st.auto
        if b == ("S", "ST"):
            if o == self.sc:
                st.auto = a._replace(scope=val)
                return
            if o == self.dp:
                st.auto = a._replace(depth=val)
                return
            k, r = divmod(o - self.optbase, self.optsize)
            if 0 <= k <= self.F.enum["Last"] and o >= self.optbase:
                if r == self.valoff:
                    st.auto = a._replace(sets=tuple(sorted(dict(a.sets, **{str(k): val}).items())))
                return
            return
        if b == ("S", "CAT"):
            if o in (self.cgroup, self.csort, self.cpat):
                n = {self.cgroup: "group", self.csort: "sort", self.cpat: "pattern"}[o]
                st.auto = a._replace(cat=tuple(sorted(dict(a.cat, **{n: val}).items())))
            elif o in self.F.usable:
                st.auto = a._replace(cat=tuple(sorted(dict(a.cat, **{"usable %d" % o: val}).items())))

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "CATS") and len(idx) == 1 and ins.ty != "i8":
            if idx[0] == ("s", "LAST"):
                return ("s", "CAT")
            if idx[0][0] == "i":
                self.bad("value", ins, st, "another category than the last one is set up")
                return ("s", "CAT")
            raise AnalysisError("%s: element not understood" % ins.where)
        return None

    def token(self, st):
        """the token at hand: (type, or None if not known)"""
        a = st.auto
        if a.pos == 0:
            return self.e.type
        if a.pos == 1:
            return self.F.enum["Colon"] if a.colon else None if a.colon is None else -1
        if a.pos == 2:
            return a.val
        return None

    def arith(self, eng, ins, op, x, y, st):
        # values are gone through one by one
        if op == "add" and x[0] == "i" and y == ("i", 1) and 0 <= x[1] < 16:
            return ("i", x[1] + 1)
        return None

    def split(self, st, t):
        """[(state, whether the token at hand has type t)]"""
        a = st.auto
        if a.pos == 0:
            return [(st, t == self.e.type)]
        if a.pos == 1:
            c = self.F.enum["Colon"]
            if t != c:
                return [(st, False)] if a.colon is not False else [(st, None)]
            if a.colon is not None:
                return [(st, a.colon)]
            y, n = st.copy(), st.copy()
            y.auto, n.auto = a._replace(colon=True), a._replace(colon=False)
            return [(y, True), (n, False)]
        if a.pos == 2:
            if a.val is not None:
                return [(st, a.val == t)]
            if t in a.excl:
                return [(st, False)]
            y, n = st.copy(), st.copy()
            y.auto, n.auto = a._replace(val=t), a._replace(excl=a.excl | {t})
            return [(y, True), (n, False)]
        return [(st, None)]

    def take(self, st):
        a = st.auto
        if a.pos == 0:
            st.auto = a._replace(pos=1)
            return ("s", "KEY")
        if a.pos == 1:
            st.auto = a._replace(pos=2, colon=True if a.colon is None else a.colon)
            return ("s", "COL")
        if a.pos == 2:
            if a.val is None:
                st.auto = a._replace(pos=3, val="other")
            else:
                st.auto = a._replace(pos=3)
            return ("s", "VAL")
        st.auto = a._replace(pos=4)
        return ("s", ("TOK",))

    def call(self, eng, ins, name, args, st, ctx):
        F = self.F
        a = st.auto
        if name in ("lexer_if", "lexer_expect", "lexer_peek_if", "lexer_expect_impl", "lexer_if_impl"):
            if args[1][0] != "i":
                raise AnalysisError("%s: token not understood" % ins.where)
            out = []
            for q, y in self.split(st, args[1][1]):
                if y is not True:
                    out.append(dict(base=q, ret=("i", 0), havoc=False))
                if y is not False:
                    q = q.copy()
                    if name == "lexer_peek_if":
                        t = ("s", "VAL") if q.auto.pos == 2 else ("s", "KEY") if q.auto.pos == 0 else ("s", ("TOK",))
                    else:
                        t = self.take(q)
                    out.append(dict(base=q, ret=("i", 1), havoc=False, mem=[(args[2], t)] if args[2][0] == "p" else [],
                                    note="the token is %s" % F.names.get(args[1][1], args[1][1])))
            return out
        if name == "lexer_pop":
            q = st.copy()
            t = self.take(q)
            return [dict(base=q, ret=("i", 1), havoc=False, mem=[(args[1], t)], note="any other token")]
        if name == "lexer_peek":
            t = {0: ("s", "KEY"), 2: ("s", "VAL")}.get(a.pos, ("s", ("TOK",)))
            return [dict(ret=("i", 1), havoc=False, mem=[(args[1], t)])]
        if name == "lexer_back":
            t = {1: ("s", "KEY"), 2: ("s", "COL"), 3: ("s", "VAL")}.get(a.pos, ("s", ("TOK",)))
            return [dict(ret=("i", 1), havoc=False, mem=[(args[1], t)])]
        if name in ("lexer_error", "lexer_error_impl", "lexer_serialize", "trace", "tracef", "trace_no_func", "warn", "warnx"):
            return [dict(havoc=False)]
        if name == "style_parse_yaml_documents":
            q = st.copy()
            q.auto = a._replace(log=(a.log + (("documents", a.scope, args[2]),))[-3:], pos=4)
            return [dict(base=q, havoc=False)]
        if name == "style_parse_yaml":
            q = st.copy()
            q.auto = a._replace(log=(a.log + (("yaml", args[2], a.depth),))[-3:])
            n = q.copy()
            n.auto = n.auto._replace(log=n.auto.log + (("failed",),))
            return [dict(base=q, ret=("i", 0), havoc=False), dict(base=n, ret=("i", 1), havoc=False)]
        if name == "clang_format_dump_style":
            q = st.copy()
            q.auto = a._replace(log=(a.log + (("dump", args[1]),))[-3:])
            return [dict(base=q, ret=("s", "BUF"), havoc=False), dict(base=q, ret=("i", 0), havoc=False)]
        if name == "vector_last" and args[0] == ("s", "CATS"):
            return [dict(ret=("s", "LAST"), facts=[(("s", "LAST"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name == "vector_length" and args[0] == ("s", "CATS"):
            return [dict(ret=("s", "LEN"), facts=[(("s", "LEN"), (1, 1 << 40, frozenset()))], havoc=False)]
        if name == "vector_alloc":
            q = st.copy()
            q.auto = a._replace(log=(a.log + (("category", args[1]),))[-3:])
            return [dict(ret=("i", -1), havoc=False),
                    dict(base=q, ret=("s", "LAST"), facts=[(("s", "LAST"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name in ("arena_strndup", "arena_strdup"):
            if name == "arena_strndup" and args[1:3] != [("s", "TEXT"), ("s", "TEXTLEN")]:
                self.bad("regex", ins, st, "the pattern is not the text of the value")
            if name == "arena_strdup":
                self.bad("regex", ins, st, "the pattern is more than the text of the value")
            return [dict(ret=("s", "PAT"), havoc=False)]
        if name == "regfree":
            return [dict(havoc=False)]
        if name == "regcomp":
            q = st.copy()
            if args[1] != ("s", "PAT") or eng.loc(args[0]) != (("S", "CAT"), self.cre):
                self.bad("regex", ins, st, "the pattern compiled is not the one given")
            fl = args[2]
            if fl[0] != "i" or not fl[1] & 1 or fl[1] & 4:
                self.bad("regex", ins, st, "the pattern is not an extended one")
            q.auto = a._replace(log=(a.log + (("regcomp",),))[-3:])
            n = st.copy()
            n.auto = a._replace(log=(a.log + (("badre",),))[-3:])
            return [dict(base=q, ret=("i", 0), havoc=False), dict(base=n, ret=("i", 8), havoc=False)]
        if name is not None and eng.prog.resolve(ins.fn.tu, name) is None or name in ("arena_scope_enter_impl", "arena_scope_leave"):
            return [dict(havoc=False)]
        return None


def optlayout(F):
    """(offset of the options, size of one, offset of its value, of its flag, of its type)"""
    tu = F.tu
    d = tu.di_struct("style")
    el = tu.mdget(tu._di["style"], "elements")
    for m in re.findall(r"!(\d+)", tu.md.get(el, "")):
        m = int(m)
        if tu.mdget(m, "name") != "options":
            continue
        arr = tu._di_strip(tu.mdget(m, "baseType"))
        sub = tu._di_strip(tu.mdget(arr, "baseType")) if arr is not None else None
        if sub is None:
            break
        out = []
        tu._di_walk(sub, 0, "", out, 0)
        f = {x[2]: x[0] // 8 for x in out}
        return int(tu.mdget(m, "offset") or 0) // 8, int(tu.mdget(sub, "size")) // 8, f["val"], f.get("isset"), f.get("type")
    raise AnalysisError("struct style has no options")


def expected(F, e, auto, kind, vals):
    """values the option may have been set to after the value auto.val: a list, None for left as it was"""
    E = F.enum
    v = auto.val
    n = F.names.get(v) if isinstance(v, int) else None
    if auto.colon is not True or v is None or v == "other":
        return [None]
    if kind == "bool":
        return [("i", v)] if n in ("True", "False") else [None]
    if kind in ("enum", "based"):
        if n not in vals:
            return [None]
        if e.key == "AlignOperands" and n in ("True", "False"):
            return [("i", E["Align" if n == "True" else "DontAlign"])]
        return [("i", v)]
    if kind == "int":
        return ["INT"] if v == E["Integer"] else [None]
    return [None]


def parsers(F, res, prop, byname):
    total = 0
    seen = {}
    for name, (scope, kind, vals, _) in OPTIONS.items():
        e = byname.get(name)
        if e is None or e.parse is None:
            continue
        fn = F.prog.need(e.parse, "style.c")
        vals = vals.split()
        c = Opt(F, res, prop, e)
        eng = Engine(F.prog, c)
        entry = ("p", ("G", "style.c", F.tab), e.off)
        depths = (0, 1) if kind == "based" else (0,)
        got = set()
        for dep in depths:
            mem = {(("S", "ST"), c.sc): (("s", "SCOPE"), ("struct.style", c.sc)),
                   (("S", "ST"), c.dp): (("i", dep), ("struct.style", c.dp))}
            a = Auto(0, None, None, frozenset(), (), (), ("s", "SCOPE"), ("i", dep), ())
            for rv, q in eng.run(fn, [("s", "ST"), ("s", "LX"), entry], State({}, mem, {}, a)):
                total += 1
                res.obligations += 1
                judge(F, c, fn, e, kind, vals, rv, q, eng, got, dep)
        r = ret_ins(fn)
        want = {"bool": {"True", "False"}, "enum": set(vals), "based": set(vals), "int": {"Integer"},
                "priority": {"Integer"}, "regex": {"String"}}.get(kind, set())
        for w in sorted(want):
            res.obligations += 1
            if w not in got:
                res.violate(prop, "value", "%s (%s)" % (r.where, fn.name), "%s: the value %s is not taken" % (name, SPELL.get(w, w)),
                            [], "%s %s" % (name, w))
    res.floor("outcomes of parsers", total, 100)


def judge(F, c, fn, e, kind, vals, rv, q, eng, got, dep):
    r = ret_ins(fn)
    a = q.auto
    code = F.code
    if rv[0] != "i":
        raise AnalysisError("%s: result not understood" % fn.name)
    sets = dict(a.sets)
    own = str(e.type)
    if a.scope != ("s", "SCOPE"):
        c.bad("scope", r, q, "options below are taken for nested ones")
    if a.depth != ("i", dep):
        c.bad("scope", r, q, "the nesting of styles is not undone")
    for k in sets:
        if k != own:
            c.bad("wrong-option", r, q, "%s is set" % F.names.get(int(k), k))
    if rv[1] and a.pos == 0:
        c.bad("stuck", r, q, "nothing is read")
    if rv[1] == 0 and a.pos != 0:
        c.bad("ignored", r, q, "what comes next is skipped")
    if a.colon is True and a.val == "other" and not rv[1] & (code["GOOD"] | code["SKIP"]) and kind != "nested":
        c.bad("ignored", r, q, "an unknown value ends reading of the style")
    if kind not in ("nested", "categories") and a.colon is True and a.pos == 2 and rv[1] & (code["GOOD"] | code["SKIP"]):
        c.bad("ignored", r, q, "its value is taken for the next option")
    v = a.val
    n = F.names.get(v) if isinstance(v, int) else None
    if kind in ("bool", "enum", "int", "based"):
        want = expected(F, e, a, kind, vals)
        have = sets.get(own)
        if want == [None]:
            if have is not None:
                c.bad("value", r, q, "it is set without a value of its own")
            return
        if a.pos < 3:
            # not consumed, that is read as the next key
            c.bad("ignored", r, q, "its value is taken for the next option")
        if want == ["INT"]:
            ok = integer(F, e, q, eng, have, rv)
        else:
            ok = have in want
            if rv[1] & code["FAIL"] and not any(x[0] == "failed" for x in a.log):
                c.bad("ignored", r, q, "a valid value ends reading of the style")
        if not ok:
            c.bad("value", r, q, "the value %s is not what it is set to" % SPELL.get(n, n))
        else:
            got.add(n)
        if kind == "based":
            based(F, c, r, e, q, n, dep)
    elif kind == "nested":
        if sets:
            c.bad("wrong-option", r, q, "it is set")
        docs = [x for x in a.log if x[0] == "documents"]
        if a.colon is True:
            if len(docs) != 1 or docs[0][1] != ("i", e.type) or docs[0][2] == ("i", 0):
                c.bad("scope", r, q, "the options below are not read as nested ones")
    elif kind == "categories":
        last = a.log[-1] if a.log else None
        for i, x in enumerate(a.log):
            if x[0] == "documents" and (x[1] != ("i", e.type) or x[2] == ("i", 0)):
                c.bad("scope", r, q, "the options below are not read as nested ones")
            if x[0] == "documents" and i and a.log[i - 1][0] != "category":
                c.bad("scope", r, q, "a category is read into another one")
            if x[0] == "category" and (x[1] == ("i", 0) or i + 1 == len(a.log)):
                c.bad("scope", r, q, "a category is not read")
    elif kind == "priority":
        cat = dict(a.cat)
        if a.colon is True and n == "Integer":
            want = {"group", "sort"} if e.key == "Priority" else {"sort"}
            if set(cat) != want or any(x != ("s", "INT") for x in cat.values()) or not rv[1] & code["GOOD"]:
                c.bad("value", r, q, "the priority is not the one given")
            else:
                got.add(n)
        elif cat:
            c.bad("value", r, q, "a priority is set without a value")
    elif kind == "regex":
        cat = dict(a.cat)
        if a.colon is True and n == "String":
            if cat.get("pattern") != ("s", "PAT") and ("badre",) not in a.log:
                c.bad("regex", r, q, "the pattern is not kept")
            for o in F.usable:
                v = cat.get("pattern" if o == c.cpat else "usable %d" % o)
                if ("regcomp",) in a.log and (v is None or v == ("i", 0)):
                    c.bad("regex", r, q, "a category with a pattern is not taken for one")
                if ("badre",) in a.log and v != ("i", 0):
                    c.bad("regex", r, q, "a category without a pattern is taken for one with")
            if ("badre",) in a.log and rv[1] & code["GOOD"]:
                c.bad("regex", r, q, "a broken pattern is accepted")
            if ("regcomp",) in a.log and not rv[1] & code["GOOD"]:
                c.bad("regex", r, q, "a pattern is rejected")
            if ("badre",) not in a.log and ("regcomp",) not in a.log:
                c.bad("regex", r, q, "the pattern is not compiled")
            got.add(n)
        elif cat or ("regcomp",) in a.log:
            c.bad("regex", r, q, "a pattern is set without a value")


def integer(F, e, q, eng, have, rv):
    """the number an option is set to against the one read"""
    i = ("s", "INT")
    lo, hi, ne = q.facts.get(i, (None, None, frozenset()))
    pos = eng.decide(q, "sgt", i, ("i", 0))
    zero = eng.decide(q, "eq", i, ("i", 0))
    if e.key == "ColumnLimit":
        if zero is True:
            return have in (("i", -1), ("i", (1 << 32) - 1))
        return have == i and zero is False
    if e.key == "IncludeGuards":
        if pos is True:
            return have == i
        if pos is False:
            return have == ("i", 0)
        return False
    return have == i or have is not None and have[0] == "i" and eng.decide(q, "eq", i, have) is True


def based(F, c, r, e, q, n, dep):
    """styles known to clang-format only are asked for there"""
    a = q.auto
    y = [x for x in a.log if x[0] == "yaml"]
    d = [x for x in a.log if x[0] == "dump"]
    if dep or n in ("OpenBSD", "InheritParentConfig"):
        if y or d:
            c.bad("based", r, q, "another style is asked for")
        return
    if len(d) != 1 or d[0][1] != ("i", F.enum[n]):
        c.bad("based", r, q, "the style it is based on is not asked for")
    for x in y:
        if x[1] != ("s", "BUF") or x[2] == ("i", 0):
            c.bad("based", r, q, "the style it is based on is not read as a nested one")


def p21(prog, res, prop):
    F = Facts(prog)
    byname = table(F, res, prop)
    parsers(F, res, prop, byname)


# ------------------------------------------------------------------- iterations
Sc = namedtuple("Sc", "first inb done")


class Scan(Client):
    """a walk over the elements of a table or vector; done is what happened to the element at hand"""
    max_states = 5000
    max_seconds = 60
    roots = ("BASE", "EL", "ST", "STR", "PATH", "DST", "KWSLOT", "OPT")
    rule = "lookup"
    count = None            # number of elements if known
    esize = None

    def __init__(self, F, res, prop):
        self.F, self.prog, self.res, self.prop = F, F.prog, res, prop

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def relevant(self, fn):
        return fn.tu.short == "style.c"

    def keep(self, sid):
        return True

    def bad(self, ins, st, msg):
        self.res.violate(self.prop, self.rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (ins.fn.name, self.rule))

    def isbase(self, v):
        return v == ("s", "BASE")

    def index(self, st, v):
        return v == ("s", "IX") or v == ("i", 0) and st.auto.first

    def leave(self, ins, st):
        """the element at hand is left for the next"""

    def advance(self, ins, st):
        self.res.obligations += 1
        if st.auto.inb is not True:
            self.bad(ins, st, "an element may be passed over")
        self.leave(ins, st)
        st.env = {k: ("s", "OLD") if v[0] == "s" and v[1] in ("EL", "IX") or v[0] == "s" and isinstance(v[1], tuple) and
                  v[1][:1] == ("EF",) else v for k, v in st.env.items()}
        st.mem = {k: v for k, v in st.mem.items() if k[0] not in (("S", "EL"), ("S", "DST"))}
        st.facts = {}
        st.auto = st.auto._replace(first=False, inb=None, done=frozenset())

    def reach(self, ins, st, v):
        if v == ("s", "NEXT"):
            self.advance(ins, st)
            st.env = {k: ("s", "IX") if w == ("s", "NEXT") else w for k, w in st.env.items()}
            return ("s", "IX")
        return v

    def gep(self, eng, ins, base, idx, st):
        if self.isbase(base) and idx and (len(idx) == 1 or idx[0] == ("i", 0)) and ins.ty != "i8":
            i = idx[0] if len(idx) == 1 else idx[1]
            if self.islen(i):
                return ("s", "STOP")
            i = self.reach(ins, st, i)
            if self.index(st, i):
                if len(idx) > 2:
                    o = self.prog_off(ins, idx)
                    return ("p", ("S", "EL"), o) if o else ("s", "EL")
                return ("s", "EL")
            if i[0] == "i" and i[1] < 0:
                return None
            d = eng.defs(ins.fn).get(ins.args[0][1]) if ins.args[0][0] == "l" else None
            if len(idx) == 1 and i == ("i", 1) and st.auto.first and d is not None and d.op == "phi":
                self.advance(ins, st)
                return ("s", "EL")
            if i[0] == "i" and st.auto.first:
                self.bad(ins, st, "an element may be passed over")
                return ("s", "EL")
            raise AnalysisError("%s: element not understood" % ins.where)
        if base == ("s", "EL") and len(idx) == 1 and idx[0] == ("i", 1) and ins.ty != "i8":
            self.advance(ins, st)
            return ("s", "EL")
        return None

    def prog_off(self, ins, idx):
        t = ins.ty
        if isinstance(t, tuple) and t[0] == "arr":
            t = t[2]
        return ins.fn.tu.gep_offset(t, [("i", 0)] + list(idx[2:]))

    def islen(self, v):
        return v == ("s", "LEN") or self.count is not None and v == ("i", self.count)

    def isel(self, st, v):
        return v == ("s", "EL") or self.isbase(v) and st.auto.first

    def cmp(self, eng, ins, pred, x, y, st):
        from patch import SIGNED, FLIP, Patch
        pred = SIGNED.get(pred, pred)
        x, y = self.reach(ins, st, x), self.reach(ins, st, y)
        if self.index(st, y) and self.islen(x) or x == ("s", "STOP") and self.isel(st, y):
            x, y, pred = y, x, FLIP[pred]
        if self.index(st, x) and self.islen(y) or self.isel(st, x) and y == ("s", "STOP"):
            if self.count is not None and st.auto.first:
                return Patch.const(pred, -1) if st.auto.inb is not True and self.mark(st) or st.auto.inb else None
            if st.auto.inb is not None:
                return Patch.const(pred, -1 if st.auto.inb else 0)
            return ("c", pred, ("s", "IX"), ("s", "LEN"))
        return self.other(eng, ins, pred, x, y, st)

    def mark(self, st):
        st.auto = st.auto._replace(inb=True)
        return True

    def other(self, eng, ins, pred, x, y, st):
        return None

    def arith(self, eng, ins, op, x, y, st):
        if op == "add" and y == ("i", 1) and eng.induction(ins.fn, ins) and self.index(st, self.reach(ins, st, x)):
            return ("s", "NEXT")
        return None

    def branch(self, eng, ins, cond, taken, st, ctx):
        from patch import NEG
        if cond[0] != "c" or cond[1] not in NEG or cond[2:] != (("s", "IX"), ("s", "LEN")):
            return self.learn(eng, ins, cond, taken, st)
        rel = lambda k: k in {"eq": "=", "ne": "<>", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[cond[1]]
        s = "".join(k for k in "<=" if rel(k) == taken)
        if not s:
            return False
        st.auto = st.auto._replace(inb=True if s == "<" else False if s == "=" else None)
        st.facts.pop(cond, None)
        st.facts = {k: v for k, v in st.facts.items() if k[0] != "c"}

    def learn(self, eng, ins, cond, taken, st):
        pass

    def note(self, st, what):
        st.auto = st.auto._replace(done=st.auto.done | {what})

    def field(self, o, ty):
        return None

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        if b == ("S", "BASE") and o < 0:
            return ("s", "LEN")
        if b == ("S", "BASE") and st.auto.first:
            b = ("S", "EL")
        if b == ("S", "EL"):
            if st.auto.inb is not True:
                self.bad(ins, st, "an element behind the last one is looked at")
            f = self.field(o, ins.ty)
            if f is not None:
                return f
        return self.fetch(eng, ins, b, o, st)

    def fetch(self, eng, ins, b, o, st):
        return None

    def call(self, eng, ins, name, args, st, ctx):
        if name == "vector_length" and self.isbase(args[0]):
            return [dict(ret=("s", "LEN"), havoc=False)]
        return self.calls(eng, ins, name, args, st)

    def calls(self, eng, ins, name, args, st):
        return None


class Find(Scan):
    """yaml_find_keyword"""

    def isbase(self, v):
        return v == ("s", "BASE")

    def field(self, o, ty):
        if o == self.F.so["so_len"]:
            return ("s", ("EF", "len"))
        if o == self.F.so["so_key"]:
            return ("s", ("EF", "key"))

    def gep(self, eng, ins, base, idx, st):
        if base[0] == "p" and base[1][0] == "G" and base[1][-1] == "keywords":
            if idx[-1] != ("s", "SLOT"):
                raise AnalysisError("%s: slot not understood" % ins.where)
            return ("s", "KWSLOT")
        return Scan.gep(self, eng, ins, base, idx, st)

    def fetch(self, eng, ins, b, o, st):
        if b == ("S", "STR") and o == 0 and ins.ty == "i8":
            return ("s", "SLOT")
        if b == ("S", "KWSLOT") and o == 0:
            return ("s", "BASE") if "vec" in st.auto.done or True else None
        return None

    def never_null(self, sid):
        return sid in self.roots and sid != "BASE"

    def other(self, eng, ins, pred, x, y, st):
        L, E = ("s", "LENGTH"), ("s", ("EF", "len"))
        if pred in ("eq", "ne") and (x, y) in ((L, E), (E, L)):
            if "len" in st.auto.done or "nolen" in st.auto.done:
                return ("i", int(("len" in st.auto.done) == (pred == "eq")))
            return ("c", pred, L, E)
        return None

    def learn(self, eng, ins, cond, taken, st):
        if cond[0] == "c" and cond[2:] == (("s", "LENGTH"), ("s", ("EF", "len"))):
            self.note(st, "len" if (cond[1] == "eq") == taken else "nolen")
            st.facts.pop(cond, None)

    def calls(self, eng, ins, name, args, st):
        if name in ("strncmp", "memcmp"):
            if {args[0], args[1]} != {("s", "STR"), ("s", ("EF", "key"))}:
                raise AnalysisError("%s: comparison not understood" % ins.where)
            full = args[2] == ("s", "LENGTH") or args[2] == ("s", ("EF", "len"))
            if not full:
                raise AnalysisError("%s: comparison not understood" % ins.where)
            if name == "memcmp" and "len" not in st.auto.done:
                self.bad(ins, st, "more than the text is looked at")
            y, n = st.copy(), st.copy()
            self.note(y, "text")
            self.note(n, "notext")
            return [dict(base=y, ret=("i", 0), havoc=False), dict(base=n, ret=("i", 1), havoc=False)]
        return None

    def leave(self, ins, st):
        if not st.auto.done & {"nolen", "notext"}:
            self.bad(ins, st, "a keyword may be passed over")


def find(F, res, prop):
    fn = F.prog.need("yaml_find_keyword", "style.c")
    c = Find(F, res, prop)
    eng = Engine(F.prog, c)
    r = ret_ins(fn)
    n = 0
    for rv, q in eng.run(fn, [("s", "STR"), ("s", "LENGTH")], State({}, {}, {}, Sc(True, None, frozenset()))):
        n += 1
        res.obligations += 1
        a = q.auto
        if rv == ("i", 0):
            if a.inb is not False and eng.decide(q, "eq", ("s", "BASE"), ("i", 0)) is not True:
                c.bad(r, q, "the search ends before the last keyword")
        elif rv == ("s", "EL") or rv == ("s", "BASE") and a.first:
            if not {"len", "text"} <= a.done:
                c.bad(r, q, "a keyword other than the one asked for is returned")
        else:
            raise AnalysisError("yaml_find_keyword: result not understood")
    res.floor("outcomes of the lookup", n, 3)


class Init(Scan):
    """style_init"""

    def __init__(self, F, res, prop):
        Scan.__init__(self, F, res, prop)
        self.count = F.n

    def isbase(self, v):
        return v[0] == "p" and v[1][0] == "G" and v[1][-1] == self.F.tab and v[2] == 0 or v == ("s", "BASE")

    def field(self, o, ty):
        if o == self.F.so["so_key"]:
            return ("s", ("EF", "key"))

    def gep(self, eng, ins, base, idx, st):
        if base[0] == "p" and base[1][0] == "G" and base[1][-1] == "keywords":
            if idx[-1] != ("s", "SLOT"):
                raise AnalysisError("%s: slot not understood" % ins.where)
            return ("s", "KWSLOT")
        if base == ("s", "KWVEC") and len(idx) == 1 and idx[0] == ("s", "LAST"):
            return ("s", "DST")
        return Scan.gep(self, eng, ins, base, idx, st)

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0][0] == "G" and l[0][-1] == self.F.tab and st.auto.first:
            return self.field(l[1], ins.ty)
        return Scan.load(self, eng, ins, ptr, st, ctx)

    def fetch(self, eng, ins, b, o, st):
        if b == ("S", ("EF", "key")) and o == 0 and ins.ty == "i8":
            return ("s", "SLOT")
        if b == ("S", "KWSLOT") and o == 0:
            return ("s", "KWVEC")
        return None

    def calls(self, eng, ins, name, args, st):
        if name == "vector_alloc":
            if args[0] != ("s", "KWSLOT"):
                raise AnalysisError("%s: vector not understood" % ins.where)
            return [dict(ret=("i", -1), havoc=False),
                    dict(ret=("s", "LAST"), facts=[(("s", "LAST"), (0, 1 << 40, frozenset()))], havoc=False)]
        if name == "vector_init":
            q = st.copy()
            q.facts = {k: v for k, v in q.facts.items() if k != ("s", "KWVEC")}
            return [dict(base=q, ret=("i", 0), havoc=False), dict(ret=("i", 1), havoc=False)]
        return None

    def memcpy_hook(self, eng, st, args):
        src = args[1]
        if args[0] == ("s", "DST") and args[2] == ("i", self.F.size) and (src == ("s", "EL") or self.isbase(src) and st.auto.first):
            self.note(st, "kept")

    def leave(self, ins, st):
        if "kept" not in st.auto.done:
            self.bad(ins, st, "a keyword may be left out")


def init(F, res, prop):
    fn = F.prog.need("style_init", "style.c")
    c = Init(F, res, prop)
    eng = Engine(F.prog, c)
    r = ret_ins(fn)
    n = 0
    for rv, q in eng.run(fn, [], State({}, {}, {}, Sc(True, None, frozenset()))):
        n += 1
        res.obligations += 1
        if q.auto.inb is not False:
            c.bad(r, q, "the last keywords are left out")
    res.floor("outcomes of filling the table", n, 1)


class Defs(Scan):
    """style_defaults"""
    rule = "default"

    def __init__(self, F, res, prop, tab):
        Scan.__init__(self, F, res, prop)
        self.tab = tab
        self.base, self.osize, self.val, self.isset, self.typ = optlayout(F)
        if tab:
            t = F.tu.globals[tab][0]
            self.count = t[1]
            self.esize = F.tu.sizeof(t[2])
        self.rows = []
        self.stores = {}

    def isbase(self, v):
        return v[0] == "p" and v[1][0] == "G" and v[1][-1] == self.tab and v[2] == 0

    def field(self, o, ty):
        return ("s", ("EF", o))

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0][0] == "G" and l[0][-1] == self.tab and st.auto.first:
            return self.field(l[1], ins.ty)
        return Scan.load(self, eng, ins, ptr, st, ctx)

    def gep(self, eng, ins, base, idx, st):
        if base == ("p", ("S", "ST"), self.base) and idx[-1][0] == "s" and isinstance(idx[-1][1], tuple) and \
                idx[-1][1][0] == "EF":
            self.koff = idx[-1][1][1]
            return ("s", "OPT")
        return Scan.gep(self, eng, ins, base, idx, st)

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            raise AnalysisError("%s: store not understood" % ins.where)
        b, o = l
        if b == ("S", "OPT") and o == self.val:
            if val[0] != "s" or not isinstance(val[1], tuple) or val[1][0] != "EF":
                self.bad(ins, st, "an option is not set to its default")
                return
            self.voff = val[1][1]
            self.note(st, "set")
        elif b == ("S", "ST") and o >= self.base and (o - self.base) % self.osize == self.val:
            self.stores[(o - self.base) // self.osize] = val

    def leave(self, ins, st):
        if "set" not in st.auto.done:
            self.bad(ins, st, "a default may be left out")


def defaults(F, res, prop):
    fn = F.prog.need("style_defaults", "style.c")
    tabs = {i.args[0][1] for i in fn.instrs() for a in [0] if i.args and i.op == "getelementptr" and i.args[0][0] == "g"}
    tabs = [t for t in tabs if t in F.tu.globals and F.tu.globals[t][1] and F.tu.globals[t][1][0] == "agg"]
    if len(tabs) > 1:
        raise AnalysisError("style_defaults: tables not understood")
    c = Defs(F, res, prop, tabs[0] if tabs else None)
    eng = Engine(F.prog, c)
    r = ret_ins(fn)
    n = 0
    for rv, q in eng.run(fn, [("s", "ST")], State({}, {}, {}, Sc(True, None, frozenset()))):
        n += 1
        res.obligations += 1
        if tabs and q.auto.inb is not False:
            c.bad(r, q, "the last defaults are left out")
    res.floor("outcomes of defaults", n, 1)
    have = {}
    for k, v in c.stores.items():
        have[k] = v[1] if v[0] == "i" else None
    if tabs:
        out = {}
        g = F.tu.globals[tabs[0]]
        F.flat(g[0], g[1], 0, out)
        for i in range(c.count):
            k, v = out[i * c.esize + c.koff], out[i * c.esize + c.voff]
            if k[1] in have:
                continue
            have[k[1] if k[0] == "i" else 0] = v[1] if v[0] == "i" else 0
    for name, (scope, kind, vals, d) in OPTIONS.items():
        res.obligations += 1
        got = have.get(F.enum[name])
        want = d if isinstance(d, int) else F.enum[d] if d else None
        if want is None and got in (None, 0, F.enum["False"]):
            continue
        if got != want:
            res.violate(prop, "default", "%s (%s)" % (r.where, fn.name), "the default of %s is not %s" % (name, d), [],
                        "default %s" % name)
    for k in have:
        if F.names.get(k) not in OPTIONS:
            raise AnalysisError("style_defaults: %s not understood" % k)


class Prio(Scan):
    """style_include_priority"""
    rule = "priority"

    def __init__(self, F, res, prop):
        Scan.__init__(self, F, res, prop)
        d = {x[2]: x[0] // 8 for x in F.tu.di_struct("style")}
        self.cats = d["include_categories"]
        c = {x[2]: x[0] // 8 for x in F.tu.di_struct("include_category")}
        self.re, self.pr = c["regex"], c["priority"]
        self.grp, self.srt = c["priority.group"], c["priority.sort"]

    def fetch(self, eng, ins, b, o, st):
        if b == ("S", "ST") and o == self.cats:
            return ("s", "BASE")

    def field(self, o, ty):
        if ty == "i64" and o == self.pr:
            return ("s", ("EF", "priority"))
        if o == self.grp:
            return ("s", ("EF", "group"))
        if o == self.srt:
            return ("s", ("EF", "sort"))
        if not self.re <= o < self.pr and ty not in ("i8",):
            return ("s", ("EF", "usable", o))

    def learn(self, eng, ins, cond, taken, st):
        x = cond
        if cond[0] == "c" and cond[3] == ("i", 0) and cond[1] in ("eq", "ne"):
            x = cond[2]
            taken = taken == (cond[1] == "ne")
        if x[0] == "s" and isinstance(x[1], tuple) and x[1][:2] == ("EF", "usable"):
            if taken:
                self.F.usable.add(x[1][2])
                self.note(st, "usable")
            else:
                self.note(st, "unusable")

    def whole(self, rv):
        return rv == ("s", ("EF", "priority")) or contains(rv, ("EF", "group")) and contains(rv, ("EF", "sort"))

    def calls(self, eng, ins, name, args, st):
        if name == "regexec":
            l = eng.loc(args[0])
            if l is None or not (l[0] == ("S", "EL") or l[0] == ("S", "BASE") and st.auto.first) or l[1] != self.re or \
                    args[1] != ("s", "PATH"):
                raise AnalysisError("%s: match not understood" % ins.where)
            if "usable" not in st.auto.done:
                self.rule = "regex"
                self.bad(ins, st, "a category whose pattern is missing or broken is matched against")
                self.rule = "priority"
            y, n = st.copy(), st.copy()
            self.note(y, "match")
            self.note(n, "nomatch")
            return [dict(base=y, ret=("i", 0), havoc=False), dict(base=n, ret=("i", 1), havoc=False)]

    def memcpy_hook(self, eng, st, args):
        l = eng.loc(args[1])
        if l is not None and l[1] == self.pr and (l[0] == ("S", "EL") or l[0] == ("S", "BASE") and st.auto.first):
            self.note(st, "copied")

    def leave(self, ins, st):
        if not st.auto.done & {"nomatch", "unusable"}:
            self.bad(ins, st, "a category may be passed over")


def priority(F, res, prop):
    fn = F.prog.need("style_include_priority", "style.c")
    c = Prio(F, res, prop)
    eng = Engine(F.prog, c)
    r = ret_ins(fn)
    n = 0
    params = [("s", "ST"), ("s", "PATH")]
    if len(fn.params) != 2:
        raise AnalysisError("style_include_priority: parameters not understood")
    for rv, q in eng.run(fn, params, State({}, {}, {}, Sc(True, None, frozenset()))):
        n += 1
        res.obligations += 1
        a = q.auto
        el = "copied" in a.done or c.whole(rv)
        if a.inb is False:
            if el:
                c.bad(r, q, "a path in no category has a priority")
            if rv[0] == "i" and rv[1] != 0x7fffffff7fffffff:
                c.bad(r, q, "an include in no category does not come last")
        elif "match" not in a.done or not el:
            c.bad(r, q, "the priority is not the one of the first category matching")
    res.floor("outcomes of priorities", n, 2)


# ---------------------------------------------------------------------- getters
class Getter(Client):
    max_states = 2000
    max_seconds = 30
    roots = ("ST",)

    def __init__(self, F):
        self.F, self.prog = F, F.prog
        self.base, self.osize, self.val, self.isset, self.typ = optlayout(F)

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def relevant(self, fn):
        return fn.tu.short == "style.c"

    def keep(self, sid):
        return True

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0] != ("S", "ST") or l[1] < self.base:
            return None
        k, r = divmod(l[1] - self.base, self.osize)
        if r == self.val:
            return ("s", ("V", k))
        return None


def getters(F, res, prop):
    E = F.enum
    fn = F.prog.need("style", "style.c")
    r = ret_ins(fn)
    n = 0
    for name in OPTIONS:
        res.obligations += 1
        c = Getter(F)
        for rv, q in Engine(F.prog, c).run(fn, [("s", "ST"), ("i", E[name])], State({}, {}, {}, ())):
            n += 1
            if rv != ("s", ("V", E[name])):
                res.violate(prop, "getter", "%s (%s)" % (r.where, fn.name), "%s is not what it was set to" % name, q.trace_list(),
                            "getter %s" % name)
    fn = F.prog.need("style_brace_wrapping", "style.c")
    r = ret_ins(fn)
    for name in BOOLS:
        res.obligations += 1
        c = Getter(F)
        eng = Engine(F.prog, c)
        for rv, q in eng.run(fn, [("s", "ST"), ("i", E[name])], State({}, {}, {}, ())):
            n += 1
            linux = eng.decide(q, "eq", ("s", ("V", E["BreakBeforeBraces"])), ("i", E["Linux"]))
            v = ("s", ("V", E[name]))
            true = eng.decide(q, "eq", v, ("i", E["True"]))
            ok = False
            if name == "AfterFunction" and linux is True:
                ok = rv[0] == "i" and rv[1] != 0
            elif name == "AfterFunction" and linux is None:
                ok = False
            elif true is not None:
                ok = rv[0] == "i" and (rv[1] != 0) == true
            elif rv[0] == "c":
                ok = rv == ("c", "eq", v, ("i", E["True"]))
            if not ok:
                res.violate(prop, "getter", "%s (%s)" % (r.where, fn.name), "%s is not what it was set to" % name, q.trace_list(),
                            "getter %s" % name)
    res.floor("outcomes of getters", n, 60)


def p21(prog, res, prop):
    F = Facts(prog)
    byname = table(F, res, prop)
    parsers(F, res, prop, byname)
    init(F, res, prop)
    find(F, res, prop)
    defaults(F, res, prop)
    priority(F, res, prop)
    getters(F, res, prop)


# --------------------------------------------------------------------- documents
Dc = namedtuple("Dc", "tok excl mode lang fail")


class Docs(Client):
    """style_parse_yaml_documents: tok is the token at hand if known, excl the types it has not, mode how much of an unknown
    option may be skipped, lang whether the document is for C"""
    max_states = 20000
    max_seconds = 60
    roots = ("ST", "LX", "KEY", "SO", "VAL")

    def __init__(self, F, res, prop, nested, other):
        self.F, self.prog, self.res, self.prop, self.nested, self.other = F, F.prog, res, prop, nested, other
        d = {x[2]: x[0] // 8 for x in F.tu.di_struct("style")}
        self.sc = d["scope"]
        y = {x[2]: x[0] // 8 for x in F.tu.di_struct("yaml_token")}
        self.so = F.tu.sizeof("%struct.token") + y["so"]
        E = F.enum
        self.kinds = {F.eof: "eof", E["Sequence"]: "seq", E["DocumentBegin"]: "begin", E["DocumentEnd"]: "end", E["Colon"]: "colon"}
        self.parsed = self.skipped = 0

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def relevant(self, fn):
        return fn.tu.short == "style.c" and not fn.name.startswith("yaml_document_language")

    def bad(self, rule, ins, st, msg):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (ins.fn.name, rule))

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, o = l
        a = st.auto
        if b == ("S", "ST") and o == self.sc:
            return ("i", 7 if self.nested else 0)
        if b == ("S", "KEY") and o == self.so:
            return ("s", "SO") if a.tok in ("opt", "other") else ("i", 0)
        if b == ("S", "SO"):
            if o == self.F.so["so_scope"]:
                return ("i", (7 if self.nested else 0) if a.tok == "opt" else self.other)
            if o == self.F.so["so_parse"]:
                return ("s", "PARSE")
        return None

    def split(self, st, t):
        k = self.kinds.get(t)
        if k is None:
            raise AnalysisError("style.c: token %s not understood" % t)
        a = st.auto
        if a.tok is not None:
            return [(st, a.tok == k)]
        if k in a.excl:
            return [(st, False)]
        y, n = st.copy(), st.copy()
        y.auto, n.auto = a._replace(tok=k, excl=frozenset()), a._replace(excl=a.excl | {k})
        return [(y, True), (n, False)]

    def take(self, ins, st, pop):
        """the token at hand is consumed"""
        a = st.auto
        if a.tok == "eof":
            return
        mode = a.mode
        if pop:
            may = a.tok in (None, "opt")
            if a.lang == "foreign" and (a.tok == "begin" or a.tok is None and "begin" not in a.excl):
                self.bad("language", ins, st, "a document behind one for another language may be skipped")
            if a.tok == "unk" or a.tok == "none":
                mode = 1
            elif mode == 1:
                mode = 0
            elif mode == 2:
                mode = 1
            elif may and (self.nested or a.lang == "ok") and self.dispatchable(a):
                self.bad("ignored", ins, st, "an option may be skipped")
            elif may and not self.nested and a.lang is None:
                self.bad("ignored", ins, st, "an option may be skipped")
        elif a.tok == "seq":
            mode = 2 if mode == 1 else mode
        elif a.tok == "begin":
            mode = 0
        self.skipped += 1
        lang = a.lang if not (a.lang == "foreign" and a.tok == "begin") else None
        st.auto = a._replace(tok=None, excl=frozenset(), mode=mode, lang=lang)

    def dispatchable(self, a):
        return True

    def call(self, eng, ins, name, args, st, ctx):
        a = st.auto
        F = self.F
        if name in ("lexer_if", "lexer_peek_if", "lexer_expect"):
            if args[1][0] != "i":
                raise AnalysisError("%s: token not understood" % ins.where)
            out = []
            for q, y in self.split(st, args[1][1]):
                if y:
                    q = q.copy()
                    if name != "lexer_peek_if":
                        self.take(ins, q, False)
                out.append(dict(base=q, ret=("i", int(y)), havoc=False,
                                note="the token is %s" % self.kinds[args[1][1]] if y else None))
            return out
        if name == "lexer_pop":
            q = st.copy()
            self.take(ins, q, True)
            out = [dict(base=q, ret=("i", 1), havoc=False, mem=[(args[1], ("s", "VAL"))])]
            n = st.copy()
            if a.tok in (None, "eof") and "eof" not in a.excl:
                n.auto = a._replace(tok="eof")
                out.append(dict(base=n, ret=("i", 0), havoc=False))
            return out
        if name == "lexer_peek":
            out = []
            if a.tok in (None, "eof"):
                for k in ("opt", "other", "unk"):
                    q = st.copy()
                    q.auto = a._replace(tok=k, excl=frozenset())
                    out.append(dict(base=q, ret=("i", 1), havoc=False, mem=[(args[1], ("s", "KEY"))],
                                    note={"opt": "an option", "other": "an option of another scope", "unk": "something unknown"}[k]))
                for k in ("eof", "seq", "begin", "end"):
                    if k in a.excl or a.tok is not None and k != a.tok:
                        continue
                    q = st.copy()
                    q.auto = a._replace(tok=k, excl=frozenset())
                    out.append(dict(base=q, ret=("i", 1), havoc=False, mem=[(args[1], ("s", "KEY"))]))
                n = st.copy()
                n.auto = a._replace(tok="eof", fail=True)
                out.append(dict(base=n, ret=("i", 0), havoc=False))
                return out
            return [dict(ret=("i", 1), havoc=False, mem=[(args[1], ("s", "KEY"))])]
        if name == "yaml_document_language":
            out = []
            for v, l in [(F.enum["None"], "ok"), (F.enum["Cpp"], "ok")] + [
                    (F.enum[x], "foreign") for x in OPTIONS["Language"][2].split() + ["Unknown"] if x != "Cpp"]:
                q = st.copy()
                q.auto = a._replace(lang=l)
                out.append(dict(base=q, ret=("i", v), havoc=False, note="the document is for %s" % F.names[v]))
            return out
        if name is None and ins.op == "call":
            v = eng.norm(st, eng.val(st, ins.fn, ins.callee))
            if v != ("s", "PARSE"):
                raise AnalysisError("%s: call not understood" % ins.where)
            self.parsed += 1
            self.res.obligations += 1
            if args != [("s", "ST"), ("s", "LX"), ("s", "SO")]:
                raise AnalysisError("%s: arguments not understood" % ins.where)
            if a.tok != "opt":
                self.bad("scope", ins, st, "an option of another scope is honored")
            if not self.nested and a.lang != "ok":
                self.bad("language", ins, st, "an option for another language is honored")
            out = []
            for c in ("GOOD", "SKIP", "FAIL", "NONE"):
                q = st.copy()
                if c == "NONE":
                    q.auto = a._replace(tok="none")
                else:
                    q.auto = Dc(None, frozenset(), 0, None, c == "FAIL")
                out.append(dict(base=q, ret=("i", F.code[c]), havoc=False, note="parsing says %s" % c))
            return out
        if name in ("lexer_error", "lexer_serialize", "lexer_error_impl", "trace", "tracef"):
            return [dict(havoc=False)]
        if name in ("lexer_peek_enter", "lexer_peek_leave"):
            raise AnalysisError("%s: lookahead not understood" % ins.where)
        return None


def documents(F, res, prop):
    fn = F.prog.need("style_parse_yaml_documents", "style.c")
    r = ret_ins(fn)
    n = 0
    for nested, other in ((0, 9), (1, 9), (1, 0)):
        c = Docs(F, res, prop, nested, other)
        eng = Engine(F.prog, c)
        for rv, q in eng.run(fn, [("s", "ST"), ("s", "LX"), ("i", nested)], State({}, {}, {}, Dc(None, frozenset(), 0, None, False))):
            n += 1
            res.obligations += 1
            a = q.auto
            if a.tok in ("eof", "seq", "other") or a.fail:
                continue
            c.bad("ignored", r, q, "reading of the style ends before its end")
        res.cov["options dispatched (nested %d)" % nested] = c.parsed
        if not c.parsed:
            c.bad("ignored", r, State({}, {}, {}, ()), "no option is read")
    res.floor("outcomes of reading", n, 4)


Lg = namedtuple("Lg", "at tok excl enter ended")


class Lang(Client):
    """yaml_document_language: at is None, Language or Colon: what was read last"""
    max_states = 5000
    max_seconds = 30
    roots = ("LX", "TK", "OTK")

    def __init__(self, F, res, prop):
        self.F, self.prog, self.res, self.prop = F, F.prog, res, prop
        self.ty = {x[2]: x[0] // 8 for x in F.tu.di_struct("token")}["tk_type"]

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def relevant(self, fn):
        return fn.tu.short == "style.c"

    def bad(self, ins, st, msg):
        self.res.violate(self.prop, "language", "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s language" % ins.fn.name)

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l == (("S", "TK"), self.ty):
            return ("s", "TYPE")
        return None

    def call(self, eng, ins, name, args, st, ctx):
        F, a = self.F, st.auto
        E = F.enum
        if name == "lexer_peek_enter":
            return [dict(auto=a._replace(enter=a.enter + 1), havoc=True)]
        if name == "lexer_peek_leave":
            return [dict(auto=a._replace(enter=a.enter - 1), havoc=False)]
        if name in ("lexer_if", "lexer_peek_if"):
            t = args[1][1]
            if args[1][0] != "i":
                raise AnalysisError("%s: token not understood" % ins.where)
            peek = name == "lexer_peek_if"
            if a.tok is not None and a.tok != t or t in a.excl:
                return [dict(ret=("i", 0), havoc=False)]
            q, n = st.copy(), st.copy()
            n.auto = a._replace(excl=a.excl | {t})
            if t in (F.eof, E["DocumentBegin"]):
                q.auto = a._replace(tok=t, ended=True)
            elif peek:
                q.auto = a._replace(tok=t)
            else:
                at = "L" if t == E["Language"] else "C" if t == E["Colon"] and a.at == "L" else None
                q.auto = a._replace(tok=None, excl=frozenset(), at=at)
            m = [(args[2], ("s", "OTK"))] if args[2][0] == "p" else []
            return [dict(base=q, ret=("i", 1), havoc=False, mem=m, note="the token is %s" % F.names.get(t, "the end"))] + \
                ([dict(base=n, ret=("i", 0), havoc=False)] if a.tok is None else [])
        if name == "lexer_pop":
            if a.ended and a.tok is None:
                return [dict(ret=("i", 0), havoc=False)]
            if not a.enter:
                self.bad(ins, st, "the document is consumed")
            if a.at is None and E["Language"] not in a.excl:
                self.bad(ins, st, "the language may be overlooked")
            if a.at is None and E["DocumentBegin"] not in a.excl:
                self.bad(ins, st, "the next document is looked at")
            q, n = st.copy(), st.copy()
            if a.at == "C":
                q.auto = a._replace(at="V", tok=None, excl=frozenset())
                v = ("s", "TK")
            else:
                q.auto = a._replace(at=None, tok=None, excl=frozenset())
                v = ("s", "OTK")
            n.auto = a._replace(ended=True)
            return [dict(base=q, ret=("i", 1), havoc=False, mem=[(args[1], v)]), dict(base=n, ret=("i", 0), havoc=False)]
        return None


def language(F, res, prop):
    fn = F.prog.fn("yaml_document_language", "style.c")
    if fn is None:
        raise AnalysisError("yaml_document_language not found")
    c = Lang(F, res, prop)
    r = ret_ins(fn)
    n = 0
    for rv, q in Engine(F.prog, c).run(fn, [("s", "LX")], State({}, {}, {}, Lg(None, None, frozenset(), 0, False))):
        n += 1
        res.obligations += 1
        a = q.auto
        if a.enter:
            c.bad(r, q, "the document is consumed")
        if a.at == "V":
            if rv != ("s", "TYPE"):
                c.bad(r, q, "the language is not the one given")
        elif rv != ("i", F.enum["None"]):
            c.bad(r, q, "a document for all languages is taken for another")
        elif not a.ended:
            c.bad(r, q, "the language may be overlooked")
    res.floor("outcomes of the language", n, 2)


# ------------------------------------------------------------------------ whole
Wh = namedtuple("Wh", "log sets src")


class Whole(Client):
    """style_parse and style_parse_buffer"""
    max_states = 5000
    max_seconds = 30
    roots = ("ST", "BUF", "PATH", "ETERNAL", "SCRATCH", "OP", "LX")

    def __init__(self, F, res, prop):
        self.F, self.prog, self.res, self.prop = F, F.prog, res, prop
        self.base, self.osize, self.val, self.isset, self.typ = optlayout(F)

    def never_null(self, sid):
        return sid in self.roots

    def distinct(self, b):
        return b[0] == "S" and b[1] in self.roots

    def relevant(self, fn):
        return fn.tu.short == "style.c" and fn.name in ("style_set", "style_parse_buffer", "style_parse_yaml")

    def bad(self, ins, st, msg):
        self.res.violate(self.prop, "file", "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s file" % ins.fn.name)

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0] == ("S", "ST") and l[1] >= self.base and (l[1] - self.base) % self.osize == self.val:
            k = (l[1] - self.base) // self.osize
            st.auto = st.auto._replace(sets=st.auto.sets + ((k, val),))

    def call(self, eng, ins, name, args, st, ctx):
        a = st.auto
        ev = lambda *e: a._replace(log=a.log + (e,))
        if name in ("arena_calloc", "arena_calloc_impl") or name is not None and name.startswith("arena_calloc"):
            return [dict(ret=("s", "ST"), havoc=False, auto=ev("alloc"))]
        if name == "style_defaults":
            return [dict(havoc=False, auto=ev("defaults"))]
        if name == "lexer_tokenize":
            return [dict(ret=("s", "LX"), havoc=False), dict(ret=("i", 0), havoc=False, auto=ev("nolexer"))]
        if name == "style_parse_yaml_documents":
            return [dict(havoc=False, auto=ev("documents", args[0], args[2]))]
        if name == "arena_buffer_read":
            return [dict(ret=("s", "BUF"), havoc=False, auto=ev("read", args[1])),
                    dict(ret=("i", 0), havoc=False, auto=ev("unread"))]
        if name == "arena_buffer_read_fd":
            return [dict(ret=("s", "BUF"), havoc=False, auto=ev("readfd")), dict(ret=("i", 0), havoc=False, auto=ev("nofd"))]
        if name == "searchpath":
            p = args[0]
            s = eng.prog.gstr(ins.fn.tu, ("g", p[1][-1])) if p[0] == "p" and p[1][0] == "G" else None
            if s != ".clang-format":
                self.bad(ins, st, "the style is looked for in another file")
            return [dict(ret=("s", "FD"), facts=[(("s", "FD"), (0, 1 << 20, frozenset()))], havoc=False, auto=ev("found")),
                    dict(ret=("i", -1), havoc=False, auto=ev("notfound"))]
        if name in ("vector_init", "arena_cleanup", "warn", "close", "options_trace_level", "arena_cleanup_impl"):
            return [dict(ret=("i", 0), havoc=False)]
        return None


def whole(F, res, prop):
    E = F.enum
    n = 0
    open_ = (E["BasedOnStyle"], ("i", E["OpenBSD"]))
    fn = F.prog.need("style_parse_buffer", "style.c")
    r = ret_ins(fn)
    for bf in (("s", "BUF"), ("i", 0)):
        c = Whole(F, res, prop)
        eng = Engine(F.prog, c)
        args = [bf, ("s", "PATH"), ("s", "ETERNAL"), ("s", "SCRATCH"), ("s", "OP")]
        for rv, q in eng.run(fn, args, State({}, {}, {}, Wh((), (), None))):
            n += 1
            judge_file(F, c, r, q, bf[0] == "s", rv)
    fn = F.prog.need("style_parse", "style.c")
    r = ret_ins(fn)
    for path in (("s", "PATH"), ("i", 0)):
        c = Whole(F, res, prop)
        eng = Engine(F.prog, c)
        args = [path, ("s", "ETERNAL"), ("s", "SCRATCH"), ("s", "OP")]
        for rv, q in eng.run(fn, args, State({}, {}, {}, Wh((), (), None))):
            n += 1
            names = [e[0] for e in q.auto.log]
            if path[0] == "s":
                if "unread" in names:
                    if rv != ("i", 0):
                        c.bad(r, q, "a style that cannot be read is ignored")
                    continue
                if ("read", ("s", "PATH")) not in q.auto.log:
                    c.bad(r, q, "the style is not read")
                    continue
            elif "found" not in names and "notfound" not in names:
                c.bad(r, q, "no style is looked for")
                continue
            judge_file(F, c, r, q, "read" in names or "readfd" in names, rv)
    res.floor("outcomes of files", n, 6)


def judge_file(F, c, r, q, has, rv):
    E = F.enum
    c.res.obligations += 1
    names = [e[0] for e in q.auto.log]
    if rv != ("s", "ST"):
        c.bad(r, q, "the style is not the one read")
        return
    if names.count("defaults") != 1 or "documents" in names and names.index("defaults") > names.index("documents"):
        c.bad(r, q, "defaults take precedence over the style")
    docs = [e for e in q.auto.log if e[0] == "documents"]
    if has:
        if "nolexer" not in names and (len(docs) != 1 or docs[0][1] != ("s", "ST") or docs[0][2] != ("i", 0)):
            c.bad(r, q, "the style is not honored")
        if q.auto.sets:
            c.bad(r, q, "an option is set that is not in the style")
    else:
        if docs:
            c.bad(r, q, "a style is read that is not there")
        if dict(q.auto.sets) != {E["BasedOnStyle"]: ("i", E["OpenBSD"])}:
            c.bad(r, q, "without a style, the one of OpenBSD is not used")


def p21(prog, res, prop):
    F = Facts(prog)
    byname = table(F, res, prop)
    parsers(F, res, prop, byname)
    init(F, res, prop)
    find(F, res, prop)
    defaults(F, res, prop)
    priority(F, res, prop)
    getters(F, res, prop)
    documents(F, res, prop)
    language(F, res, prop)
    whole(F, res, prop)


# -------------------------------------------------------------- what is made of it
CLASSES = {
    "AlignAfterOpenBracket": ["AlwaysBreak BlockIndent DontAlign"],
    "AlignOperands": ["AlignAfterOperator DontAlign"],
    "AlwaysBreakAfterReturnType": ["TopLevel All", "TopLevelDefinitions AllDefinitions"],
    "BreakBeforeBraces": ["Allman Attach GNU Mozilla Stroustrup WebKit Whitesmiths Custom"],
    "SortIncludes": ["CaseInsensitive Never"],
    "UseTab": ["ForIndentation ForContinuationAndIndentation AlignWithSpaces Always"],
}


def flows(fn, name):
    """locals the value of name is passed on to unchanged"""
    names = {name}
    cells = set()
    while True:
        n = len(names) + len(cells)
        for i in fn.instrs():
            if i.op in ("zext", "sext", "trunc", "phi", "freeze") and i.res:
                ops = [v for v, _ in i.extra] if i.op == "phi" else i.args
                if any(v[0] == "l" and v[1] in names for v in ops):
                    names.add(i.res)
            elif i.op == "store" and i.args[0][0] == "l" and i.args[0][1] in names and i.args[1][0] == "l":
                d = next((x for x in fn.instrs() if x.res == i.args[1][1]), None)
                if d is not None and d.op == "alloca":
                    cells.add(d.res)
            elif i.op == "load" and i.args[0][0] == "l" and i.args[0][1] in cells:
                names.add(i.res)
        if n == len(names) + len(cells):
            return names


def taken(F, res, prop):
    """values not supported are told from the one they are taken for nowhere"""
    prog = F.prog
    byval = {F.enum[k]: k for k in OPTIONS}
    sites = 0
    uses = []
    for fn in prog.functions():
        tests = {}
        limit = {}
        for i in fn.instrs():
            if i.op != "call" or i.callee != ("g", "style") or not i.res or i.args[1][0] != "i":
                continue
            o = byval.get(i.args[1][1])
            if o is None:
                continue
            sites += 1
            names = flows(fn, i.res)
            limit.setdefault(o, set()).update(names)
            for j in fn.instrs():
                if j.op == "icmp" and j.extra in ("eq", "ne"):
                    for x, y in (j.args, j.args[::-1]):
                        if x[0] == "l" and x[1] in names and y[0] == "i":
                            tests.setdefault(o, []).append((j, {y[1]}))
                elif j.op == "switch" and j.args[0][0] == "l" and j.args[0][1] in names:
                    cases = {}
                    dflt = None
                    tests.setdefault(o, [])
                    tests[o] += [(j, g) for g in cases_of(j)]
        for o, ts in tests.items():
            for cl in CLASSES.get(o, ()):
                cl = {F.enum[v] for v in cl.split()}
                res.obligations += 1
                seen = set().union(*[g & cl for j, g in ts])
                if seen and seen != cl:
                    j = next(j for j, g in ts if g & cl)
                    res.violate(prop, "taken", "%s (%s)" % (j.where, fn.name), "%s: %s is told from the values taken for it" % (
                        o, F.names[min(seen)]), [], "%s %s" % (fn.name, o))
        if limit.get("ColumnLimit"):
            uses.append((fn, limit["ColumnLimit"]))
    wraps(F, res, prop, uses)
    res.floor("uses of options", sites, 30)


def cases_of(j):
    """sets of values a switch treats alike"""
    g = {}
    for v, t in j.extra[1]:
        if t != j.extra[0]:
            g.setdefault(t, set()).add(v)
    return list(g.values())


def wraps(F, res, prop, uses):
    """no limit is not a width"""
    cmps = {}
    subs = []
    for fn, lim in uses:
        for i in fn.instrs():
            ops = [a[1] for a in i.args if a[0] == "l"]
            if not set(ops) & lim:
                continue
            if i.op == "icmp":
                for a in i.args:
                    if a[0] == "i" and a[1] in (-1, 0xffffffff):
                        cmps.setdefault(fn.tu.short, set()).add("none")
                    elif a[0] == "l" and a[1] not in lim:
                        cmps.setdefault(fn.tu.short, set()).add("other")
            elif i.op in ("sub", "add", "mul", "udiv", "shl") and i.args[0][0] == "l" and i.args[0][1] in lim:
                subs.append((fn, i))
    for fn, i in subs:
        res.obligations += 1
        c = cmps.get(fn.tu.short, set())
        if "none" not in c or i.op == "sub" and "other" not in c:
            res.violate(prop, "limit", "%s (%s)" % (i.where, fn.name), "the column limit is used as a width without one being given "
                        "or large enough", [], "%s limit" % fn.name)


def p21(prog, res, prop):
    F = Facts(prog)
    F.usable = set()
    byname = table(F, res, prop)
    priority(F, res, prop)
    parsers(F, res, prop, byname)
    init(F, res, prop)
    find(F, res, prop)
    defaults(F, res, prop)
    getters(F, res, prop)
    documents(F, res, prop)
    language(F, res, prop)
    whole(F, res, prop)
    taken(F, res, prop)
