"""A domain for code that walks over a text.

The text is a chain of segments.  A segment is a set of byte values and a kind:
"1" exactly one byte, "+" one or more, "*" any number.  Pointers into the text
are positions between segments, lengths are sums of lengths of segments plus a
constant, a byte read is the (single byte) segment it came from.  Asking for a
byte or a position not known yet splits a segment; segments nobody refers to
any more are joined, so loops over the text reach a fixpoint.
"""
from absint import Client, Engine, State
from ir import AnalysisError
from lexread import ALL, chars_of, ctype, dom_of

NLC, BSL = 10, 92
BLANKS = frozenset(b" \t\r\f\v")
CLASSES = [frozenset(b"\n"), frozenset(b"\\"), frozenset(b"\r"), frozenset(b" \t"), BLANKS, BLANKS | {NLC},
           ALL - BLANKS - {NLC, BSL}, ALL - BLANKS - {NLC}, ALL - {NLC}]


class Fork(Exception):
    """go on with each of these states instead"""

    def __init__(self, states):
        self.states = states


class SegEngine(Engine):
    def step(self, fn, ins, st, ctx, stack, inloop):
        try:
            return super().step(fn, ins, st, ctx, stack, inloop)
        except Fork as f:
            out = []
            for q in f.states:
                out += self.step(fn, ins, q, ctx, stack, inloop)
            return out


def pos(i):
    return ("s", ("P", i))


def is_(v, k):
    return v[0] == "s" and isinstance(v[1], tuple) and len(v[1]) > 1 and v[1][0] == k


def rebuild(v, f):
    """apply f to the tuples that denote parts of the text"""
    if isinstance(v, tuple):
        if v and v[0] in ("P", "B") and len(v) == 2 and isinstance(v[1], int):
            return f(v)
        if len(v) == 3 and v[0] == "L" and isinstance(v[1], tuple):
            return f(v)
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = rebuild(x, f)
                ch = ch or y is not x
                out.append(y)
            else:
                out.append(x)
        if not ch:
            return v
        out = tuple(out)
        # a length that became a constant
        if out[0] == "s" and isinstance(out[1], tuple) and out[1] and out[1][0] == "L" and not out[1][1]:
            return ("i", out[1][2])
        return out
    return v


class Seg(Client):
    """st.auto = (segments, position up to which the text was put out, rest)"""
    max_states = 400000
    max_seconds = 300
    drop_dead = True
    nul = False          # the text is followed by a '\0'

    # ------------------------------------------------------------- structure
    @staticmethod
    def segs(st):
        return st.auto[0]

    def chars(self, st, i):
        c, k = st.auto[0][i]
        d = st.facts.get(("s", ("B", i)))
        return c & chars_of(d) if d is not None and k == "1" else c

    def apply(self, st, f, segs):
        st.env = {k: rebuild(v, f) for k, v in st.env.items()}
        st.mem = {(rebuild(k[0], f), k[1]): (rebuild(v[0], f), v[1]) for k, v in st.mem.items()}
        facts = {}
        for k, d in st.facts.items():
            n = rebuild(k, f)
            if n[0] != "i":
                facts[n] = d
        st.facts = facts
        st.auto = (tuple(segs), f(("P", st.auto[1]))[1]) + rebuild(st.auto[2:], f)

    def split(self, st, i, a, b):
        """segment i becomes a, b"""
        s = list(self.segs(st))
        new = s[:i] + [a, b] + s[i + 1:]

        def f(v):
            if v[0] == "P":
                return ("P", v[1] + (v[1] > i))
            if v[0] != "L":
                return (v[0], v[1] + (v[1] > i))
            ss = []
            for x in v[1]:
                ss += [x + (x > i)] if x != i else [i, i + 1]
            return ("L", tuple(ss), v[2])
        self.apply(st, f, new)

    def single(self, st, i):
        """segment i is one byte"""
        s = list(self.segs(st))
        s[i] = (s[i][0], "1")
        st.auto = (tuple(s),) + st.auto[1:]

    def empty(self, st, i):
        """segment i is empty"""
        s = list(self.segs(st))
        del s[i]

        def f(v):
            if v[0] == "L":
                return ("L", tuple(x - (x > i) for x in v[1] if x != i), v[2])
            return (v[0], v[1] - (v[1] > i))
        self.apply(st, f, s)

    def filled(self, st, i):
        s = list(self.segs(st))
        s[i] = (s[i][0], "+")
        st.auto = (tuple(s),) + st.auto[1:]

    def narrow(self, st, i, cs):
        """the bytes of segment i are among cs; False: impossible"""
        s = list(self.segs(st))
        n = self.chars(st, i) & cs
        if not n:
            if s[i][1] != "*":
                return False
            self.empty(st, i)
            return True
        s[i] = (n, s[i][1])
        st.auto = (tuple(s),) + st.auto[1:]
        b = ("s", ("B", i))
        if b in st.facts:
            st.facts[b] = dom_of(n)
        return True

    def some(self, st, i):
        """segment i has at least one byte: forks unless known"""
        if self.segs(st)[i][1] == "*":
            a, b = st.copy(), st.copy()
            self.empty(a, i)
            self.filled(b, i)
            raise Fork([a, b])

    def first(self, st, i):
        """make segment i start with a segment of one byte"""
        self.some(st, i)
        c, k = self.segs(st)[i]
        if k == "+":
            b = st.copy()
            self.split(b, i, (c, "1"), (c, "*"))
            raise Fork([b])

    def last(self, st, i):
        self.some(st, i)
        c, k = self.segs(st)[i]
        if k == "+":
            b = st.copy()
            self.split(b, i, (c, "*"), (c, "1"))
            raise Fork([b])

    def move(self, st, i, k):
        """position i + k bytes, None: outside of the text"""
        while k > 0:
            if i >= len(self.segs(st)):
                return None
            self.first(st, i)
            i, k = i + 1, k - 1
        while k < 0:
            if i == 0:
                return None
            self.last(st, i - 1)
            i, k = i - 1, k + 1
        return i

    @staticmethod
    def term(st, i, j):
        """length between positions i <= j"""
        return tuple(range(i, j)), 0

    def num(self, st, ss, c):
        """segments of unknown length, constant"""
        s = self.segs(st)
        u = tuple(x for x in ss if s[x][1] != "1")
        return u, c + len(ss) - len(u)

    @staticmethod
    def mkL(ss, c):
        return ("s", ("L", tuple(ss), c)) if ss else ("i", c)

    @staticmethod
    def L(v):
        if is_(v, "L"):
            return v[1][1], v[1][2]
        if v[0] == "i":
            return (), v[1]
        return None

    def at(self, st, i, v):
        """position i + length v, None: not known, -1: outside"""
        l = self.L(v)
        if l is None:
            return None
        best = None
        n = len(self.segs(st))
        if l[0] and l[0] == tuple(range(i, i + len(l[0]))):
            best = (i + len(l[0]), l[1])
        else:
            u, c = self.num(st, *l)
            for j in range(n + 1):
                v, d = self.num(st, range(min(i, j), max(i, j)), 0)
                if j < i:
                    if u or v:
                        continue
                    k = c + d
                else:
                    if v != u:
                        continue
                    k = c - d
                if best is None or abs(k) < abs(best[1]):
                    best = (j, k)
        if best is None:
            # behind or before a position still to be found
            return None
        r = self.move(st, *best)
        return -1 if r is None else r

    # ------------------------------------------------------------- tidying up
    def pinned(self, st, k, live):
        """keep position k although nobody refers to it"""
        s = self.segs(st)

        def nl(i):
            return 0 <= i < len(s) and s[i][1] == "1" and self.chars(st, i) == {NLC}

        def bs(i):
            return 0 <= i < len(s) and s[i][1] == "1" and self.chars(st, i) == {BSL}

        def held(i):
            """newline i touches a position in use"""
            return nl(i) and (i + 1 in live or i in live or bs(i - 1) and i - 1 in live or i + 1 == len(s))
        return held(k) or held(k - 1) or bs(k) and held(k + 1)

    def tidy(self, st):
        live, bytes_, terms = {st.auto[1]}, set(), set()

        def f(v):
            if v[0] == "P":
                live.add(v[1])
            elif v[0] == "B":
                bytes_.add(v[1])
            else:
                terms.add(v)
            return v
        for v in st.env.values():
            rebuild(v, f)
        for k, v in st.mem.items():
            rebuild(k[0], f)
            rebuild(v[0], f)
        rebuild(st.auto[2:], f)
        if any(t[2] for t in terms):
            terms = self.settle(st, live, terms)
        s = list(self.segs(st))
        for i in range(len(s)):
            b = ("s", ("B", i))
            if b in st.facts and i not in bytes_:
                s[i] = (self.chars(st, i), s[i][1])
                del st.facts[b]
        for k in [k for k in st.facts if (is_(k, "B") or is_(k, "L") or is_(k, "P")) or
                  (is_(k, "CTM") or is_(k, "CTV")) and not self.uses_(st, k)]:
            if is_(k, "B") and k[1][1] in bytes_:
                continue
            del st.facts[k]
        st.auto = (tuple(s),) + st.auto[1:]
        k = 1
        while k < len(self.segs(st)):
            s = self.segs(st)
            used = live | {j for j in range(1, len(s)) if not self.joinable(s, j, terms)}
            if k in used or k - 1 in bytes_ or k in bytes_ or self.pinned(st, k, used) or \
                    k - 1 in used and s[k - 1][1] == "1" and s[k - 1][0] != ALL or \
                    k + 1 in used and s[k][1] == "1" and s[k][0] != ALL:
                k += 1
                continue
            c = s[k - 1][0] | s[k][0]
            kd = "*" if s[k - 1][1] == s[k][1] == "*" else "+"

            def g(v, k=k):
                if v[0] != "L":
                    return (v[0], v[1] - (v[1] >= k))
                return ("L", tuple(sorted({x - (x >= k) for x in v[1]})), v[2])
            live = {x - (x >= k) for x in live}
            bytes_ = {x - (x >= k) for x in bytes_}
            terms = {g(t) for t in terms}
            self.apply(st, g, s[:k - 1] + ((c, kd),) + s[k + 1:])
        # what was put out already does not matter
        s = list(self.segs(st))
        lo = min(live - {0}, default=0) if st.auto[1] else 0
        pre = set(range(lo))
        if lo > 0 and all(pre <= set(t[1]) or not pre & set(t[1]) for t in terms) and not pre & bytes_ and \
                s[:lo] != [(ALL, "*")]:
            def h(v):
                if v[0] != "L":
                    return (v[0], v[1] - lo + 1 if v[1] else 0)
                return ("L", tuple(([0] if 0 in v[1] else []) + [x - lo + 1 for x in v[1] if x >= lo]), v[2])
            self.apply(st, h, [(ALL, "*")] + s[lo:])
            s = list(self.segs(st))
            bytes_ = {x - lo + 1 for x in bytes_}
        for i, (c, k) in enumerate(s):
            if i not in bytes_:
                s[i] = (self.coarse(c), k)
        st.auto = (tuple(s),) + st.auto[1:]

    @staticmethod
    def coarse(c):
        for k in CLASSES:
            if c <= k:
                return k
        return ALL

    def settle(self, st, live, terms):
        """express lengths by segments rather than constants"""
        s = self.segs(st)
        n = len(s)
        ends = set(live) | {k for t in terms for k in range(1, n) if not t[2] and (k - 1 in t[1]) != (k in t[1])}
        to = {}
        for t in sorted(terms, key=lambda t: (-t[2], t)):
            ss, c = t[1], t[2]
            if not ss or ss != tuple(range(ss[0], ss[-1] + 1)):
                continue
            a, b = ss[0], ss[-1] + 1
            while c < 0 and a < b:
                f, l = s[a][1] == "1", s[b - 1][1] == "1"
                if f and (a + 1 in ends and not (l and b - 1 in ends) or not l):
                    a += 1
                elif l:
                    b -= 1
                else:
                    break
                c += 1
            while c > 0 and b < n and s[b][1] == "1":
                b += 1
                c -= 1
            if (a, b, c) != (ss[0], ss[-1] + 1, t[2]):
                to[t] = ("L", tuple(range(a, b)), c)
                if not c:
                    ends |= {a, b}
        if to:
            self.apply(st, lambda v: to.get(v, v), s)
        return {to.get(t, t) for t in terms if to.get(t, t)[1]}

    @staticmethod
    def uses_(st, k):
        return any(k == v or isinstance(v, tuple) and k in v for v in st.env.values())

    @staticmethod
    def joinable(s, k, terms):
        return all((k - 1 in t[1]) == (k in t[1]) for t in terms)

    def on_goto(self, eng, st):
        self.tidy(st)

    def on_return(self, eng, fn, st):
        self.tidy(st)

    def keep(self, sid):
        return isinstance(sid, tuple) and len(sid) > 1 and sid[0] in ("B", "P", "L")

    def never_null(self, sid):
        return isinstance(sid, tuple) and len(sid) > 1 and sid[0] in ("P", "T", "BUF", "DOC") or sid in self.roots

    # ------------------------------------------------------------- operations
    def load(self, eng, ins, ptr, st, ctx):
        if ptr == ("s", "CTB"):
            return ("s", "CTAB")
        if is_(ptr, "CT"):
            i = ptr[1][1]
            return ("i", ctype(i[1] & 255)) if i[0] == "i" else ("s", ("CTV", i))
        if is_(ptr, "OUT"):
            self.overrun(ins, st)
            return None
        if is_(ptr, "P") and ins.ty == "i8":
            i = ptr[1][1]
            if i == len(self.segs(st)):
                if self.nul:
                    return ("i", 0)
                self.overrun(ins, st)
                return None
            self.first(st, i)
            cs = self.chars(st, i)
            if len(cs) == 1:
                return ("i", min(cs))
            b = ("s", ("B", i))
            if b not in st.facts:
                st.facts[b] = dom_of(cs)
            return b
        return None

    def overrun(self, ins, st):
        self.bad("overrun", ins, st, "reads a byte outside of the text")

    def gep(self, eng, ins, base, idx, st):
        if base == ("s", "CTAB") and len(idx) == 1:
            return ("s", ("CT", idx[0]))
        if is_(base, "P") and len(idx) == 1 and ins.ty == "i8":
            r = self.at(st, base[1][1], idx[0])
            if r is None:
                return None
            return pos(r) if r >= 0 else ("s", ("OUT", 0))
        return None

    def arith(self, eng, ins, op, x, y, st):
        if op == "and" and y[0] == "i":
            if is_(x, "CTV"):
                cs = self.chars(st, x[1][1][1][1]) if is_(x[1][1], "B") else ALL
                vs = {ctype(c) & y[1] for c in cs}
                return ("i", vs.pop()) if len(vs) == 1 else ("s", ("CTM", x[1][1], y[1]))
            if is_(x, "CTM"):
                return ("s", ("CTM", x[1][1], x[1][2] & y[1]))
        if op in ("add", "sub") and x == ("i", 0) and y[0] == "i" and y[1] == (1 if op == "add" else -1) and \
                eng.induction(ins.fn, ins) and not eng.few_rounds(ins.fn, ins):
            return self.counter(eng, ins, st)
        if op in ("add", "sub") and x[0] == y[0] == "i" and y[1] == (-1 if op == "add" else 1) and 0 <= x[1] <= 64:
            return ("i", x[1] - 1)
        if op == "sub" and is_(x, "P") and is_(y, "P"):
            i, j = x[1][1], y[1][1]
            if i >= j:
                return self.mkL(*self.term(st, j, i))
            return None
        if op in ("add", "sub") and any(is_(v, k) for v in (x, y) for k in "L"):
            a, b = self.L(x), self.L(y)
            if a is None or b is None:
                return None
            if op == "add":
                u = self.num(st, [i for i in b[0] if i in a[0]], b[1])
                if u[0]:
                    return None
                r = sorted(set(a[0]) | set(b[0])), a[1] + u[1]
            else:
                u = self.num(st, [i for i in b[0] if i not in a[0]], b[1])
                if u[0]:
                    return None
                r = tuple(i for i in a[0] if i not in b[0]), a[1] - u[1]
            return self.mkL(*r) if abs(r[1]) <= 8 else None
        if op == "add" and is_(x, "P") and self.L(y):
            r = self.at(st, x[1][1], y)
            return pos(r) if r is not None and r >= 0 else None
        return None

    def counter(self, eng, ins, st):
        """a loop counter that runs over the text from here on is a length"""
        defs = eng.defs(ins.fn)

        def root(v):
            while v[0] == "l" and v[1] in defs and defs[v[1]].op in ("sext", "zext", "trunc"):
                v = defs[v[1]].args[0]
            return v
        at = None
        for g in ins.fn.instrs():
            if g.op == "getelementptr" and g.ty == "i8" and len(g.extra) == 1 and root(g.extra[0]) in (
                    ins.args[0], ("l", ins.res)):
                b = eng.val(st, ins.fn, g.args[0]) if g.args[0][0] != "l" or g.args[0][1] in st.env else None
                if b is not None and is_(b, "P"):
                    at = b[1][1]
        if at is None or at >= len(self.segs(st)):
            return None
        self.first(st, at)
        return self.mkL((at,), 0)

    def cmp(self, eng, ins, pred, x, y, st):
        pos_ = is_(x, "P") and is_(y, "P")
        if not pos_ and not any(is_(v, k) for v in (x, y) for k in "L"):
            if is_(x, "P") and y in (("i", 0), ("n",)):
                return ("i", int(pred == "ne"))
            return None
        if pos_:
            i, j = x[1][1], y[1][1]
            a, b = (self.term(st, j, i), ((), 0)) if i >= j else (((), 0), self.term(st, i, j))
        else:
            a, b = self.L(x), self.L(y)
            if a is None or b is None:
                return None
        pred = pred.replace("u", "s") if pred[0] == "u" else pred
        a, b = self.num(st, *a), self.num(st, *b)
        c = tuple(i for i in a[0] if i in b[0])
        a = tuple(i for i in a[0] if i not in c), a[1]
        b = tuple(i for i in b[0] if i not in c), b[1]
        if a[0] and b[0]:
            return None
        if not a[0] and not b[0]:
            d = a[1] - b[1]
            return ("i", int({"eq": d == 0, "ne": d != 0, "slt": d < 0, "sle": d <= 0, "sgt": d > 0, "sge": d >= 0}[pred]))
        if not a[0]:
            a, b = b, a
            pred = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
        ss, k = a[0], b[1] - a[1]        # sum(ss) pred k
        m = sum(self.segs(st)[i][1] != "*" for i in ss)
        r = {"eq": False if m > k else None, "ne": True if m > k else None, "slt": False if m >= k else None,
             "sle": False if m > k else None, "sgt": True if m > k else None, "sge": True if m >= k else None}[pred]
        if r is not None:
            return ("i", int(r))
        return ("c", pred, self.mkL(ss, 0), ("i", k))

    def branch(self, eng, ins, cond, taken, st, ctx):
        if cond[0] != "c":
            return
        x, y, pred = cond[2], cond[3], cond[1]
        if y[0] == "i" and is_(x, "CTM") and pred in ("eq", "ne"):
            b, m = x[1][1], x[1][2]
            if not is_(b, "B"):
                return
            want = (pred == "eq") == taken
            cs = frozenset(k for k in self.chars(st, b[1][1]) if ((ctype(k) & m) == y[1]) == want)
            st.facts = {k: v for k, v in st.facts.items() if not is_(k, "CTM")}
            if not cs:
                return False
            st.facts[b] = dom_of(cs)
            return
        if is_(x, "L") and y[0] == "i":
            st.facts.pop(x, None)
            if not taken:
                pred = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[pred]
            ss, k = self.num(st, x[1][1], x[1][2])
            k = y[1] - k
            kinds = [self.segs(st)[i][1] for i in ss]
            m = sum(z != "*" for z in kinds)
            if pred == "slt":
                pred, k = "sle", k - 1
            elif pred == "sgt":
                pred, k = "sge", k + 1
            if pred in ("eq", "sle"):
                if m > k:
                    return False
                if m == k:
                    for i in sorted(ss, reverse=True):
                        if self.segs(st)[i][1] == "*":
                            self.empty(st, i)
                        else:
                            self.single(st, i)
            elif pred in ("sge", "ne") and (pred == "ne" and k == m == 0 or pred == "sge" and m == 0 and k >= 1):
                if len(ss) == 1:
                    self.filled(st, ss[0])

    # ------------------------------------------------------------ common calls
    def call(self, eng, ins, name, args, st, ctx):
        if name == "__ctype_b_loc":
            return [dict(ret=("s", "CTB"), havoc=False)]
        if name in ("memchr", "memrchr") and is_(args[0], "P"):
            return self.find(ins, st, args[0][1][1], args[1], args[2], name == "memrchr")
        if name in ("strchr", "strrchr") and is_(args[0], "P") and self.nul and args[1][0] == "i" and args[1][1]:
            i = args[0][1][1]
            return self.find(ins, st, i, args[1], self.mkL(*self.term(st, i, len(self.segs(st)))), name == "strrchr")
        if name == "strlen" and is_(args[0], "P") and self.nul:
            return [dict(ret=self.mkL(*self.term(st, args[0][1][1], len(self.segs(st)))), havoc=False)]
        return None

    def find(self, ins, st, i, c, n, rev):
        j = self.at(st, i, n)
        if j is None or j < 0 or j < i or c[0] != "i":
            raise AnalysisError("%s: search not understood" % ins.where)
        c = c[1] & 255
        out = []
        # work on a pointer to the end of the range that moves along
        base = st.copy()
        base.env["$e"] = pos(j)
        base.env["$p"] = pos(i)

        def P(q, n):
            return q.env[n][1][1]
        todo = [base]
        # segments before (after, when searching backwards) without it
        cur = base
        while True:
            a, b = P(cur, "$p"), P(cur, "$e")
            if a == b:
                q = cur.copy()
                q.env.pop("$e")
                q.env.pop("$p")
                out.append(dict(base=q, ret=("i", 0), havoc=False))
                break
            k = b - 1 if rev else a
            cs, kd = self.chars(cur, k), self.segs(cur)[k][1]
            if c in cs:
                q = cur.copy()
                if kd == "1":
                    self.narrow(q, k, frozenset({c}))
                    at = k
                else:
                    rest = cs - {c}
                    far, near = ((rest, "*"), (cs, "*")) if not rev else ((cs, "*"), (rest, "*"))
                    self.split(q, k, far, (cs, "+"))
                    self.split(q, k + 1, (frozenset({c}), "1"), near)
                    at = k + 1
                    # order matters: look at the later one first
                    for z in (k + 2, k):
                        if not self.segs(q)[z][0]:
                            self.empty(q, z)
                            if z < at:
                                at -= 1
                q.env.pop("$e")
                q.env.pop("$p")
                out.append(dict(base=q, ret=pos(at), havoc=False))
            nxt = cur.copy()
            n0 = len(self.segs(nxt))
            if not self.narrow(nxt, k, ALL - {c}):
                break
            d = n0 - len(self.segs(nxt))
            if rev:
                nxt.env["$e"] = pos(b - 1)
            else:
                nxt.env["$p"] = pos(a + 1 - d)
            cur = nxt
        return out

    # --------------------------------------------------------------- putting out
    def bad(self, rule, ins, st, msg):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                         "%s %s" % (ins.fn.name, rule))
