"""C01-C10, C24, C25: the structure of the rendering."""
import itertools
import re
import unicodedata

from . import gen, harvest, latex, model
from .common import Violation, call
from .gen import Profile
from .prop import LEAVES, LEVELS, PARENTS, SHAPES, WIDE, Prop, atoms, attired, big, chain, check_roots, crowds, dressed, edges, expressions, filled, formulas_in_places, hollow, in_holes, kinship, liveries, notes, outfits, packed, pairs, real_pairs, real_runs, small, sandwiches, stats, strayed, towers, with_attributes, REAL, STRAY, T

DEPTH = {"quick": 4, "thorough": 6}


def dup_token(src):
    """Tokens of a tiny alphabet, so that equal neighbours are common."""
    return src.choice([["mi", {}, "x"], ["mo", {}, "+"], ["mn", {}, "1"], ["mn", {}, "0"], ["mi", {}, "α"], ["mi", {}, "y"],
                       ["mo", {}, "("], ["mo", {}, "−"], ["mtext", {}, "a"], ["mo", {}, ","], ["mn", {}, "11"]])


def text_of(n):
    return n[2] if isinstance(n[2], str) else ""


class Structural(Prop):
    """Documents rich in the focus elements must render exactly as the reference model says."""
    focus = ()          # element names
    shapes = ()         # shapes of the enumeration
    boost = {}
    drop = ()
    wide = 12
    pairs_every = 7     # slice of the pairs of atoms in the quick tier (prime to the 40 places of a pair)
    need = 2            # least number of nodes besides the focus element
    real = ()           # what is built of all pairs of real tokens
    quick = 24000
    thorough = 160000

    def enumerate(self, tier):
        f = set(self.shapes)
        for leaf in sorted(LEAVES):
            for s in self.shapes:
                yield {"roots": [["math", {}, [SHAPES[s][1](*[LEAVES[leaf](j) for j in range(SHAPES[s][0])])]]]}
        for m in small(f, 2):
            yield {"roots": [m]}
        for i, m in enumerate(small(f, 3, ("mi",))):
            if tier == "thorough" or i % 9 == 0:
                yield {"roots": [m]}
        own = [n for n in atoms().values() if n[0] in self.focus]
        for m in in_holes(own):
            yield {"roots": [m]}
        attrs = [(a, vs if tier == "thorough" else vs[:1] + vs[-1:] if len(vs) > 3 else vs) for a, vs in sorted(gen.VOCABULARY.items())]
        for m in with_attributes(own if tier == "thorough" else own[::2] if len(own) > 12 else own, attrs):
            yield {"roots": [m]}
        for m in pairs(self.focus, every=self.pairs_every if tier == "quick" else 1):
            yield {"roots": [m]}
        for m in big(self.shapes, self.focus):
            yield {"roots": [m]}
        for m in deep_and_wide(f, self.focus, tier):
            yield {"roots": [m]}
        for build in self.real:
            for m in real_pairs(build):
                yield {"roots": [m]}
        for c in self.special(tier):
            yield c

    def special(self, tier):
        return ()

    def accepts(self, m):
        return True

    def harvested(self, tier):
        for m in harvest.trees(None if self.focus == ("mrow",) else self.focus, self.shapes, tier):
            if self.accepts(m):
                yield {"roots": [m]}

    def profile(self, src, tier):
        kind = src.weighted([(60, "mixed"), (15, "dup"), (25, "plain")])
        return Profile(boost=dict({k: 25 for k in self.focus if k in gen.CONTAINERS}, **self.boost), drop=self.drop,
                       depth=src.between(1, DEPTH[tier]), token=dup_token if kind == "dup" else None,
                       plain_tokens=kind == "plain", wide=self.wide)

    def root(self, src, p):
        return gen.build(src, p, src.choice(self.focus), p.depth)

    def gen(self, src, tier):
        p = self.profile(src, tier)
        n = self.root(src, p)
        ks = [n]
        if src.chance(40):
            ks.insert(src.below(2), gen.tree(src, p, 1))
        for _ in range(src.weighted([(70, 0), (20, 1), (10, 2)])):
            k = src.choice(sorted(SHAPES))
            h = src.below(SHAPES[k][0])
            ks = [filled(k, h, ks[0] if len(ks) == 1 else ["mrow", {}, ks], src.choice(sorted(LEAVES)))]
        return {"roots": [["math", {}, ks]]}

    def check(self, case):
        check_roots(case)
        ns, tags = stats(case["roots"])
        labels = ["nodes<=%d" % next(b for b in (5, 15, 50, 150, 10 ** 9) if len(ns) <= b)]
        labels += ["has " + t for t in self.focus if t in tags]
        return bool(tags & set(self.focus)) and len(ns) > self.need, labels


def deep_and_wide(shapes, tags, tier, scale=1.0):
    """All three nested shapes, many of four and six, and rows of many different elements; many to a document."""
    k = scale * (1 if tier == "quick" else 12)
    yield from packed(towers(shapes, 3, None if scale >= 1 or tier != "quick" else int(170000 * scale)))
    yield from packed(towers(shapes, 4, int(24000 * k)))
    yield from packed(towers(shapes, 6, int(6000 * k)))
    yield from crowds(int(150 * k), tags)
    yield from more(shapes, tags, tier, scale)


def more(shapes, tags, tier, scale=1.0):
    """Attributes on shapes, on what they contain and on all real tokens in their places; text between elements; rows of three."""
    names = sorted(shapes or SHAPES)
    draws = (4 if shapes else 1) if tier == "quick" else 12
    two = list(towers(shapes, 2, None if shapes or tier != "quick" else 1500))
    yield from packed(dressed(two, draws), 12)
    tokens = [filled(s, k, t) for s in names for k in range(SHAPES[s][0]) for t in REAL]
    if tier == "quick":
        most = int(8000 * scale)
        tokens = tokens[:: max(1, len(tokens) // most)] if len(tokens) > most else tokens * max(1, min(4, most // len(tokens)))
    yield from packed(dressed(tokens, 1 if tier == "quick" else 6), 12)
    count = int(12000 * (1 if tier == "quick" else 12) * scale) // len(names)
    yield from packed(attired(shapes, count), 20)
    at = [n for n in atoms().values() if n[0] != "mprescripts" and (tags is None or any(k[0] in tags for k in gen.walk(n)))]
    yield from packed(strayed(at + [SHAPES[s][1](*[LEAVES["mi"](j) for j in range(SHAPES[s][0])]) for s in names]))
    yield from packed(strayed(two[::7 if shapes else 3], STRAY[::3]))
    for n in hollow():
        if model.faults(n):
            continue
        yield ["math", {}, [n, T("mi", "x")]]
        yield ["math", {}, [T("mi", "x"), ["mrow", {}, [n, T("mi", "y")]]]]
        yield ["math", {}, [["msup", {}, [n, T("mi", "y")]]]]
    yield from packed(n for n in kinship(tags) if not model.faults(n))
    yield from packed(formulas_in_places(shapes))
    rows = list(sandwiches())
    yield from packed(rows)
    for s in names[:: max(1, len(names) // 4)]:
        for k in range(SHAPES[s][0]):
            yield from packed(filled(s, k, r) for r in (rows[::23] if tier == "quick" else rows))


def whole_rows(tier, every=1):
    """Rows as formulas of their own, many formulas to a document."""
    rows = [["math", {}, ks] for ks in edges(every if tier == "quick" else 1)] + [["math", {}, n[2]] for n in list(sandwiches())[:: every if tier == "quick" else 1]]
    rows += [["math", {}, n[2]] for n in expressions()] + [["math", {}, [n]] for n in notes()]
    for i in range(0, len(rows), 40):
        yield {"roots": rows[i:i + 40]}
    for m in packed(liveries(), 20):
        yield {"roots": [m]}


# ------------------------------------------------------------------ C01

def markers(node, out, idx=None):
    """The visible tokens below `node` in the order in which they must come out."""
    tag, ks = node[0], model.kids(node)
    if tag in model.TOKENS:
        out.append(node)
        return
    if tag == "mphantom":
        return
    if tag == "mroot":
        ks = [ks[1], ks[0]]
    elif tag in ("mover", "munder"):
        ks = [ks[1], ks[0]]
    elif tag == "maction" and model.attr(node, "actiontype") not in ("", "toggle"):
        ks = ks[:1]
    elif tag == "mmultiscripts":
        cut = [i for i, k in enumerate(ks) if k[0] == "mprescripts"]
        if cut:
            ks = ks[cut[0] + 1:] + ks[:cut[0]]
    for k in ks:
        markers(k, out)


class C01(Structural):
    id = "C01"
    rule = """Random trees over all supported elements (depth to 4, thorough 6; up to 40 siblings); half of them carry a
    unique marker in every token, whose sequence in the output is compared with the reading order computed from the tree,
    the others use real or deliberately repeated tokens and are compared with the reference rendering; plus all documents
    of two nested element shapes and a slice (thorough: all) of those of three.
    Non-trivial: at least 3 visible tokens under at least 2 levels of elements."""
    focus = ("mrow",)
    shapes = ()
    quick = 28000

    def enumerate(self, tier):
        for m in small(None, 2, ("mi", "empty")):
            yield {"roots": [m]}
            yield {"roots": [mark(m)], "marked": True}
        for i, m in enumerate(small(None, 3, ("mi",))):
            if tier == "thorough" or i % 14 == 0:
                yield {"roots": [mark(m)], "marked": True}
        for i, m in enumerate(deep_and_wide(None, None, tier, 0.5)):
            yield {"roots": [mark(m)], "marked": True} if i % 2 else {"roots": [m]}
        yield from whole_rows(tier, 3)
        for t in ("mi", "mn", "mo", "mtext"):
            for s in sorted(SHAPES):
                for text in ("x", "0", "+", "α", "a b", "1", "(", ","):
                    yield {"roots": [["math", {}, [SHAPES[s][1](*[[t, {}, text] for _ in range(SHAPES[s][0])])]]]}
        for m in pairs(None, every=23 if tier == "quick" else 1):
            yield {"roots": [m]}
            yield {"roots": [mark(m)], "marked": True}
        for m in real_runs():
            yield {"roots": [m]}
        for w in sorted(WIDE):
            for m in real_pairs(lambda a, b: WIDE[w]([a, b]), 1 if w == "mrow" else 13, tier):
                yield {"roots": [m]}
            for m in real_pairs(lambda a, b: WIDE[w]([a, b, a, a, b]), 1 if w == "mrow" else 11, tier):
                yield {"roots": [m]}
        for m in big():
            yield {"roots": [m]}
            yield {"roots": [mark(m)], "marked": True}
        for n in (10, 50, 150, 400, *gen.MORE_SIZES):
            yield {"roots": [mark(["math", {}, [T("mi", "x") for _ in range(n)]])], "marked": True}
            for s in ("mrow", "msqrt", "mfenced", "merror", "menclose", "custom", "maction"):
                yield {"roots": [mark(["math", {}, [[s, {}, [T("mi", "x") for _ in range(n)]]]])], "marked": True}

    def profile(self, src, tier):
        kind = src.weighted([(50, "mixed"), (30, "dup"), (20, "plain")])
        return Profile(depth=src.between(2, DEPTH[tier]), token=dup_token if kind == "dup" else None,
                       plain_tokens=kind == "plain", wide=40, presentation=3)

    def gen(self, src, tier):
        p = self.profile(src, tier)
        m = gen.math(src, p, 1, 4)
        if src.chance(50):
            return {"roots": [mark(m)], "marked": True}
        return {"roots": [m]}

    def check(self, case):
        m = case["roots"][0]
        out = check_roots_soft(case) if case.get("marked") else check_roots(case)
        vis = []
        markers(m, vis)
        if case.get("marked"):
            want = re.findall(r"K\d+K", " ".join(n[2] for n in vis))
            got = re.findall(r"K\d+K", out.value)
            if want != got:
                raise Violation("tokens lost, duplicated or moved\n  input:    %s\n  expected: %s\n  got:      %s\n  output:   %r" % (
                    gen.xml(m), want, got, out.value))
        deep = gen.depth(m) > 3
        return len(vis) >= 3 and deep, ["marked" if case.get("marked") else "model",
                                        "visible<=%d" % next(b for b in (2, 5, 15, 50, 10 ** 9) if len(vis) <= b)]


def mark(m):
    """Gives every token of the tree its own marker."""
    n = 0
    m = copy(m)
    for k in gen.walk(m):
        if k[0] in model.TOKENS:
            k[2] = "K%dK" % n
            n += 1
    return m


def copy(n):
    return [n[0], dict(n[1]), n[2] if isinstance(n[2], str) else [copy(k) for k in n[2]]]


def check_roots_soft(case):
    """Converts; any exception on a document of right child counts is a loss of everything."""
    xml = gen.xml(case["roots"][0])
    out = call(xml)
    if not out.ok or not isinstance(out.value, str):
        raise Violation("a well-formed document is not converted: %r\n  input: %s" % (out, xml))
    return out


# ------------------------------------------------------------------ C02

STRUCTURE_WORDS = {"\\left", "\\right", "\\frac", "\\sqrt", "\\overset", "\\underset", "\\begin", "\\end", "\\text", "\\textbf",
                   "\\textit", "\\mathbb", "\\mathtt", "\\mathfrak", "\\mathbf", "\\mathit", "\\mathcal", "\\mathsf", "\\color",
                   "\\Longrightarrow", "\\overline", "\\underline", "\\boxed", "\\cancel", "\\bcancel", "\\cancelto", "\\hcancel",
                   "\\angle", "\\backslash"}
VOCABULARY = STRUCTURE_WORDS | {w for t in (model.MI, model.MO, model.MN, model.FALLBACK) for v in t.values()
                                for w in latex.words(v)}
COMMANDS_MI = [k for k in gen.MI_SYMBOLS + gen.FALLBACK_SYMBOLS if re.search(r"\\[a-zA-Z]+$", model.mi(k))]
COMMANDS_MO = [k for k in gen.MO_SYMBOLS if re.search(r"\\[a-zA-Z]+$", model.mo(k))]
FOLLOW = [["mi", {}, "x"], ["mi", {}, "sin"], ["mn", {}, "2"], ["mtext", {}, "if"], ["mo", {}, "d"], ["mi", {}, "é"],
          ["mo", {}, "lim"], ["mi", {"mathvariant": "bold"}, "v"], ["mi", {}, "ж"], ["mn", {}, "e5"]]


class C02(Structural):
    id = "C02"
    rule = """Sequences of tokens, most of them symbols whose rendering ends in a control word followed by letters, in every
    container and argument position and inside text tokens; every control word of the output must belong to the converter's
    own vocabulary (symbols, fonts, structure) or be one the reference rendering has at that place, and the output must equal
    the reference rendering.  All command/follower pairs in a row are enumerated.
    Non-trivial: a control word is directly followed by a token that starts with a letter."""
    focus = ("mrow",)
    quick = 28000

    def enumerate(self, tier):
        for tag, pool in (("mi", COMMANDS_MI), ("mo", COMMANDS_MO)):
            for i, c in enumerate(pool):
                fs = FOLLOW if tier == "thorough" else [FOLLOW[0], FOLLOW[i % len(FOLLOW)]]
                for f in fs:
                    yield {"roots": [["math", {}, [[tag, {}, c], f]]]}
        for c in COMMANDS_MI:
            for f in ("a", "Z", "1", " b", "é", "\u00a0q"):
                yield {"roots": [["math", {}, [["mtext", {}, "x" + c + f]]]]}
        for m in pairs(None, every=31 if tier == "quick" else 1):
            yield {"roots": [m]}
        for n in (9, 33, 129, 513, 2049, *gen.MORE_SIZES):
            for c, f in ((["mi", {}, "α"], T("mi", "x")), (["mo", {}, "∈"], T("mn", "2")), (["mo", {}, "¯"], T("mtext", "if")), (["mi", {}, "∞"], T("mo", "lim"))):
                yield {"roots": [["math", {}, [c, f] * n]]}
                yield {"roots": [["math", {}, [["mfenced", {}, [c, f] * n], ["mrow", {}, [f, c] * n]]]]}
            for t in ("xαy", "α ", "αβ", "αé", "α1", "→a", "α\u00a0b", "中αa"):
                yield {"roots": [["math", {}, [T("mtext", t * n), T("mi", "x")]]]}
                yield {"roots": [["math", {}, [["mtext", {"mathvariant": "bold"}, t * n], T("mi", "x")]]]}
        for m in more(None, None, tier, 2):
            yield {"roots": [m]}
        for s in sorted(SHAPES):
            for f in FOLLOW:
                for c in (["mi", {}, "α"], ["mo", {}, "∈"], ["mo", {}, "¯"], ["mtext", {}, "→"]):
                    n, b = SHAPES[s]
                    yield {"roots": [["math", {}, [b(*[[c, f][j % 2] for j in range(n)])]]]}
                    yield {"roots": [["math", {}, [c, b(*[[f, c][j % 2] for j in range(n)]), f]]]}

    def gen(self, src, tier):
        def token(s):
            k = s.weighted([(30, "mi"), (30, "mo"), (30, "f"), (10, "t")])
            if k == "mi":
                return ["mi", {}, s.choice(COMMANDS_MI)]
            if k == "mo":
                return ["mo", {}, s.choice(COMMANDS_MO)]
            if k == "f":
                return list(s.choice(FOLLOW))
            return ["mtext", {}, "".join(s.choice([s.choice(COMMANDS_MI), "a", "Q", "é", "7", " ", "中"]) for _ in range(s.between(1, 5)))]

        p = Profile(depth=src.between(1, 3), token=token, wide=10, presentation=2)
        m = gen.math(src, p, 1, 6)
        for n in gen.walk(m):
            if n[0] == "mfenced":  # letters as fences or separators are the author's own LaTeX
                for k in ("open", "close", "separators"):
                    if any(c.isalpha() for c in n[1].get(k, "")):
                        del n[1][k]
        return {"roots": [m]}

    def check(self, case):
        m = case["roots"][0]
        out = check_roots_soft(case)
        exp = model.expected([m])
        allowed = VOCABULARY | set(latex.words(exp))
        for w in latex.words(out.value):
            if w not in allowed:
                raise Violation("a command fused with what follows: %s\n  input:  %s\n  output: %r" % (w, gen.xml(m), out.value))
        check_roots(case)
        toks = [n for n in gen.walk(m) if n[0] in model.TOKENS]
        hit = False
        for a, b in zip(toks, toks[1:]):
            if re.search(r"\\[a-zA-Z]+$", model.render(a)) and model.render(b)[:1].isalpha():
                hit = True
        if any(n[0] == "mtext" and re.search(r"\\[a-zA-Z]+ ?\w", model.render(n)) for n in toks):
            hit = True
        return hit, ["tokens<=%d" % next(b for b in (2, 5, 15, 10 ** 9) if len(toks) <= b)]


# ------------------------------------------------------------------ C03

class C03(Structural):
    id = "C03"
    rule = """Random trees (depth to 4, thorough 6) over all elements in the forms whose output is not a listed finding (no
    brace fences, no one-sided matrix fences, no left/right/madruwb notations, tables only directly inside fences), with
    LaTeX-special characters in number, identifier and text tokens; the output is tokenised as LaTeX and must balance, and
    must equal the reference rendering.  Non-trivial: at least two kinds of paired constructs or a special character."""
    focus = ("mrow",)
    quick = 28000

    def enumerate(self, tier):
        for m in small(None, 2, ("mi", "empty")):
            if sound(m):
                yield {"roots": [m]}
        for i, m in enumerate(small(None, 3, ("mi",))):
            if (tier == "thorough" or i % 14 == 0) and sound(m):
                yield {"roots": [m]}
        for m in pairs(None, every=29 if tier == "quick" else 1):
            if sound(m) and clean(m):
                yield {"roots": [m]}
        for m in deep_and_wide(None, None, tier, 0.4):
            m[2] = [n for n in m[2] if sound(["math", {}, [n]]) and clean(["math", {}, [n]])]
            if m[2]:
                yield {"roots": [m]}
        for m in big():
            if sound(m) and clean(m):
                yield {"roots": [m]}
        for x in ("%", "a%", "#1", "$", "&", "_", "{", "}", "a_b ", "{}", "a}b{c", "%#$&_{}", "x&y%z"):
            for n in (3, 5, 9, 17, 33, 65, 257, 1025, 5000, *gen.MORE_SIZES):
                for t in ("mi", "mn", "mtext", "mo"):
                    if t != "mo" or x.strip() != "_":
                        yield {"roots": [["math", {}, [T(t, (x * n).strip()), T("mi", "z")]]]}
                        yield {"roots": [["math", {}, [T(t, "a" * n + x), T("mi", "z"), T(t, x + "a" * n)]]]}
        texts = ["%", "#", "$", "&", "_", "{", "}", "a%b", "50%", "x_1", "{a", "a}", "a&b", "&&", "$x$", "C#", "{}", "}{", "a}b{c",
                 "%%", "_a_", "#1", "100 %", "{{", "}}"]
        for x in texts:
            for t in ("mi", "mn", "mtext", "mo"):
                if t == "mo" and x == "_":
                    continue
                for s in ("mrow2", "mfrac", "msup", "mroot", "pmatrix", "mfenced3", "munderover"):
                    n, b = SHAPES[s]
                    yield {"roots": [["math", {}, [b(*[[t, {}, x] for _ in range(n)])]]]}

    def accepts(self, m):
        for n in gen.walk(m):
            if n[0] in model.TOKENS and ("\\" in n[2] or n[0] == "mo" and "_" in n[2]):
                return False
            if n[0] == "mfenced" and not all(set(v) <= set("()[]|<>.,;:/") for k, v in n[1].items() if k in ("open", "close", "separators")):
                return False
        return sound(m) and clean(m)

    def gen(self, src, tier):
        def token(s):
            if s.chance(30):
                t = s.choice(["mi", "mn", "mtext"])
                return [t, {}, "".join(s.choice(["%", "#", "$", "&", "_", "{", "}", "a", "1", " ", "B", "."]) for _ in range(s.between(1, 6))).strip()]
            n = gen.token(s, plain)
            if n[0] in ("mn", "mi", "mo") and len(n[2]) > 1 or n[2] in gen.EXTRA:
                n[2] = n[2].replace("\\", "")
            return n

        plain = Profile()
        p = Profile(depth=src.between(1, DEPTH[tier]), valid=True, token=token, wide=10)
        m = gen.math(src, p, 1, 3)
        return {"roots": [m]}

    def check(self, case):
        m = case["roots"][0]
        out = check_roots_soft(case)
        bad = latex.problems(out.value)
        if bad:
            raise Violation("the output is not sound LaTeX: %s\n  input:  %s\n  output: %r" % ("; ".join(bad), gen.xml(m), out.value))
        check_roots(case)
        ns, tags = stats([m])
        kinds = len(tags & {"mfrac", "msup", "msub", "msubsup", "msqrt", "mroot", "mfenced", "mtable", "menclose", "merror", "mover",
                            "munder", "munderover", "mmultiscripts"})
        special = any(isinstance(n[2], str) and set(n[2]) & set("%#$&_{}") for n in ns)
        labels = ["kinds %d" % min(kinds, 6)] + (["special"] if special else []) + (["environment"] if "\\begin" in out.value else [])
        return kinds >= 2 or special, labels


def clean(m):
    """Whether the document has none of the constructs whose output is a listed finding or the author's own LaTeX."""
    for n in gen.walk(m):
        if n[0] == "menclose" and n[1].get("notation") in ("left", "right", "madruwb"):
            return False
        if n[0] == "mtr" and not any(k is n for t in gen.walk(m) if t[0] == "mtable" for k in model.kids(t)):
            return False
        if n[0] == "mfenced":
            o, c = n[1].get("open", ""), n[1].get("close", "")
            if "{" in o + c or "}" in o + c or o.isalpha() or c.isalpha():
                return False
            if "||" in (o, c) and not model.has_table(model.kids(n)):
                return False
            if model.has_table(model.kids(n)) and (not o) != (not c):
                return False
    return True


def sound(m, fenced=False):
    """Whether a shape document is outside of the listed findings (every table directly inside a fence)."""
    for k in model.kids(m):
        if k[0] == "mtable" and m[0] != "mfenced":
            return False
        if not sound(k):
            return False
    # a fence that only has a table deeper down puts & into an environment of another level: a listed finding
    if m[0] == "mfenced" and model.has_table(model.kids(m)) and not any(k[0] == "mtable" for k in model.kids(m)):
        return "open" in m[1] and "close" in m[1]
    return True


# ------------------------------------------------------------------ C04 .. C10

def hidden():
    """What a script must group or leave as it is, below 3 to 60 rows of one kind or of mixed kinds."""
    two = [T("mi", "a"), T("mi", "b")]
    for core in (T("mi", "x"), ["mrow", {}, two], ["mstyle", {}, two], ["mpadded", {}, two], ["msub", {}, two], ["msup", {}, two], ["msubsup", {}, two + [T("mi", "c")]], ["munderover", {}, two + [T("mi", "c")]],
                 ["mmultiscripts", {}, two + [T("mi", "c")]], ["mover", {}, two], ["munder", {}, two], ["mfrac", {}, two], ["mtd", {}, two], ["semantics", {}, two], ["mfenced", {}, two], ["mrow", {}, []]):
        for d in (3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 21, 33, 60):
            for rows in (("mrow",), ("mstyle",), ("mpadded",), ("mrow", "mstyle", "mpadded"), ("mstyle", "mrow"), ("mrow", "semantics")):
                x = copy(core)
                for i in range(d):
                    x = [rows[i % len(rows)], {}, [x]]
                yield x


def every_character(tier):
    """The characters an attribute can hold: all of ASCII, of the dictionaries and of the symbol blocks, combining ones, other scripts."""
    cs = [chr(i) for i in range(0x20, 0x7f)] + [chr(i) for i in list(range(0xa0, 0x250)) + list(range(0x2b0, 0x400)) + list(range(0x2000, 0x2c00)) + list(range(0x3000, 0x3040))
                                                 + list(range(0xfe00, 0xfe70)) + list(range(0xff00, 0xff70)) + list(range(0x1d400, 0x1d440)) + list(range(0x400, 0xd800, 1 if tier == "thorough" else 61))
                                                 if unicodedata.category(chr(i)) != "Cn"]
    return cs


class C04(Structural):
    id = "C04"
    focus = ("msub", "msup", "msubsup")
    shapes = ("msub", "msup", "msubsup")
    real = (lambda a, b: ["msup", {}, [a, b]], lambda a, b: ["msub", {}, [a, b]], lambda a, b: ["msubsup", {}, [a, b, a]], lambda a, b: ["msubsup", {}, [a, b, b]],
            lambda a, b: ["msup", {}, [["mrow", {}, [a, b]], T("mn", "2")]], lambda a, b: ["msub", {}, [T("mi", "x"), ["mrow", {}, [a, b]]]],
            lambda a, b: ["msup", {}, [["msub", {}, [a, b]], a]], lambda a, b: ["mrow", {}, [a, ["msup", {}, [b, T("mn", "2")]]]],
            lambda a, b: ["mrow", {}, [["msubsup", {}, [a, T("mn", "0"), T("mn", "1")]], b]])
    rule = """Sub- and superscripts with bases and scripts that are random trees (depth to 4, thorough 6), a third of the bases
    compound and hidden in single-child rows, wrapped in up to two random contexts; output compared with the reference
    rendering; plus all documents of two nested shapes with one of these elements, and a slice (thorough: all) of three.
    Non-trivial: the document has a script element and at least 4 nodes."""

    def special(self, tier):
        bases = [T("mi", "x"), T("mi", "xy"), T("mi", "α"), T("mn", "12"), T("mo", "∑"), T("mtext", "a b"), T("mi", "")]
        rows = ["mrow", "mstyle", "mpadded", "semantics", "mtd", "custom", "msqrt", "merror", "menclose", "mphantom", "mfenced", "math"]
        for tag in self.focus:
            n = model.ARITY[tag] - 1
            scripts = [T("mn", "2"), T("mi", "i")][:n]
            for b in bases:
                yield {"roots": [["math", {}, [[tag, {}, [b] + scripts]]]]}
                for r in rows:
                    for body in ([b], [b, T("mo", "+")], [b, T("mi", "")], [T("mi", ""), T("mi", "")], []):
                        x = [r, {}, body]
                        yield {"roots": [["math", {}, [[tag, {}, [x] + scripts]]]]}
                        for r2 in rows[:6]:
                            yield {"roots": [["math", {}, [[tag, {}, [[r2, {}, [x]]] + scripts]]]]}
                            if tag == "msup":
                                yield {"roots": [["math", {}, [[tag, {}, [["mrow", {}, [[r2, {}, [x]]]]] + scripts]]]]}
            for x in hidden():
                yield {"roots": [["math", {}, [[tag, {}, [x] + scripts]]]]}
            for d in range(1, 9):
                x = T("mi", "x")
                for i in range(d):
                    x = [tag, {}, [x] + [T("mi", "abcdefghi"[i])] * n]
                yield {"roots": [["math", {}, [x]]]}
                x = T("mi", "x")
                for i in range(d):
                    x = [tag, {}, [T("mi", "abcdefghi"[i])] + [x] * n]
                if d < 6:
                    yield {"roots": [["math", {}, [x]]]}


class C05(Structural):
    id = "C05"
    focus = ("mfrac", "mroot", "msqrt")
    shapes = ("mfrac", "bevelled", "msqrt1", "msqrt2", "mroot")
    real = (lambda a, b: ["mfrac", {}, [a, b]], lambda a, b: ["mfrac", {"bevelled": "true"}, [a, b]], lambda a, b: ["mroot", {}, [a, b]], lambda a, b: ["msqrt", {}, [a, b]],
            lambda a, b: ["mfrac", {"bevelled": "true"}, [["mrow", {}, [a, b]], ["mrow", {}, [b]]]], lambda a, b: ["mroot", {}, [["mrow", {}, [b, a]], ["mrow", {}, [a, b]]]],
            lambda a, b: ["mrow", {}, [a, ["mfrac", {}, [T("mn", "1"), ["mrow", {}, [a, b]]]], b]])
    rule = """Fractions (plain and bevelled with every kind of attribute value) and roots with random trees (depth to 4, thorough
    6) as arguments, indices containing brackets and roots included, wrapped in up to two random contexts; output compared
    with the reference rendering; plus all documents of two nested shapes with one of these elements, and a slice of three.
    Non-trivial: the document has a fraction or root and at least 4 nodes."""

    def special(self, tier):
        args = [T("mi", "x"), T("mi", ""), T("mi", "ab"), T("mn", "1"), T("mn", "10"), T("mo", "]"), T("mo", "["), T("mi", "α"),
                ["mfenced", {"open": "[", "close": "]"}, [T("mi", "n")]], ["mroot", {}, [T("mi", "a"), T("mn", "3")]],
                ["mrow", {}, [T("mi", "x"), T("mo", "+"), T("mn", "1")]], ["mrow", {}, []], ["mfrac", {}, [T("mn", "1"), T("mn", "2")]],
                ["mtext", {}, "a]b"], ["mphantom", {}, [T("mi", "p")]], ["msqrt", {}, [T("mi", "q")]], T("mo", "/"), T("mo", "\u2062"),
                ["mfrac", {"bevelled": "true"}, [T("mi", "p"), T("mi", "q")]], ["msup", {}, [T("mi", "x"), T("mn", "2")]]]
        for a in args:
            for b in args:
                for v in (None, "true", "false", "", "bevelled", "1"):
                    yield {"roots": [["math", {}, [["mfrac", {} if v is None else {"bevelled": v}, [a, b]]]]]}
                yield {"roots": [["math", {}, [["mroot", {}, [a, b]]]]]}
                yield {"roots": [["math", {}, [["msqrt", {}, [a, b]]]]]}
        for v in ("True", "TRUE", "False", "no", "0", " ", "false ", " true", "yes", "none", "bevel"):
            yield {"roots": [["math", {}, [["mfrac", {"bevelled": v}, [T("mi", "x"), T("mi", "yz")]]]]]}
        for v in gen.NEAR_VALUES["bevelled"]:
            for a in args[:8]:
                yield {"roots": [["math", {}, [["mfrac", {"bevelled": v}, [a, T("mi", "yz")]], ["mfrac", {}, [a, a]]]]]}
        for n in range(0, 8):
            yield {"roots": [["math", {}, [["msqrt", {}, [T("mi", "abcdefgh"[i]) for i in range(n)]]]]]}


class C06(Structural):
    id = "C06"
    focus = ("mfenced",)
    shapes = ("mfenced1", "mfenced3")
    real = (lambda a, b: ["mfenced", {}, [a, b]], lambda a, b: ["mfenced", {"open": "|", "close": "|"}, [a, b]], lambda a, b: ["mfenced", {"open": "[", "close": "[", "separators": ";"}, [b, a, b]],
            lambda a, b: ["mfenced", {"separators": ""}, [["mrow", {}, [a, b]]]], lambda a, b: ["mrow", {}, [a, ["mfenced", {}, [b]], a]],
            lambda a, b: ["mfenced", {"open": text_of(a), "close": text_of(b)}, [T("mi", "x"), T("mi", "y")]],
            lambda a, b: ["mfenced", {"open": text_of(a), "separators": text_of(b)}, [T("mi", "x"), T("mi", "y"), T("mi", "z")]],
            lambda a, b: ["mfenced", {"close": text_of(a), "separators": text_of(b) + text_of(a)}, [T("mi", "x"), T("mi", "y"), T("mi", "z"), T("mi", "w")]])
    drop = ("mtable",)
    wide = 30
    rule = """Fenced lists with 0 to 30 random children (depth to 4), all fences of a pool of 18 and arbitrary strings, separator
    strings of 0 to 40 characters with white space; output compared with the reference rendering; all combinations of 7 fence
    pairs, 12 separator strings and 0 to 6 children are enumerated.
    Non-trivial: a fence with at least two children, or a non-default fence or separators."""

    def special(self, tier):
        opens = [None, "", "(", "[", "|", "{", "⟨", "<", "open", "((", "]", " "]
        closes = [None, "", ")", "]", "|", "}", "⟩", ">", "close", "))", "[", " "]
        seps = [None, "", ",", ";", ";,", ";,.", "  ;  , ", " ", "|||", "ab", "separators", ";;;;;;;;", "→", ",\t;"]
        for o, c in list(zip(opens, closes)) + [(None, "]"), ("[", None), ("", "]"), ("[", "")]:
            for s in seps:
                for n in range(0, 7):
                    a = {k: v for k, v in (("open", o), ("close", c), ("separators", s)) if v is not None}
                    yield {"roots": [["math", {}, [["mfenced", a, [T("mi", "abcdefg"[i]) for i in range(n)]]]]]}
        # every short string of two separators and white space, and of fence characters
        for n in range(1, 8 if tier == "quick" else 10):
            for j, cs in enumerate(itertools.product("; ,", repeat=n)):
                if n == 7 and tier == "quick" and j % 3:
                    continue
                s = "".join(cs)
                for a in ({}, {"open": "[", "close": "]"}):
                    yield {"roots": [["math", {}, [["mfenced", dict(a, separators=s), [T("mi", "abcdefghij"[i]) for i in range(m)]] for m in (2, 3, 4, n, n + 1, n + 2) if m < 11]]]}
        for n in range(1, 5):
            for cs in itertools.product("([|) ", repeat=n):
                s = "".join(cs)
                yield {"roots": [["math", {}, [["mfenced", a, [T("mi", "a"), T("mi", "b"), T("mi", "c")]] for a in ({"open": s}, {"close": s}, {"separators": s}, {"open": s, "close": s}, {"open": s, "close": s[::-1], "separators": s})]]]}
        for k in ("open", "close", "separators"):
            for v in gen.NEAR_VALUES[k]:
                for a in ({}, {"open": "[", "close": "]", "separators": ";,"}, {"open": "", "close": ""}):
                    for n in (0, 1, 4):
                        yield {"roots": [["math", {}, [["mfenced", dict(a, **{k: v}), [T("mi", "abcdefg"[i]) for i in range(n)]], ["mfenced", {}, [T("mi", "x"), T("mi", "y")]]]]]}
        cs = every_character(tier)
        letters = "abcdefghijklmnopqrstuvwxyz"
        for i in range(0, len(cs), 25):
            # one after the other between the items, and each as a fence
            part = cs[i:i + 25]
            yield {"roots": [["math", {}, [["mfenced", {"separators": "".join(part)}, [T("mi", c) for c in letters]], ["mfenced", {"separators": "".join(part[::-1])}, [T("mi", c) for c in letters]]]]]}
            for a in (lambda c: {"open": c, "close": c}, lambda c: {"open": c}, lambda c: {"close": c}, lambda c: {"separators": c}, lambda c: {"open": c + c, "close": "x" + c, "separators": "," + c}):
                yield {"roots": [["math", {}, [["mfenced", a(c), [T("mi", "x"), T("mi", "y"), T("mi", "z")]] for c in part]]]}
        for n in (8, 9, 10, 11, 15, 16, 17, 31, 33, 64, 100, 130, 257, *[n for n in gen.MORE_SIZES if n < 1500]):
            for s in (";", ";,", ";,.|:/", "".join(chr(0x2190 + i) for i in range(n - 1)), "".join(chr(0x2190 + i % 60) for i in range(n + 5))):
                yield {"roots": [["math", {}, [["mfenced", {"separators": s}, [T("mn", str(i)) for i in range(n)]]]]]}

    def root(self, src, p):
        n = gen.build(src, p, "mfenced", p.depth)
        if src.chance(30):
            n[2] = [gen.tree(src, p, 1) for _ in range(src.between(2, 30))]
        if src.chance(25):
            n[1]["separators"] = "".join(src.choice(",;:|/.+- \t·→abc01") for _ in range(src.between(0, 40)))
        for k in ("open", "close"):
            if src.chance(8):
                n[1][k] = "".join(src.choice("([{|<⟨>)]}.,a \\") for _ in range(src.between(1, 4)))
        return n

    def check(self, case):
        Structural.check(self, case)
        fs = [n for n in gen.walk(case["roots"][0]) if n[0] == "mfenced"]
        return any(len(n[2]) > 1 or n[1] for n in fs), ["children<=%d" % next(b for b in (0, 1, 3, 8, 10 ** 9) if len(n[2]) <= b) for n in fs[:1]]


class C07(Structural):
    id = "C07"
    focus = ("mtable", "mfenced")
    shapes = ("table", "pmatrix", "matrix")
    real = (lambda a, b: ["mfenced", {"open": "(", "close": ")"}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [a]], ["mtd", {}, [b]]]], ["mtr", {}, [["mtd", {}, [b, a]]]]]]]],
            lambda a, b: ["mtable", {}, [["mtr", {}, [["mtd", {}, [a]]]], ["mtr", {}, [["mtd", {}, [b]]]], ["mtr", {}, [a, b]]]],
            lambda a, b: ["mfenced", {"open": text_of(a), "close": text_of(b)}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [T("mi", "x")]], ["mtd", {}, [T("mi", "y")]]]]]]]])
    boost = {"mtable": 25, "mfenced": 15}
    rule = """Tables of 0 to 12 rows and cells (ragged, empty and multi-part cells), with any fence pair, nested in each other and in
    other elements to depth 4 (thorough 6); output compared with the reference rendering, and for regular matrices the
    environments are parsed back and their names, row and cell counts and contents compared with the tree; all fence pairs of
    an 11 by 11 pool and all shapes up to 4 by 4 are enumerated.  Non-trivial: a table with at least two cells."""

    def special(self, tier):
        for m in packed(liveries(("mtr", "mtable")), 10):
            yield {"roots": [m]}
        pool = [None, "", "(", ")", "[", "]", "{", "}", "|", "||", "<"]
        for o in pool:
            for c in pool:
                a = {k: v for k, v in (("open", o), ("close", c)) if v is not None}
                yield {"roots": [["math", {}, [["mfenced", a, [grid(2, 2)]]]]]}
                yield {"roots": [["math", {}, [["mfenced", a, [["mrow", {}, [grid(1, 2)]]]]]]]}
        for o in gen.NEAR_VALUES["open"]:
            for a in ({"open": o}, {"open": o, "close": ")"}, {"open": o, "close": "]"}, {"open": o, "close": "|", "separators": ";"}):
                yield {"roots": [["math", {}, [["mfenced", a, [grid(2, 2)]]]]]}
        for c in gen.NEAR_VALUES["close"]:
            for a in ({"close": c}, {"open": "(", "close": c}, {"open": "[", "close": c}, {"open": "|", "close": c, "separators": ";"}):
                yield {"roots": [["math", {}, [["mfenced", a, [grid(2, 2)]]]]]}
        for r in range(5):
            for c in range(5):
                for a in ({"open": "[", "close": "]"}, {}, {"open": "⟨", "close": "⟩"}):
                    yield {"roots": [["math", {}, [["mfenced", a, [grid(r, c)]]]]]}
                    yield {"roots": [["math", {}, [["mfenced", a, [["mtable", {}, [["mtr", {}, [["mtd", {}, [grid(r, c)]],
                                                                                        ["mtd", {}, [T("mi", "z")]]]]]]]]]]]}
                    yield {"roots": [["math", {}, [["mfenced", a, [["mtable", {}, [["mtr", {}, [["mtd", {}, [
                        ["mfenced", {"open": "|", "close": "|"}, [grid(r, c)]]]]]]]]]]]]]}
                yield {"roots": [["math", {}, [grid(r, c)]]]}
        cs = every_character(tier)
        for i in range(0, len(cs), 20):
            for a in (lambda c: {"open": c, "close": c}, lambda c: {"open": c}, lambda c: {"close": c}, lambda c: {"open": "(", "close": c}, lambda c: {"open": c, "close": "]"}, lambda c: {"open": c * 2, "close": c * 2}):
                yield {"roots": [["math", {}, [["mfenced", a(c), [grid(1, 1)]] for c in cs[i:i + 20]]]]}
        for shape in ([1, 2, 3], [3, 2, 1], [0, 2], [2, 0, 2], [1], [5, 1, 1, 4], [0], [0, 0]):
            rows = ["mtable", {}, [["mtr", {}, [["mtd", {}, [T("mn", "%d%d" % (i, j))] if (i + j) % 3 else []] for j in range(n)]] for i, n in enumerate(shape)]]
            yield {"roots": [["math", {}, [["mfenced", {"open": "[", "close": "]"}, [rows]]]]]}
        for r, c in ((10, 10), (1, 40), (40, 1), (17, 3), (3, 17), (65, 2), (2, 65)):
            yield {"roots": [["math", {}, [["mfenced", {"open": "[", "close": "]"}, [grid(r, c)]]]]]}
        for sep in (T("mo", ","), T("mi", "x")):
            for k in (0, 1):
                ks = [grid(2, 2)]
                ks.insert(k, sep)
                yield {"roots": [["math", {}, [["mfenced", {"open": "[", "close": "]"}, ks]]]]}
        for m in nested_matrices():
            yield {"roots": [m]}
        x = grid(1, 2)
        for i in range(6):
            x = ["mtable", {}, [["mtr", {}, [["mtd", {}, [x]], ["mtd", {}, [T("mi", "abcdef"[i])]]]], ["mtr", {}, [["mtd", {}, [T("mn", str(i))]]]]]]
            yield {"roots": [["math", {}, [["mfenced", {"open": "(", "close": ")"}, [x]]]]]}
            yield {"roots": [["math", {}, [x]]]}

    def root(self, src, p):
        if src.chance(30):
            # a big regular or ragged grid of small cells
            q = Profile(depth=1, plain_tokens=True)
            cols = src.between(1, 12)
            rows = [["mtr", {}, [["mtd", {}, [gen.tree(src, q, src.below(2))] if not src.chance(15) else []]
                                 for _ in range(cols if not src.chance(10) else src.between(0, 12))]] for _ in range(src.between(1, 8))]
            n = ["mfenced", {}, [["mtable", {}, rows]]]
            gen.fences(src, p, n[1], True)
            return n
        n = ["mfenced", {}, [gen.table(src, p, max(2, p.depth))]]
        gen.fences(src, p, n[1], True)
        return n

    def check(self, case):
        out = check_roots(case)
        m = case["roots"][0]
        tabs = [n for n in gen.walk(m) if n[0] == "mtable"]
        cells = max([sum(len(model.kids(r)) for r in model.kids(t)) for t in tabs] or [0])
        top = model.kids(m)
        labels = ["cells<=%d" % next(b for b in (0, 1, 4, 16, 10 ** 9) if cells <= b)]
        own = any("\\" in v for n in gen.walk(m) for v in [*n[1].values(), n[2] if isinstance(n[2], str) else ""])   # LaTeX the author wrote
        if out.ok and not own and not latex.problems(out.value) and len(top) == 1 and top[0][0] == "mfenced" and len(tabs) == 1 and len(model.kids(top[0])) == 1 and top[0][2][0] is tabs[0] and \
                sum(n[0] == "mtr" for n in gen.walk(m)) == len(model.kids(tabs[0])):
            # read the matrix back from the output
            envs, _ = latex.matrices(out.value)
            want = [len(model.kids(r)) or 1 for r in model.kids(tabs[0])] or [1]
            got = [len(r) for r in envs[0][1]] if len(envs) == 1 else None
            if want != got:
                raise Violation("rows of %s cells come out as %s\n  input:  %s\n  output: %r" % (want, got, gen.xml(m), out.value))
            labels.append("read back")
        return cells >= 2, labels


MATRIX_FENCES = (("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("", ""), ("⟨", "⟩"), ("(", "]"), ("[", ""), ("", "]"), (None, None))


def nested_matrices():
    """Matrices of every kind in every cell of matrices of every kind, side by side and in other things."""
    def mat(f, t):
        return ["mfenced", {k: v for k, v in zip(("open", "close"), f) if v is not None}, [t]]

    for a in MATRIX_FENCES:
        for b in MATRIX_FENCES:
            inner = mat(b, grid(2, 2))
            for i in range(2):
                for j in range(2):
                    t = grid(2, 2)
                    t[2][i][2][j][2] = [inner] if (i + j) % 2 else [T("mi", "x"), inner]
                    yield ["math", {}, [mat(a, t)]]
            t = grid(2, 2)
            t[2][0][2][0][2], t[2][1][2][1][2] = [inner], [mat(a, grid(1, 2)), mat(b, grid(2, 1))]
            yield ["math", {}, [T("mi", "l"), mat(a, t), T("mi", "r")]]
            yield ["math", {}, [mat(a, grid(2, 2)), T("mo", "="), inner]]
            yield ["math", {}, [["mfrac", {}, [mat(a, grid(1, 2)), inner]], ["msup", {}, [mat(a, grid(2, 1)), inner]]]]
            yield ["math", {}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [mat(a, grid(2, 2))]], ["mtd", {}, [inner]]]]]]]]


def grid(r, c):
    return ["mtable", {}, [["mtr", {}, [["mtd", {}, [["mi", {}, "abcdefghijklmnopqrstuvwxyz"[(i * c + j) % 26]]]] for j in range(c)]] for i in range(r)]]


class C08(Structural):
    id = "C08"
    focus = ("mover", "munder", "munderover")
    shapes = ("mover", "munder", "munderover", "hat", "underbrace")
    real = (lambda a, b: ["mover", {}, [a, b]], lambda a, b: ["munder", {}, [a, b]], lambda a, b: ["munderover", {}, [a, b, a]], lambda a, b: ["munderover", {}, [a, a, b]],
            lambda a, b: ["mover", {}, [["munder", {}, [a, b]], a]], lambda a, b: ["munder", {}, [["mrow", {}, [a, b]], a]], lambda a, b: ["mover", {}, [a, ["mrow", {}, [b, a]]]],
            lambda a, b: ["mrow", {}, [a, ["mover", {"accent": "true"}, [T("mi", "x"), b]], a]])
    rule = """Under- and overscripts with random trees (depth to 4, thorough 6) as content and scripts, 40% of the scripts an accent
    character, contexts around; output compared with the reference rendering; every accent character and every other operator
    symbol as a script of mover and munder, directly and in a row, is enumerated.
    Non-trivial: the document has one of these elements and at least 4 nodes."""

    def special(self, tier):
        for c in gen.MO_SYMBOLS:
            acc = model.mo(c) in model.ACCENTS
            for tag in ("mover", "munder"):
                yield {"roots": [["math", {}, [[tag, {}, [T("mi", "x"), T("mo", c)]]]]]}
                if acc:
                    for content in (T("mi", "xy"), T("mi", ""), ["mrow", {}, [T("mi", "a"), T("mo", "+"), T("mi", "b")]], T("mo", c),
                                    ["mover", {}, [T("mi", "a"), T("mo", c)]], ["munder", {}, [T("mi", "a"), T("mi", "b")]]):
                        for script in (T("mo", c), ["mrow", {}, [T("mo", c)]], ["mrow", {}, [T("mo", c), T("mi", "q")]], T("mi", c), T("mtext", c),
                                       ["mstyle", {}, [T("mo", c)]]):
                            for a in ({}, {"accent": "true"}, {"accent": "false", "accentunder": "true"}):
                                yield {"roots": [["math", {}, [[tag, dict(a), [content, script]]]]]}
        bases = [T("mo", "∑"), T("mo", "lim"), T("mi", "x"), ["mrow", {}, [T("mi", "a"), T("mi", "b")]], ["msup", {}, [T("mi", "a"), T("mi", "b")]],
                 ["mrow", {}, [["msub", {}, [T("mi", "a"), T("mi", "b")]]]], ["mrow", {}, []], ["munderover", {}, [T("mo", "∫"), T("mn", "0"), T("mn", "1")]],
                 ["mstyle", {}, [["mrow", {}, [T("mi", "a"), T("mo", "-")]]]], ["munder", {}, [T("mo", "∑"), T("mi", "i")]],
                 ["mmultiscripts", {}, [T("mi", "a"), T("mi", "b"), T("mi", "c")]], ["mrow", {}, [["mrow", {}, [T("mi", "k")]]]], T("mi", "")]
        args = [T("mn", "0"), T("mi", ""), ["mrow", {}, [T("mi", "i"), T("mo", "="), T("mn", "1")]], ["mfrac", {}, [T("mi", "n"), T("mn", "2")]]]
        for x in hidden():
            yield {"roots": [["math", {}, [["munderover", {}, [x, T("mn", "0"), T("mn", "1")]]]]]}
        for d in (2, 3, 4, 6, 9, 17, 40):
            for c in "^¯\u23df\u23de~→":
                for rows in (("mrow",), ("mstyle",), ("mpadded",), ("mrow", "semantics"), ("custom",), ("mtd", "mrow")):
                    x = T("mo", c)
                    for i in range(d):
                        x = [rows[i % len(rows)], {}, [x]]
                    for tag in ("mover", "munder"):
                        yield {"roots": [["math", {}, [[tag, {}, [T("mi", "x"), x]]]]]}
        for b in bases:
            for u in args:
                for o in args:
                    yield {"roots": [["math", {}, [["munderover", {}, [b, u, o]]]]]}
                for tag in ("mover", "munder"):
                    yield {"roots": [["math", {}, [[tag, {}, [b, u]]]]]}


class C09(Structural):
    id = "C09"
    focus = ("mmultiscripts",)
    shapes = ("multi", "multi2", "multipre")
    real = (lambda a, b: ["mmultiscripts", {}, [a, b, a]], lambda a, b: ["mmultiscripts", {}, [a, b, T("none", []), T("mprescripts", []), a, b]],
            lambda a, b: ["mmultiscripts", {}, [T("mi", "X"), a, a, b, b]], lambda a, b: ["mmultiscripts", {}, [["mrow", {}, [a, b]], T("mn", "1"), T("mn", "2")]],
            lambda a, b: ["mrow", {}, [a, ["mmultiscripts", {}, [b, T("mprescripts", []), a, b]]]])
    rule = """Multiscripts with 0 to 20 scripts before and after, odd numbers and absent scripts included, random trees (depth to 4,
    thorough 6) as base and scripts; output compared with the reference rendering; all numbers of pre- and postscripts from 0
    to 6 with 8 kinds of base are enumerated.  Non-trivial: at least two pairs or a compound base."""

    def special(self, tier):
        bases = [T("mi", "X"), T("mi", "XY"), T("mi", ""), ["mrow", {}, [T("mi", "a"), T("mi", "b")]], ["msup", {}, [T("mi", "a"), T("mn", "2")]],
                 ["mrow", {}, [["msub", {}, [T("mi", "a"), T("mi", "b")]]]], T("mtext", "a b"), ["mfenced", {}, [T("mi", "a"), T("mi", "b")]],
                 ["mrow", {}, [T("mi", "q")]], ["mstyle", {}, []], T("mo", "∑")]
        for b in bases:
            for pre in range(-1, 7):
                for post in range(0, 7):
                    if post + max(pre, 0) + (1 if pre >= 0 else 0) < 2:
                        continue
                    for none in (0, 2, 3):
                        ks = [b]
                        for i in range(post):
                            ks.append(T("none", []) if none and i % none == none - 1 else T("mi", "abcdef"[i]))
                        if pre >= 0:
                            ks.append(T("mprescripts", []))
                            for i in range(pre):
                                ks.append(T("none", []) if none and i % none == 0 else T("mn", str(i + 1)))
                        yield {"roots": [["math", {}, [["mmultiscripts", {}, ks]]]]}
        for nm in [n for n in gen.NEAR if "prescript" in n.lower() or "none" in n.lower()] + ["mprescript", "prescripts", "mrow", "mphantom", "mspace", "null", "empty"]:
            for content in ([], [T("mi", "q")], [T("mi", "q"), T("mi", "r")]):
                for k in range(0, 5):
                    for pre in ([], [T("mprescripts", []), T("mn", "1"), T("mn", "2"), [nm, {}, content]]):
                        ks = [T("mi", "abcd"[i]) for i in range(4)] + pre
                        ks.insert(k, [nm, {}, content])
                        yield {"roots": [["math", {}, [["mmultiscripts", {}, ks]]]]}
        for x in hidden():
            yield {"roots": [["math", {}, [["mmultiscripts", {}, [x, T("mn", "0"), T("mn", "1")]]]]]}
        for n in (10, 16, 20, 40):
            yield {"roots": [["math", {}, [["mmultiscripts", {}, [T("mi", "X")] + [T("mn", str(i)) for i in range(n)] + [T("mprescripts", [])] +
                                                        [T("mn", str(100 + i)) for i in range(n)]]]]]}

    def root(self, src, p):
        n = gen.build(src, p, "mmultiscripts", p.depth)
        if src.chance(25):
            q = Profile(depth=0)
            n[2] = n[2][:1] + [gen.tree(src, q, 0) for _ in range(src.between(2, 20))]
            if src.chance(60):
                n[2] += [T("mprescripts", [])] + [gen.tree(src, q, 0) for _ in range(src.between(0, 20))]
        return n

    def check(self, case):
        Structural.check(self, case)
        ms = [n for n in gen.walk(case["roots"][0]) if n[0] == "mmultiscripts"]
        k = max([len(n[2]) for n in ms] or [0])
        return k >= 5 or any(model.compound(n[2][0]) for n in ms), ["scripts<=%d" % next(b for b in (3, 5, 9, 10 ** 9) if k <= b)]


class C10(Structural):
    id = "C10"
    focus = ("menclose", "merror", "maction", "mphantom")
    shapes = ("box", "longdiv", "actuarial", "merror", "toggle", "tooltip", "phantom")
    real = (lambda a, b: ["menclose", {"notation": "box"}, [a, b]], lambda a, b: ["menclose", {}, [a, b]], lambda a, b: ["menclose", {"notation": text_of(a)}, [b]],
            lambda a, b: ["maction", {}, [a, b]], lambda a, b: ["maction", {"actiontype": text_of(a) or "x"}, [b, a]], lambda a, b: ["merror", {}, [a, b]],
            lambda a, b: ["mrow", {}, [a, ["mphantom", {}, [b, a]], b]])
    rule = """Enclosures with every notation (known, unknown, empty, absent, attribute named as its value), errors, phantoms and
    actions with every kind of actiontype and 1 to 12 children that are random trees (depth to 4, thorough 6); output compared
    with the reference rendering; all notations and action types with 0 to 4 children of six kinds are enumerated.
    Non-trivial: the document has one of these elements and at least 4 nodes."""

    def special(self, tier):
        kinds = [T("mi", "x"), ["mrow", {}, [T("mi", "a"), T("mo", "+"), T("mn", "1")]], T("mi", ""), ["mfrac", {}, [T("mi", "a"), T("mi", "b")]],
                 ["mphantom", {}, [T("mi", "p")]], T("mi", "α")]
        notes = [None, "", "longdiv", "unknown", "Box", "notation", "box circle", " box", "left right", "none"] + gen.NOTATIONS
        for v in gen.NEAR_VALUES["notation"]:
            for n in (1, 2):
                yield {"roots": [["math", {}, [["menclose", {"notation": v}, kinds[:n]], ["menclose", {}, kinds[:n]]]]]}
        for i, u in enumerate(gen.NOTATIONS):
            for v in gen.NOTATIONS:
                yield {"roots": [["math", {}, [["menclose", {"notation": u + " " + v}, [T("mi", "x")]], T("mi", "z")]]]}
                for w in gen.NOTATIONS[i % 3::3]:
                    yield {"roots": [["math", {}, [["menclose", {"notation": "%s %s %s" % (u, v, w)}, [T("mi", "x")]], T("mi", "z")]]]}
        for v in gen.NEAR_VALUES["actiontype"]:
            for n in (1, 2, 3):
                yield {"roots": [["math", {}, [["maction", {"actiontype": v}, kinds[:n]], ["maction", {}, kinds[:n]]]]]}
        acts = [None, "", "toggle", "Toggle", "tooltip", "statusline", "input", "actiontype", "highlight", " toggle", "none", "toggle toggle"]
        for n in range(0, 5):
            for s in range(len(kinds)):
                ks = [kinds[(s + i) % len(kinds)] for i in range(n)]
                for v in notes:
                    yield {"roots": [["math", {}, [["menclose", {} if v is None else {"notation": v}, ks]]]]}
                for v in acts:
                    if n or v in (None, "", "toggle", "actiontype"):
                        for sel in ({}, {"selection": "2"}):
                            a = dict(sel)
                            if v is not None:
                                a["actiontype"] = v
                            yield {"roots": [["math", {}, [T("mi", "l"), ["maction", a, ks], T("mi", "r")]]]}
                yield {"roots": [["math", {}, [["merror", {}, ks]]]]}
                yield {"roots": [["math", {}, [T("mi", "l"), ["mphantom", {}, ks], T("mi", "r")]]]}
        for t in ("mphantom", "merror"):
            for tok in ("mi", "mo", "mn", "mtext"):
                yield {"roots": [["math", {}, [[t, {}, [["mrow", {}, [[tok, {}, "z"]]]]]]]]}


# ------------------------------------------------------------------ C24

PART = ["msqrt", {}, [["mi", {}, "W"], ["mi", {}, "Q"]]]


class C24(Prop):
    id = "C24"
    rule = """A random context (tree of depth to 4, thorough 6, with one or two holes at random places that are rendered) and random
    parts; the part is converted alone, and the context once with the part and once with a placeholder of the same grouping
    class: the two outputs must differ exactly by part for placeholder.  All shapes in all holes of all shapes, three levels
    deep, are enumerated against the reference rendering (quick: a slice).
    Non-trivial: context of at least 4 nodes and part of at least 3."""
    quick = 16000
    thorough = 100000

    def enumerate(self, tier):
        for m in small(None, 2, ("mi", "text")):
            yield {"roots": [m]}
        for i, m in enumerate(small(None, 3, ("mi",))):
            if tier == "thorough" or i % 14 == 0:
                yield {"roots": [m]}
        for m in deep_and_wide(None, None, tier, 2):
            yield {"roots": [m]}
        yield from whole_rows(tier)
        for m in pairs(None, every=7 if tier == "quick" else 1):
            yield {"roots": [m]}
        for m in in_holes(atoms().values()):
            yield {"roots": [m]}
        for i, (a, b, c) in enumerate(itertools.product(sorted(atoms().items()), repeat=3)):
            if i % (293 if tier == "quick" else 11) == 0 and "mprescripts" not in (a[0], b[0], c[0]):
                yield {"roots": [PARENTS[sorted(PARENTS)[i % len(PARENTS)]](a[1], b[1], c[1])]}
        for s in sorted(SHAPES):
            n, b = SHAPES[s]
            for m in real_pairs(lambda x, y: ["mrow", {}, [x, b(*[(x, y)[j % 2] for j in range(n)]), y]], 5, tier):
                yield {"roots": [m]}
        # the same part twice, side by side and at different depths
        for s in sorted(SHAPES):
            part = SHAPES[s][1](*[LEAVES["mi"](j) for j in range(SHAPES[s][0])])
            for t in sorted(SHAPES):
                for k in range(SHAPES[t][0]):
                    yield {"roots": [["math", {}, [part, filled(t, k, part), ["mrow", {}, [part]]]]]}
        for m in big(sizes=(17, 129)):
            yield {"roots": [m]}
        # every atom at the bottom of a deep chain of every shape, and at its end after many others
        names = sorted(SHAPES)
        for i, (a, n) in enumerate(sorted(atoms().items())):
            if n[0] != "mprescripts":
                for j in range(4 if tier == "quick" else len(names)):
                    s = names[(i * 3 + j * 9 + j) % len(names)]
                    yield {"roots": [["math", {}, [chain(s, (i + j) % SHAPES[s][0], 60 if j % 2 else 30, "mi", n)]]]}
                for w in ("mrow", "mfenced2", "cells", "math", "maction"):
                    yield {"roots": [["math", {}, [WIDE[w]([n] + [LEAVES["mi"](k) for k in range(70)] + [n])]]]}

    def harvested(self, tier):
        for m in harvest.trees(None, None, tier):
            yield {"roots": [m]}

    def gen(self, src, tier):
        p = Profile(depth=src.between(1, DEPTH[tier] - 1), wide=8, drop=("mtable",))
        inner = [gen.tree(src, p) for _ in range(src.between(1, 2))]
        q = Profile(depth=src.between(1, DEPTH[tier]), wide=8, boost={"mtable": 6, "mfenced": 10, "mphantom": 0, "maction": 1})
        ctx = gen.math(src, q, 1, 3)
        sites = [n for n in gen.walk(ctx) if isinstance(n[2], list) and n[2]]
        site = src.choice(sites)
        k = src.below(len(site[2]))
        if site[2][k][0] in ("mtr", "mtd", "mprescripts", "mtable"):
            return {"ctx": ["math", {}, [["HOLE", {}, []]]], "part": inner}
        site[2][k] = ["HOLE", {}, []]
        return {"ctx": ctx, "part": inner}

    def check(self, case):
        if "roots" in case:
            check_roots(case)
            return True, ["enumerated"]
        ctx, parts = case["ctx"], case["part"]
        part = ["msqrt", {}, [["mi", {}, "W"]] + parts]
        alone = call(gen.xml(["math", {}, [part]]))
        if not alone.ok:
            raise Violation("a well-formed part is not converted: %r\n  input: %s" % (alone, gen.xml(["math", {}, [part]])))
        ph = ["msqrt", {}, [["mi", {}, "W"], ["mi", {}, "QQ0]" if "]" in alone.value else "QQ0"]]]
        stand = call(gen.xml(["math", {}, [ph]]))
        whole = plug(ctx, part)
        a, b = call(gen.xml(whole)), call(gen.xml(plug(ctx, ph)))
        if not (a.ok and b.ok and stand.ok):
            raise Violation("a well-formed document is not converted: %r\n  input: %s" % ([a, b], gen.xml(whole)))
        want = b.value.replace(stand.value, alone.value)
        if a.value != want:
            raise Violation("a part renders differently in its context\n  part:     %s\n  alone:    %r\n  document: %s\n  expected: %r\n  got:      %r" % (
                gen.xml(part), alone.value, gen.xml(whole), want, a.value))
        check_roots({"roots": [whole]})
        n = b.value.count(stand.value)
        return n > 0 and gen.size(ctx) >= 4 and sum(map(gen.size, parts)) >= 2, ["rendered %d times" % n]

    def show(self, case):
        return Prop.show(self, case) if "roots" in case else "context %s part %s" % (gen.xml(case["ctx"]), "".join(map(gen.xml, case["part"])))


def plug(n, part):
    if n[0] == "HOLE":
        return part
    return [n[0], n[1], n[2] if isinstance(n[2], str) else [plug(k, part) for k in n[2]]]


# ------------------------------------------------------------------ C25

NAMES = gen.UNKNOWN + ["ms", "mglyph", "mfencedx", "MATH", "Msup", "msupp", "mrows", "mphantoms", "mtables", "mtrr", "vm", "m", "Mfrac", "msrow",
                       "reln", "lambda", "sep", "xref", "share", "csymbol", "mpadded2", "ж", "_a", "mi-x", "mtd2", "mlabeledtr"]


TAGS = ["math", "mi", "mo", "mn", "mtext", "mrow", "mstyle", "msup", "msub", "msubsup", "mfrac", "msqrt", "mroot", "mover", "munder", "munderover",
        "mmultiscripts", "mfenced", "menclose", "merror", "mphantom", "maction", "mtable", "mtr", "mtd", "custom"]


EFFECTS = (("mfenced", {"open": "[", "close": "]"}), ("mfenced", {"open": "\u27e8", "close": "|", "separators": ";,"}), ("mfenced", {"separators": "|"}), ("mfrac", {"bevelled": "true"}),
           ("menclose", {"notation": "box"}), ("menclose", {"notation": "updiagonalstrike"}), ("maction", {"actiontype": "toggle"}), ("mi", {"mathvariant": "bold"}),
           ("mtext", {"mathvariant": "bold-italic"}), ("mtext", {"mathvariant": "italic"}))


class C25(Structural):
    id = "C25"
    focus = ("mrow", "mstyle", "mpadded")
    rule = """Random trees in which grouping and unknown elements (a pool of 45 names and random ones, some one letter or case away from
    known names, some with text and no elements) are frequent, compared with the reference rendering; and pairs of a document and
    the same with attributes without effect (presentational, random, or effective only on other elements) added on any elements,
    which must give the same output.  Non-trivial: an unknown element with children, or an added attribute."""
    quick = 24000

    def enumerate(self, tier):
        for n in gen.NEAR:
            ks = [T("mi", "x"), T("mo", "+"), T("mn", "1")]
            el = [n, {}, ks]
            one, none = [n, {}, [T("mi", "q")]], [n, {}, []]
            tab = grid(2, 2)
            tab[2][0][2][0][2] = [el]
            odd = [n, {}, [["mtr", {}, [["mtd", {}, [T("mi", "a")]], ["mtd", {}, [T("mi", "b")]]]]]]
            yield {"roots": [["math", {}, [T("mi", "l"), el, one, none, [n, {}, "text"], T("mi", "r")]]]}
            yield {"roots": [["math", {}, [["msup", {}, [el, one]], ["msub", {}, [one, el]], ["msubsup", {}, [[n, {}, [["msup", {}, [one, none]]]], one, el]]]]]}
            yield {"roots": [["math", {}, [["munderover", {}, [el, one, none]], ["mfrac", {}, [el, one]], ["mroot", {}, [el, one]], ["mover", {}, [el, one]], ["munder", {}, [one, el]]]]]}
            yield {"roots": [["math", {}, [["mmultiscripts", {}, [el, one, T("mi", "a"), T("mi", "b"), one, T("mprescripts", []), T("mi", "c"), one, el, T("mi", "d")]]]]]}
            yield {"roots": [["math", {}, [["mmultiscripts", {}, [one, T("mi", "a"), none, T("mi", "b"), one]], ["mmultiscripts", {}, [T("mi", "a"), one, T("mi", "c")]]]]]}
            yield {"roots": [["math", {}, [["mfenced", {"open": "[", "close": "]"}, [odd]], ["mfenced", {}, [el, one]], ["mfenced", {"open": "[", "close": "]"}, [tab]],
                                           ["mtable", {}, [["mtr", {}, [["mtd", {}, [odd]]]]]], [n, {}, [tab]], ["mfenced", {"open": "[", "close": "]"}, [[n, {}, [tab]]]]]]]}
            yield {"roots": [["math", {}, [["maction", {}, [el, one]], ["maction", {"actiontype": "x"}, [el, one]], ["menclose", {"notation": "box"}, [el, one]], ["mphantom", {}, [el]],
                                           [n, {"mathvariant": "bold", "open": "[", "actiontype": "toggle", "notation": "box", "bevelled": "true", "separators": ";"}, ks],
                                           ["mstyle", {}, [[n, {}, [[n, {}, [el]]]], ["mrow", {}, [el]]]]]]]}
        # elements and attributes of other vocabularies that are named like those of MathML
        for n in sorted(gen.KNOWN - {"math"}):
            for pre in ("x", "m", "svg", "m-l", "MML"):
                name, a = pre + ":" + n, {"xmlns:" + pre: "u:v"}
                ks = [T("mi", "x"), T("mo", "+"), T("mn", "1")]
                cell = [["mtr", {}, [["mtd", {}, [T("mi", "a")]], ["mtd", {}, [T("mi", "b")]]]]]
                for e in ([name, a, ks], [name, a, ks[:1]], [name, a, "text"], [name, dict(a, open="[", notation="box", actiontype="toggle", mathvariant="bold", bevelled="true"), ks[:2]], [name, a, cell], [name, a, []]):
                    yield {"roots": [["math", {}, [T("mi", "l"), e, ["msup", {}, [e, e]], ["mfenced", {"open": "[", "close": "]"}, [e]], T("mi", "r")]]]}
                    yield {"roots": [["math", {}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [e]]]]]], ["mmultiscripts", {}, [e, e, T("mi", "a"), e, T("mi", "b")]], ["msub", {}, [["mrow", {}, [e]], e]]]]]}
        for a, vs in sorted(gen.VOCABULARY.items()):
            for t in ("math", "mi", "mo", "mtext", "mrow", "mfenced", "mfrac", "menclose", "maction", "mtable", "custom", "munder"):
                for v in vs[:6]:
                    yield {"base": doc_with(t, {}), "attr": doc_with(t, {"xmlns:x": "u:v", "x:" + a.replace(":", "-"): v})}
        for m in packed(kinship()):
            yield {"roots": [m]}
        for m in deep_and_wide(("mrow1", "mrow2", "mstyle1", "mpadded2", "semantics", "unknown2"), ("custom", "mrow", "mstyle", "mpadded", "mspace", "none"), tier, 0.5):
            yield {"roots": [m]}
        for m in pairs(("custom", "mrow", "mstyle", "mpadded", "mspace", "none"), every=7 if tier == "quick" else 1):
            yield {"roots": [m]}
        for m in big(("mrow1", "mrow2", "mstyle1", "mpadded2", "semantics", "unknown2"), ("mrow", "mstyle", "mpadded", "custom")):
            yield {"roots": [m]}
        for n in ("custom", "semantics", "div", "mtd", "ms", "mlabeledtr", "x-y.z", "n" * 300):
            for levels in (10, 40, LEVELS):
                x = T("mi", "q")
                for i in range(levels):
                    x = [n, {}, [x] if i % 3 else [T("mi", "l"), x]]
                yield {"roots": [["math", {}, [x]]]}
                yield {"roots": [["math", {}, [["msup", {}, [x, T("mn", "2")]], ["mfrac", {}, [x, x]]]]]}
        for k in (30, 300, 3000):
            for t in ("math", "mi", "mrow", "mfenced", "mfrac", "mtable", "menclose", "custom"):
                yield {"base": doc_with(t, {}), "attr": doc_with(t, {"a%d" % i: "bold" for i in range(k)})}
                yield {"base": doc_with(t, {}), "attr": doc_with(t, {"title": "x" * k * 7, "y" * k: "1"})}
        # beside attributes that have an effect: many others, long values, long names, before and after them
        for t, at in EFFECTS:
            for k in (1, 5, 12, 40, 130, 300, 1100, 4200, 17000, 70000):
                for long in ({"title": "x " * (k // 2 + 1)}, {"y" * k: "1"}, {"style": "color:red;" * (k // 10 + 1), "id": "a"}, {"alttext": ",".join(map(str, range(k // 4 + 1)))},
                             {"data-" + "a-" * (k // 2) + "z": "bold"}):
                    yield {"base": doc_with(t, at), "attr": doc_with(t, {**long, **at})}
                    yield {"base": doc_with(t, at), "attr": doc_with(t, {**at, **long})}
                if k <= 1100:
                    a = {"a%d" % i: "bold" for i in range(k)}
                    yield {"base": doc_with(t, at), "attr": doc_with(t, {**a, **at})}
                    yield {"base": doc_with(t, at), "attr": doc_with(t, {**at, **a})}
                    yield {"base": doc_with(t, at), "attr": doc_with(t, {**{n: v for n, v in list(a.items())[::2]}, **at, **{n: v for n, v in list(a.items())[1::2]}})}
        for n in sorted(set(NAMES + gen.REAL_NAMES)) + list(model.ROWS) + ["mtd"]:
            for ks in ([], [T("mi", "x")], [T("mi", "x"), T("mo", "+"), T("mn", "1")], "text", [[n, {}, [T("mi", "y")]], T("mi", "z")]):
                el = [n, {}, ks] if not (isinstance(ks, str) and n in model.TOKENS) else None
                for m in ([el], [T("mi", "l"), el, T("mi", "r")], [["msup", {}, [el, T("mn", "2")]]], [["mfrac", {}, [el, el]]],
                          [["munderover", {}, [el, T("mi", "a"), T("mi", "b")]]], [["mmultiscripts", {}, [el, T("mi", "a"), T("mi", "b")]]]):
                    yield {"roots": [["math", {}, m]]}
        tags = TAGS
        attrs = sorted(set(gen.PRESENTATION) | set(gen.EFFECTIVE) | set(gen.VOCABULARY))
        for t in tags:
            for a in attrs:
                if t in gen.EFFECTIVE.get(a, ()):
                    continue
                for v in dict.fromkeys(["true", "bold", "[", "0", "", a] + gen.VOCABULARY.get(a, [])):
                    yield {"base": doc_with(t, {}), "attr": doc_with(t, {a: v})}
        yield from whole_rows(tier, 7)
        for m in packed(notes()):
            yield {"roots": [m]}
        for m in outfits(REAL + [n for n in atoms().values() if not model.kids(n)], 120 if tier == "quick" else 1500):
            yield {"roots": [m]}
        # on something around a document of everything, and on everything of one name in it
        for a in attrs:
            vs = list(dict.fromkeys(["true", "bold", "0"] + gen.VOCABULARY.get(a, [])))
            for j, v in enumerate(vs):
                if tier == "quick" and j not in (0, 3):
                    continue
                for t in ("math", "mrow", "mstyle", "mpadded", "semantics", "custom", "merror", "menclose", "msqrt", "mfenced", "mtd", "mtr", "mtable", "maction", "msup", "munderover"):
                    if t not in gen.EFFECTIVE.get(a, ()):
                        yield {"base": around_sink(t, {}), "attr": around_sink(t, {a: v})}
                for t in tags + ["mspace", "ms", "none", "annotation", "mglyph"]:
                    if t not in gen.EFFECTIVE.get(a, ()):
                        yield {"base": around_sink("mrow", {}), "attr": around_sink("mrow", {}, t, {a: v})}
        # values of every form, on everything
        for i, a in enumerate(attrs):
            for j, v in enumerate(VALUES + [a, a + "=" + a, "\\" + a]):
                if tier == "thorough" or (i + j) % 3 == 0:
                    yield {"base": around_sink("mrow", {}), "attr": everywhere(a, v)}
        # two or three at a time
        for i, (a, b) in enumerate(itertools.product(attrs, repeat=2)):
            if a != b and (tier == "thorough" or i % 17 == 0):
                two = {x: (gen.VOCABULARY.get(x) or ["true"])[i % len(gen.VOCABULARY.get(x) or [1])] for x in (a, b, attrs[i * 7 % len(attrs)])}
                t = (tags + ["mspace", "ms"])[i % (len(tags) + 2)]
                two = {x: v for x, v in two.items() if t not in gen.EFFECTIVE.get(x, ())}
                yield {"base": around_sink("mrow", {}), "attr": around_sink("mrow", {}, t, two)}
        # every attribute on every real name that is not one of the supported elements
        for t in sorted(set(gen.REAL_NAMES + gen.UNKNOWN)):
            full = {a: vs[0] for a, vs in gen.VOCABULARY.items()}
            last = {a: vs[-1] for a, vs in gen.VOCABULARY.items()}
            for a in (full, last):
                yield {"base": doc_with(t, {}), "attr": doc_with(t, a)}
            if not tier == "thorough" and t not in gen.REAL_NAMES[:21]:
                continue
            for a in attrs:
                for v in dict.fromkeys(gen.VOCABULARY.get(a, ["true", a])):
                    yield {"base": doc_with(t, {}), "attr": doc_with(t, {a: v})}

    def harvested(self, tier):
        for m in harvest.trees(None, ("mrow1", "mrow2", "mstyle1", "mpadded2", "unknown2", "msup", "munderover", "pmatrix"), tier, most=6000):
            yield {"roots": [m]}
        strings = harvest.flat()
        attrs = sorted(set(gen.PRESENTATION) | set(gen.EFFECTIVE) | set(gen.VOCABULARY))
        for i, s in enumerate(strings):
            new = s in gen.EXTRA
            for j, a in enumerate(attrs):
                if tier == "thorough" or (i + j) % (5 if new else 29) == 0:
                    yield {"base": around_sink("mrow", {}), "attr": everywhere(a, s)}
            if harvest.name(s) and s not in gen.EFFECTIVE:
                for j, v in enumerate(["true", "", s, "1", "bold", "none", "false"] + gen.EXTRA[:12]):
                    if new or j == i % 7:
                        yield {"base": around_sink("mrow", {}), "attr": everywhere(s, v)}
                for t in TAGS if new else TAGS[i % 7::7]:
                    yield {"base": doc_with(t, {}), "attr": doc_with(t, {s: "true"})}
                    yield {"base": doc_with(t, {}), "attr": doc_with(t, {s: s, "class": s})}

    def gen(self, src, tier):
        kind = src.weighted([(50, "tree"), (50, "attrs")])
        if kind == "tree":
            p = Profile(boost={"unknown": 30, "mrow": 10, "mstyle": 10, "mpadded": 10}, depth=src.between(1, DEPTH[tier]), wide=8)
            m = gen.math(src, p, 1, 3)
            for n in gen.walk(m):
                if n[0] in gen.UNKNOWN and src.chance(40):
                    n[0] = src.choice(NAMES) if src.chance(60) else "".join(src.choice("mabcrowtdsupié_") for _ in range(src.between(2, 9)))
                    if n[0] in gen.KNOWN:
                        n[0] = "x" + n[0]
                    if not n[2] and src.chance(50):
                        n[2] = src.choice(["text", "1", "+", "α"])
            return {"roots": [m]}
        p = Profile(depth=src.between(1, DEPTH[tier]), wide=8, presentation=0)
        m = gen.math(src, p, 1, 3)
        d = copy(m)
        ns = list(gen.walk(d))
        for _ in range(src.between(1, 5)):
            n = src.choice(ns)
            if src.chance(25):
                name = "".join(src.choice("abcdexyzABC-_.é") for _ in range(src.between(1, 8)))
                if not (name[0].isalpha() or name[0] == "_") or name in gen.EFFECTIVE or name.lower().startswith("xml"):
                    name = "a" + name
                if name not in gen.EFFECTIVE:
                    n[1].setdefault(name, src.choice(["", "1", "bold", "[", name]))
            else:
                gen.decorate(src, n)
        return {"base": m, "attr": d}

    def check(self, case):
        if "roots" in case:
            check_roots(case)
            ns, tags = stats(case["roots"])
            hit = any(n[0] not in gen.KNOWN or n[0] in model.ROWS for n in ns)
            return hit and len(ns) > 3, ["tree"]
        check_roots({"roots": [case["attr"]]})
        a, b = call(gen.xml(case["base"])), call(gen.xml(case["attr"]))
        if a.key() != b.key():
            raise Violation("an attribute without documented effect changes the output\n  without: %s\n  gives    %r\n  with:    %s\n  gives    %r" % (
                gen.xml(case["base"]), a, gen.xml(case["attr"]), b))
        return case["base"] != case["attr"], ["attributes"]

    def show(self, case):
        return Prop.show(self, case) if "roots" in case else gen.xml(case["attr"])


def sink():
    """A bit of everything, as documents have it."""
    x, y, two = T("mi", "x"), T("mi", "y"), T("mn", "2")
    row = ["mrow", {}, [T("mi", "i"), T("mo", "="), T("mn", "1")]]
    return [["msup", {}, [["mrow", {}, [T("mo", "("), x, T("mo", "-"), y, T("mo", ")")]], two]], T("mo", "+"), ["munderover", {}, [T("mo", "∑"), row, T("mi", "n")]],
            ["munder", {}, [T("mo", "lim"), ["mrow", {}, [x, T("mo", "→"), T("mn", "0")]]]], ["mover", {}, [x, T("mo", "¯")]], ["munder", {}, [["mrow", {}, [x, y]], T("mo", "⏟")]],
            ["mover", {}, [T("mi", "v"), T("mo", "→")]], ["mfrac", {}, [["mrow", {}, [T("mi", "d"), y]], ["mrow", {}, [T("mi", "d"), x]]]], ["mfrac", {"bevelled": "true"}, [T("mn", "1"), T("mn", "10")]],
            T("mtext", " if a "), T("mi", "sin"), T("mo", "\u2061"), T("mi", "α"), T("mspace", []), ["ms", {}, "s"], T("mo", ","), ["mi", {"mathvariant": "bold"}, "w"], T("mn", "3.5"),
            ["mfenced", {"open": "[", "close": "]"}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [x]], ["mtd", {}, [T("mn", "0")]]]], ["mtr", {}, [["mtd", {}, []], ["mtd", {}, [T("mo", "-"), y]]]]]]]],
            ["mtable", {}, [["mtr", {}, [["mtd", {}, [x]], ["mtd", {}, [two]]]], ["mtr", {}, [["mtd", {}, [y]]]]]],
            ["mmultiscripts", {}, [T("mi", "F"), T("mi", "j"), T("none", []), T("mprescripts", []), T("mn", "1"), T("mi", "k")]], ["msubsup", {}, [T("mo", "∫"), T("mn", "0"), T("mi", "∞")]],
            ["msub", {}, [T("mi", "a"), T("mi", "i")]], ["mfenced", {"separators": ";"}, [x, y, T("mi", "z")]], ["mfenced", {"open": "|", "close": "|"}, [x]], ["menclose", {"notation": "box"}, [x, y]],
            ["maction", {}, [x, y]], ["maction", {"actiontype": "tooltip"}, [x, T("mtext", "tip")]], ["msqrt", {}, [x, T("mo", "+"), two]], ["mroot", {}, [x, T("mn", "3")]], ["merror", {}, [T("mi", "e")]],
            ["mphantom", {}, [x]], ["mstyle", {}, [x, ["mfrac", {}, [x, y]]]], ["mpadded", {}, [y]], ["semantics", {}, [x, ["annotation", {}, "x"]]], ["mglyph", {}, []], T("mtext", "α_1"), ["math", {}, [x]]]


def around_sink(t, a, inner=None, b=None):
    """The sink inside of an element with attributes `a`, all its `inner` elements with the attributes `b`."""
    ks = sink()
    if inner:
        for k in ks:
            for n in gen.walk(k):
                if n[0] == inner:
                    for x, v in b.items():
                        n[1].setdefault(x, v)
    z = T("mi", "z")
    if t == "math":
        return ["math", a, ks]
    if t in ("mtd", "mtr", "mtable"):
        tab = ["mtable", {}, [["mtr", {}, [["mtd", {}, ks], ["mtd", {}, [z]]]], ["mtr", {}, [["mtd", {}, [z]]]]]]
        {"mtable": tab, "mtr": tab[2][0], "mtd": tab[2][0][2][0]}[t][1].update(a)
        return ["math", dict(b) if inner == "math" else {}, [tab]]
    body = {"msup": [["mrow", {}, ks], z], "munderover": [["mrow", {}, ks], z, z]}.get(t, ks)
    return ["math", dict(b) if inner == "math" else {}, [[t, a, body], z]]


# forms that values of attributes have
VALUES = [":", ":x", "::", "$x", "$x($y)", "_", "_(x)", "-", "--", "x:y", "f($x,$y)", "@", "#", "#000", "#id", "1", "-1", "+1", "12px", "1e9", "0.5", ".5", "url(x)", "a b c", " a", "TRUE", "True", "None", "null",
          "undefined", "NaN", "\\alpha", "\\", "\\\\", "{", "}", "{}", "{x}", "$", "$$", "<b>", "<", "&", "&amp;", "%", "^", "~", "é", "α", "∑", "math", "mi", "mrow", "mfrac", "none", "hidden", "collapse", "invisible",
          "display: none", "visibility:hidden", "x;y", "x=y", "/a", "/", ".", ",", "(", "()", "[", "[]", "|", "'", "\"", "\u00a0", " ", "\n", "\t", "x" * 300, "inherit", "auto", "always", "never", "on", "off",
          "zero", "infinity", "left", "right", "center", "top", "bottom", "script", "sub", "sup", "text", "latex", "tex", "image", "*", "!", "?", "=", "==", "`", "\u200b", "x\u0301", "0x1", "1/2", "10%", "2", "3"]


def everywhere(a, v):
    """The sink with the attribute on all elements for which it has no meaning."""
    m = around_sink("mrow", {})
    for n in gen.walk(m):
        if n[0] not in gen.EFFECTIVE.get(a, ()):
            n[1].setdefault(a, v)
    return m


def doc_with(t, a):
    x, y, z = T("mi", "x"), T("mn", "2"), T("mi", "z")
    body = {"mi": "x", "mo": "+", "mn": "1", "mtext": "a b", "msup": [x, y], "msub": [x, y], "mfrac": [x, y], "mroot": [x, y], "mover": [x, y],
            "munder": [x, y], "msubsup": [x, y, z], "munderover": [x, y, z], "mmultiscripts": [x, y, z]}.get(t, [x, y])
    if t == "math":
        return ["math", dict(a), [x, y]]
    if t in ("mtable", "mtr", "mtd"):
        tab = grid(2, 2)
        n = {"mtable": tab, "mtr": tab[2][0], "mtd": tab[2][0][2][0]}[t]
        n[1].update(a)
        return ["math", {}, [["mfenced", {"open": "[", "close": "]"}, [tab]], ["mfenced", {}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [tab]]]]]]]]]]
    empty = [] if isinstance(body, list) and len(body) == 2 and t not in model.ARITY and t != "maction" else body
    return ["math", {}, [["msup", {}, [[t, dict(a), body], T("mi", "k")]], [t, dict(a), body], z, [t, dict(a), empty], z]]
