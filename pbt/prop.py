"""Base class of the properties and the enumeration of small documents."""
from . import common, gen, model
from .common import Violation, call


class Prop:
    id = ""
    rule = ""          # how cases are made and what makes one non-trivial
    quick = 16000
    thorough = 120000
    in_process = True  # cases may run inside the shard process

    def enumerate(self, tier):
        """Cases that every run tries (besides the generated ones)."""
        return ()

    def harvested(self, tier):
        """More cases, with the constants of the code under test (see harvest.py)."""
        return ()

    def gen(self, src, tier):
        raise NotImplementedError

    def check(self, case):
        """Raises Violation, or returns (non-trivial?, labels)."""
        raise NotImplementedError

    def finish(self, tier, seed):
        """Extra work of shard 0 after its cases; returns labels or raises Violation."""
        return ()

    def show(self, case):
        """The case in words (the input text where there is one)."""
        if "roots" in case:
            return case.get("xml") or "".join(gen.xml(r) for r in case["roots"])
        return repr(case)


def expect(roots):
    """("ok", text) or ("arity", tags)"""
    try:
        return "ok", model.expected(roots)
    except model.ArityFault as f:
        return "arity", sorted(f.tags)


def must_be(out, exp, xml, note=""):
    """Compares an outcome with what the model expects."""
    kind, val = exp
    if kind == "ok":
        if not out.ok:
            raise Violation("%sconversion fails with %r instead of giving %r\n  input: %s" % (note, out, val, xml))
        if not isinstance(out.value, str):
            raise Violation("%sconversion gives %r, not a string\n  input: %s" % (note, out.value, xml))
        if out.value != val:
            raise Violation("%soutput differs from what the document says\n  input:    %s\n  expected: %r\n  got:      %r"
                            % (note, xml, val, out.value))
    else:
        if out.ok:
            raise Violation("%swrong number of children of %s is accepted and gives %r\n  input: %s"
                            % (note, "/".join(val), out.value, xml))
        if "InvalidNumberOfChildrenError" not in out.mro:
            raise Violation("%swrong number of children of %s raises %r\n  input: %s" % (note, "/".join(val), out, xml))
        if not any(t in out.message for t in val):
            raise Violation("%sthe error does not name the offending tag (%s): %r\n  input: %s"
                            % (note, "/".join(val), out, xml))


def check_roots(case):
    """The whole document renders exactly as the reference model says."""
    roots = case["roots"]
    xml = case.get("xml")
    if xml is None:
        xml = gen.xml(roots[0]) if len(roots) == 1 else "<div>" + "".join(gen.xml(r) for r in roots) + "</div>"
    out = call(xml)
    must_be(out, expect(roots), xml)
    return out


def stats(roots):
    ns = [n for r in roots for n in gen.walk(r)]
    return ns, {n[0] for n in ns}


# ------------------------------------------------------------------ small documents

def T(t, text=None):
    return [t, {}, text]


def _cell(*k):
    return ["mtd", {}, list(k)]


SHAPES = {  # name: (number of holes, builder)
    "mrow1": (1, lambda a: ["mrow", {}, [a]]),
    "mrow2": (2, lambda a, b: ["mrow", {}, [a, b]]),
    "mstyle1": (1, lambda a: ["mstyle", {}, [a]]),
    "mpadded2": (2, lambda a, b: ["mpadded", {}, [a, b]]),
    "semantics": (1, lambda a: ["semantics", {}, [a, ["annotation", {}, "TeX"]]]),
    "unknown2": (2, lambda a, b: ["custom", {}, [a, b]]),
    "math1": (1, lambda a: ["math", {}, [a]]),
    "msup": (2, lambda a, b: ["msup", {}, [a, b]]),
    "msub": (2, lambda a, b: ["msub", {}, [a, b]]),
    "msubsup": (3, lambda a, b, c: ["msubsup", {}, [a, b, c]]),
    "mfrac": (2, lambda a, b: ["mfrac", {}, [a, b]]),
    "bevelled": (2, lambda a, b: ["mfrac", {"bevelled": "true"}, [a, b]]),
    "msqrt1": (1, lambda a: ["msqrt", {}, [a]]),
    "msqrt2": (2, lambda a, b: ["msqrt", {}, [a, b]]),
    "mroot": (2, lambda a, b: ["mroot", {}, [a, b]]),
    "mfenced1": (1, lambda a: ["mfenced", {}, [a]]),
    "mfenced3": (3, lambda a, b, c: ["mfenced", {"open": "[", "close": "]", "separators": ";|"}, [a, b, c]]),
    "mover": (2, lambda a, b: ["mover", {}, [a, b]]),
    "munder": (2, lambda a, b: ["munder", {}, [a, b]]),
    "hat": (1, lambda a: ["mover", {}, [a, T("mo", "ˆ")]]),
    "underbrace": (1, lambda a: ["munder", {}, [a, T("mo", "⏟")]]),
    "munderover": (3, lambda a, b, c: ["munderover", {}, [a, b, c]]),
    "multi": (3, lambda a, b, c: ["mmultiscripts", {}, [a, b, c]]),
    "multipre": (5, lambda a, b, c, d, e: ["mmultiscripts", {}, [a, b, c, T("mprescripts", []), d, e]]),
    "multi2": (4, lambda a, b, c, d: ["mmultiscripts", {}, [a, b, T("none", []), c, d]]),
    "box": (2, lambda a, b: ["menclose", {"notation": "box"}, [a, b]]),
    "longdiv": (1, lambda a: ["menclose", {}, [a]]),
    "actuarial": (1, lambda a: ["menclose", {"notation": "actuarial"}, [a]]),
    "merror": (2, lambda a, b: ["merror", {}, [a, b]]),
    "toggle": (2, lambda a, b: ["maction", {"actiontype": "toggle"}, [a, b]]),
    "tooltip": (2, lambda a, b: ["maction", {"actiontype": "tooltip"}, [a, b]]),
    "phantom": (1, lambda a: ["mphantom", {}, [a]]),
    "table": (4, lambda a, b, c, d: ["mtable", {}, [["mtr", {}, [_cell(a), _cell(b)]], ["mtr", {}, [_cell(c), _cell(d)]]]]),
    "pmatrix": (2, lambda a, b: ["mfenced", {"open": "(", "close": ")"}, [
        ["mtable", {}, [["mtr", {}, [_cell(a), _cell(b)]]]]]]),
    "matrix": (2, lambda a, b: ["mfenced", {"open": "<", "close": ">"}, [
        ["mtable", {}, [["mtr", {}, [_cell(a)]], ["mtr", {}, [_cell(b)]]]]]]),
}
LEAVES = {
    "mi": lambda i: T("mi", "abcdefghij"[i % 10]),
    "mn": lambda i: T("mn", str(10 + i)),
    "mo": lambda i: T("mo", "+-=<×"[i % 5]),
    "greek": lambda i: T("mi", "αβγδε"[i % 5]),
    "text": lambda i: T("mtext", "t%d x" % i),
    "empty": lambda i: T("mrow", []),
}


def filled(name, k, child, leaf="mi"):
    """The shape with `child` in hole k and leaves in its other holes."""
    n, b = SHAPES[name]
    return b(*[child if j == k else LEAVES[leaf](j + 1) for j in range(n)])


def atoms():
    """One small node of every kind that can render in its own way: {name: node}."""
    x, y, z = T("mi", "u"), T("mn", "3"), T("mi", "w")
    out = {"mi": T("mi", "a"), "mi long": T("mi", "sin"), "mi greek": T("mi", "α"), "mi accented": T("mi", "é"), "mi exotic": T("mi", "ж"), "mi empty": T("mi", ""),
           "mi special": T("mi", "x_%"), "mn": T("mn", "12"), "mn 0": T("mn", "0"), "mn symbol": T("mn", "²"), "mn empty": T("mn", ""), "mo": T("mo", "+"), "mo symbol": T("mo", "∑"),
           "mo open": T("mo", "("), "mo close": T("mo", ")"), "mo comma": T("mo", ","), "mo bracket": T("mo", "]"), "mo bar": T("mo", "|"), "mo prime": T("mo", "′"), "mo invisible": T("mo", "\u2062"),
           "mo apply": T("mo", "\u2061"), "mo accent": T("mo", "ˆ"), "mo word": T("mo", "lim"), "mo minus": T("mo", "-"), "mo slash": T("mo", "/"), "mo brace": T("mo", "{"), "text": T("mtext", "if x"), "text 1": T("mtext", "t"),
           "text symbol": T("mtext", "a→"), "text empty": T("mtext", ""), "none": T("none", []), "mspace": T("mspace", []), "unknown text": T("custom", "text"),
           "mprescripts": T("mprescripts", []), "unknown empty": T("custom", []), "mrow empty": T("mrow", [])}
    for v in sorted(model.MI_VARIANTS) + ["normal", "Bold"]:
        out["mi " + v] = ["mi", {"mathvariant": v}, "v"]
    for v in sorted(model.TEXT_VARIANTS) + ["normal", "script"]:
        out["text " + v] = ["mtext", {"mathvariant": v}, "v w"]
    for s in sorted(SHAPES):
        n, b = SHAPES[s]
        out[s] = b(*[T("mi", "pqrst"[i]) for i in range(n)])
    for v in ("false", "", "bevelled", "1"):
        out["mfrac " + v] = ["mfrac", {"bevelled": v}, [x, T("mi", "de")]]
    for o, c in (("(", ")"), ("[", ")"), ("|", "|"), ("||", "||"), ("{", "}"), ("", ""), ("", "]"), ("[", ""), ("⟨", "⟩"), ("open", "close")):
        out["mfenced %s %s" % (o, c)] = ["mfenced", {"open": o, "close": c}, [x, y]]
        out["matrix %s %s" % (o, c)] = ["mfenced", {"open": o, "close": c}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [x]], ["mtd", {}, [y]]]], ["mtr", {}, [["mtd", {}, [z]]]]]]]]
    for v in (";", "", " ; ", ";,.", "separators"):
        out["separators " + v] = ["mfenced", {"separators": v}, [x, y, z, x, y]]
    out["mfenced 0"] = ["mfenced", {}, []]
    for v in sorted(model.NOTATIONS) + ["", "unknown"]:
        out["menclose " + v] = ["menclose", {"notation": v}, [x]]
    for v in (None, "", "statusline", "actiontype"):
        out["maction %s" % v] = ["maction", {} if v is None else {"actiontype": v}, [x, y, z]]
    out["hat munder"] = ["munder", {}, [x, T("mo", "ˆ")]]
    out["overbrace"] = ["mover", {}, [["mrow", {}, [x, y]], T("mo", "⏞")]]
    out["bar"] = ["mover", {"accent": "true"}, [x, T("mo", "¯")]]
    out["scripts of a row"] = ["msup", {}, [["mrow", {}, [x, T("mo", "+"), y]], z]]
    out["scripts of scripts"] = ["msub", {}, [["msup", {}, [x, y]], z]]
    out["long multi"] = ["mmultiscripts", {}, [["mrow", {}, [x, y]], x, y, z, T("mprescripts", []), T("none", []), y, z]]
    out["phantom of a fault"] = ["mphantom", {}, [["mfrac", {}, []]]]
    out["merror 0"] = ["merror", {}, []]
    out["inner math"] = ["math", {}, []]
    out["mtr"] = ["mtr", {}, [_cell(x), _cell(y)]]
    out["mtable 0"] = ["mtable", {}, []]
    return out


PARENTS = {  # places where two nodes can stand next to each other
    "math": lambda *k: ["math", {}, list(k)],
    "mrow": lambda *k: ["math", {}, [["mrow", {}, list(k)], T("mi", "z")]],
    "msqrt": lambda *k: ["math", {}, [["msqrt", {}, list(k)]]],
    "mfenced": lambda *k: ["math", {}, [["mfenced", {"open": "[", "close": "]", "separators": ";|"}, list(k)]]],
    "menclose": lambda *k: ["math", {}, [["menclose", {"notation": "box"}, list(k)]]],
    "toggle": lambda *k: ["math", {}, [["maction", {}, list(k)]]],
    "unknown": lambda *k: ["math", {}, [["msup", {}, [["custom", {}, list(k)], T("mi", "z")]]]],
    "cell": lambda *k: ["math", {}, [["mfenced", {"open": "[", "close": "]"}, [["mtable", {}, [["mtr", {}, [_cell(*k), _cell(T("mi", "z"))]]]]]]]],
    "cells": lambda *k: ["math", {}, [["mfenced", {"open": "(", "close": ")"}, [["mtable", {}, [["mtr", {}, [_cell(n) for n in k]]]]]]]],
    "rows": lambda *k: ["math", {}, [["mfenced", {"open": "|", "close": "|"}, [["mtable", {}, [["mtr", {}, [_cell(n)]] for n in k]]]]]],
    "mfrac": lambda a, b, *k: ["math", {}, [["mfrac", {}, [a, b]]]],
    "bevelled": lambda a, b, *k: ["math", {}, [["mfrac", {"bevelled": "true"}, [a, b]]]],
    "mroot": lambda a, b, *k: ["math", {}, [["mroot", {}, [a, b]]]],
    "msup": lambda a, b, *k: ["math", {}, [["msup", {}, [a, b]]]],
    "mover": lambda a, b, *k: ["math", {}, [["mover", {}, [a, b]]]],
    "munder": lambda a, b, *k: ["math", {}, [["munder", {}, [a, b]]]],
    "msubsup": lambda a, b, *k: ["math", {}, [["msubsup", {}, [T("mi", "z"), a, b]]]],
    "munderover": lambda a, b, *k: ["math", {}, [["munderover", {}, [a, b, a]]]],
    "multi": lambda a, b, *k: ["math", {}, [["mmultiscripts", {}, [T("mi", "z"), a, b, T("mprescripts", []), b, a]]]],
    "multi base": lambda a, b, *k: ["math", {}, [["mmultiscripts", {}, [a, b, T("mi", "z")]]]],
}


def pairs(tags, parents=None, every=1):
    """Documents with an atom that has one of the elements `tags` beside any other, in both orders
    (all pairs of atoms when `tags` is None)."""
    at = atoms()
    names = sorted(at)
    own = [n for n in names if tags is None or at[n][0] in tags or any(k[0] in tags for k in gen.walk(at[n]))]
    i = 0
    for a in own:
        for b in names:
            if tags is not None and b in own and b < a:
                continue
            for p in sorted(parents or PARENTS):
                for x, y in ((a, b), (b, a)) if a != b else ((a, a),):
                    i += 1
                    if i % every == 0:
                        ks = [at[x], at[y]]
                        if at[x][0] == "mprescripts" and p == "multi base":
                            continue
                        yield PARENTS[p](*ks)


def in_holes(nodes):
    """Every node in every hole of every shape."""
    for n in nodes:
        for s in sorted(SHAPES):
            for k in range(SHAPES[s][0]):
                if n[0] == "mprescripts" and s.startswith("multi"):
                    continue
                yield ["math", {}, [filled(s, k, n)]]
                yield ["math", {}, [filled(s, k, n, "empty")]]


REAL = ([T("mi", t) for t in "x y a d i e A R α π Γ ∞ ∂ ∇ ∅ ℝ é 中 sin lim log max mod ln dx Re m/s f' x_1 $ %".split()]
        + [T("mn", t) for t in "0 1 2 10 3.14 1,000 .5 5. -1 50% ½ ² 1e5 ∞ 0x1F".split()]
        + [T("mo", t) for t in "+ - − × ⋅ * / ÷ = ≠ < > ≤ ≥ ( ) [ ] { } | ‖ ⟨ ⟩ , ; : . … ⋯ ! ' ′ ″ ^ _ ~ ¯ ˆ ⏞ → ⇒ ∈ ⊂ ∪ ∩ ∧ ¬ ∀ ∃ ∑ ∏ ∫ ∮ √ ∂ ∇ ± ° % & # @ ? \\ \u2061 \u2062 \u2063 d lim max mod := == && ++ -- ...".split()]
        + [T("mtext", t) for t in ("if", "a b", " and ", ".", ",", "α", "x_1", "", "m/s", "(", "1", "°")]
        + [["mi", {"mathvariant": "bold"}, "v"], ["mi", {"mathvariant": "normal"}, "d"], ["mi", {"mathvariant": "double-struck"}, "R"], ["mtext", {"mathvariant": "bold"}, "b"],
           T("mspace", []), T("mrow", []), T("mphantom", [T("mi", "x")])])


def real_pairs(build, every=1, tier="quick", per=24):
    """All ordered pairs of real tokens, each built into one node, many nodes to a document
    (a failing document is shrunk to the pair)."""
    ks, i = [], 0
    for a in REAL:
        for b in REAL:
            i += 1
            if tier == "thorough" or i % every == 0:
                ks += [build(a, b), T("mi", "k")]
                if len(ks) >= 2 * per:
                    yield ["math", {}, ks]
                    ks = []
    yield ["math", {}, ks]


def real_runs(counts=(2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20)):
    """Runs of one real token, alone and between others, in everything that takes any number of children."""
    for w in sorted(WIDE):
        for n in list(counts) + [n for n in gen.MORE_SIZES if n < 100]:
            ks = []
            for i, t in enumerate(REAL):
                run = [t] * n
                if i % 3 == 1:
                    run = [T("mi", "l")] + run + [T("mn", "7")]
                ks += [WIDE[w](run), T("mi", "k")]
                if len(ks) > 40:
                    yield ["math", {}, ks]
                    ks = []
            yield ["math", {}, ks]


def with_attributes(nodes, attrs, per=24):
    """Every node with every attribute value on itself, on its children, on what is below those, and on all of it
    (attributes that have a meaning there included: the model knows it)."""
    ks = []
    for n in nodes:
        for a, vs in attrs:
            for v in vs:
                for where in ("self", "children", "below", "all"):
                    m = [n[0], dict(n[1]), n[2]]
                    m = _decorated(m, a, v, where)
                    if m is None:
                        continue
                    ks += [m, T("mi", "k")]
                    if len(ks) >= 2 * per:
                        yield ["math", {}, ks]
                        ks = []
    if ks:
        yield ["math", {}, ks]


def _decorated(n, a, v, where, level=0):
    hit = {"self": level == 0, "children": level == 1, "below": level > 1, "all": True}[where]
    kids = n[2] if isinstance(n[2], str) else [_decorated(k, a, v, where, level + 1) for k in n[2]]
    if level == 0 and (where == "children" and not model.kids(n) or where == "below" and not any(model.kids(k) for k in model.kids(n))):
        return None
    return [n[0], dict(n[1], **{a: n[1].get(a, v)}) if hit else n[1], kids]


LEVELS = 90  # nested elements in the deepest documents (100 are promised)


def chain(name, k, levels, leaf="mi", core=None, every=None):
    """The shape inside its own hole k, as often as fits into `levels` nested elements; with `every`
    (another shape and hole) in turn with that one."""
    n = core or T("mi", "x")
    d = 0
    while True:
        s, h = every if every and d % 2 else (name, k)
        m = filled(s, h, n, leaf)
        d += 1
        if gen.depth(m) > levels:
            return n
        n = m


WIDE = {  # elements that take any number of children
    "mrow": lambda ks: ["mrow", {}, ks], "mstyle": lambda ks: ["mstyle", {}, ks], "mpadded": lambda ks: ["mpadded", {}, ks], "custom": lambda ks: ["custom", {}, ks],
    "math": lambda ks: ["math", {}, ks], "msqrt": lambda ks: ["msqrt", {}, ks], "merror": lambda ks: ["merror", {}, ks], "mphantom": lambda ks: ["mphantom", {}, ks],
    "maction": lambda ks: ["maction", {}, ks], "tooltip": lambda ks: ["maction", {"actiontype": "tooltip"}, ks], "menclose": lambda ks: ["menclose", {"notation": "box"}, ks],
    "longdiv": lambda ks: ["menclose", {}, ks], "mfenced": lambda ks: ["mfenced", {}, ks], "mfenced2": lambda ks: ["mfenced", {"open": "[", "close": "]", "separators": ";|."}, ks],
    "mfenced0": lambda ks: ["mfenced", {"separators": " "}, ks],
    "rows": lambda ks: ["mfenced", {"open": "(", "close": ")"}, [["mtable", {}, [["mtr", {}, [_cell(k)]] for k in ks]]]],
    "cells": lambda ks: ["mfenced", {"open": "|", "close": "|"}, [["mtable", {}, [["mtr", {}, [_cell(k) for k in ks]]]]]],
    "bare rows": lambda ks: ["mtable", {}, [["mtr", {}, [_cell(k), _cell(T("mi", "c"))]] for k in ks]],
    "cell": lambda ks: ["mfenced", {"open": "[", "close": "]"}, [["mtable", {}, [["mtr", {}, [_cell(*ks), _cell(T("mi", "c"))]]]]]],
    "post": lambda ks: ["mmultiscripts", {}, [T("mi", "X"), T("mi", "y"), T("mi", "z")] + ks],
    "pre": lambda ks: ["mmultiscripts", {}, [T("mi", "X"), T("mi", "y"), T("mi", "z"), T("mprescripts", [])] + ks],
}
SIZES = (17, 33, 65, 129, 257, 1025)


def wide(name, n, leaf="mi"):
    return WIDE[name]([LEAVES[leaf](i) for i in range(n)])


def big(shapes=None, tags=None, sizes=SIZES):
    """Deep and wide documents: every shape (of `shapes`) nested in itself through each of its holes and in
    turn with others, every element (of `tags`) with many children, also as the base, the argument or
    the content of something else."""
    names = sorted(SHAPES)
    for i, s in enumerate(sorted(shapes if shapes is not None else SHAPES)):
        for k in range(SHAPES[s][0]):
            for levels in [12, 20, 36, 68, LEVELS] + [n for n in gen.MORE_SIZES if n < LEVELS]:
                yield ["math", {}, [chain(s, k, levels)]]
            yield ["math", {}, [chain(s, k, LEVELS, "empty", T("mrow", []))]]
            yield ["math", {}, [chain(s, k, LEVELS, "greek", ["mrow", {}, [T("mi", "p"), T("mo", "+"), T("mn", "1")]])]]
            for j in range(3):
                t = names[(i * 7 + k * 5 + j * 11) % len(names)]
                yield ["math", {}, [chain(s, k, LEVELS - 4, "mi", None, (t, (k + j) % SHAPES[t][0]))]]
    for w in sorted(WIDE):
        if tags is None or w in tags or any(n[0] in tags for n in gen.walk(WIDE[w]([]))):
            for n in list(sizes) + gen.MORE_SIZES:
                yield ["math", {}, [wide(w, n)]]
            for n in list(sizes[:4]) + [n for n in gen.MORE_SIZES if n < 2000]:
                yield ["math", {}, [["msup", {}, [wide(w, n, "mo"), wide(w, n + 1, "text")]], ["mfrac", {}, [wide(w, n + 2), T("mi", "q")]], wide(w, n + 3, "empty")]]
                # one odd child late among many alike ones
                ks = [LEAVES["mi"](i) for i in range(n)]
                for odd in (["msup", {}, [["mrow", {}, [T("mi", "a"), T("mo", "+")]], T("mn", "2")]], T("mtext", "if α"), ["mi", {"mathvariant": "bold"}, "v"], T("mn", "5%")):
                    yield ["math", {}, [WIDE[w](ks[:n - 2] + [odd] + ks[n - 2:])]]


def small(focus=None, depth=2, leaves=("mi", "greek", "empty")):
    """All documents with `depth` nested shapes, one of them in `focus` (all when None)."""
    names = sorted(SHAPES)
    for inner in names:
        for leaf in leaves:
            base = SHAPES[inner][1](*[LEAVES[leaf](j + 4) for j in range(SHAPES[inner][0])])
            if depth == 1:
                if focus is None or inner in focus:
                    yield ["math", {}, [base]]
                continue
            for mid in names:
                for k in range(SHAPES[mid][0]):
                    m = filled(mid, k, base)
                    if depth == 2:
                        if focus is None or inner in focus or mid in focus:
                            yield ["math", {}, [m]]
                        continue
                    for out in names:
                        if focus is None or focus & {inner, mid, out}:
                            for j in range(SHAPES[out][0]):
                                yield ["math", {}, [filled(out, j, m)]]


def towers(focus=None, depth=3, most=None):
    """Nodes of `depth` nested shapes, one of them in `focus` (all when None); evenly `most` of them."""
    names = sorted(SHAPES)
    holes = [(n, h) for n in names for h in range(SHAPES[n][0])]
    leaves = sorted(LEAVES)
    total = len(names) * len(holes) ** (depth - 1)
    tried = total
    if most and total > most:
        # a slice that visits every combination of neighbours equally often
        share = 1.0
        if focus is not None:
            share -= (1 - sum(SHAPES[n][0] for n in focus) / len(holes)) ** depth
        tried = min(total, int(most / share))
    step = 7919 * 104729
    for i in range(tried):
        k = i if tried == total else (i * step + i // 1013) % total
        k, inner = divmod(k, len(names))
        path = [names[inner]]
        places = []
        for _ in range(depth - 1):
            k, j = divmod(k, len(holes))
            places.append(holes[j])
            path.append(holes[j][0])
        if focus is not None and not set(path) & set(focus):
            continue
        leaf = leaves[i % len(leaves)]
        n = SHAPES[path[0]][1](*[LEAVES[leaf](j + i) for j in range(SHAPES[path[0]][0])])
        for j, (s, h) in enumerate(places):
            n = filled(s, h, n, leaves[(i // 7 + j) % len(leaves)])
        yield n


def packed(nodes, per=40):
    """Many nodes in few documents; a failing one is shrunk to the node that matters."""
    ks = []
    for n in nodes:
        ks.append(n)
        if len(ks) == per:
            yield ["math", {}, ks]
            ks = []
    if ks:
        yield ["math", {}, ks]


def crowds(count, tags=None, per=60):
    """Rows of many atoms in haphazard order, half of them with one of the elements `tags`."""
    from random import Random

    r = Random(11)
    at = atoms()
    names = [n for n in sorted(at) if at[n][0] != "mprescripts"]
    own = [n for n in names if tags is None or any(k[0] in tags for k in gen.walk(at[n]))] or names
    rows = ("mrow", "mstyle", "msqrt", "custom", "merror", "mfenced", "menclose", "math", "maction", "mtd")
    for i in range(count):
        ks = [at[r.choice(own if r.random() < 0.5 else names)] for _ in range(per)]
        yield ["math", {}, ks if i % 3 else [["mi", {}, "x"], [rows[i // 3 % len(rows)], {}, ks], ["mi", {}, "y"]]]


EFFECTIVE_TAGS = {t for ts in gen.EFFECTIVE.values() for t in ts}


def dressed(nodes, draws, seed=5):
    """Every node `draws` times, each time with about half of the attributes of the vocabulary at once, with
    random values, on its root, on what is below, on its tokens or on all of it."""
    from random import Random

    r = Random(seed)
    names = sorted(gen.VOCABULARY)
    tags = {a: set(ts) for a, ts in gen.EFFECTIVE.items()}

    pools = {}

    def some(tag):
        key = tag if tag in EFFECTIVE_TAGS else ""
        if key not in pools:
            pools[key] = []
            for i in range(128):
                out, often = {}, (0.3, 0.55, 0.8, 0.95)[i % 4]
                for a in names:
                    if r.random() < (0.12 if tag in tags.get(a, ()) else often):
                        vs = gen.VOCABULARY[a]
                        out[a] = vs[int(r.random() * min(2, len(vs)))] if r.random() < 0.7 else r.choice(vs)
                pools[key].append(out)
        return r.choice(pools[key])

    def dress(n, mode, level=0):
        leaf = not model.kids(n)
        hit = mode == "all" or (level == 0 if mode == "root" else leaf if mode == "leaves" else level > 0)
        return [n[0], dict(some(n[0]), **n[1]) if hit else n[1], [dress(k, mode, level + 1) for k in n[2]] if isinstance(n[2], list) else n[2]]

    for i, n in enumerate(nodes):
        for j in range(draws):
            yield dress(n, ("all", "root", "leaves", "below")[(i + j) % 4] if model.kids(n) else "all")


def outfits(tokens, docs, per=60, seed=11):
    """Every token in `docs` surroundings, each time with an own random choice of the whole vocabulary of attributes, so
    that any two attributes with any two values come together somewhere."""
    from random import Random

    r = Random(seed)
    names = sorted(gen.VOCABULARY)
    own = {t: [a for a in names if t not in gen.EFFECTIVE.get(a, ())] for t in {n[0] for n in tokens}}
    spread = lambda vs: vs * (1 + 12 // len(vs)) if len(vs) < 4 else vs[:2] * 3 + vs
    values = {a: spread(gen.VOCABULARY[a]) for a in names}
    for i in range(docs):
        some = names if i % 3 else [a for a in names if r.random() < 0.5]
        ks = []
        for n in tokens:
            out = {a: values[a][int(r.random() * len(values[a]))] for a in own[n[0]] if i % 3 == 1 or r.random() < 0.75} if len(some) == len(names) else {
                a: values[a][int(r.random() * len(values[a]))] for a in some if a in own[n[0]] and r.random() < 0.6}
            ks.append([n[0], dict(out, **n[1]), n[2]])
            if len(ks) == per:
                yield ["math", {}, ks]
                ks = []
        if ks:
            yield ["math", {}, ks]


def attired(shapes, count, seed=3):
    """Shapes of tokens and atoms; they and their parts have random choices of the vocabulary of attributes."""
    from random import Random

    r = Random(seed)
    names = sorted(gen.VOCABULARY)
    spread = {a: (vs * (1 + 12 // len(vs)) if len(vs) < 4 else vs[:2] * 3 + vs) for a, vs in gen.VOCABULARY.items()}
    at = [n for _, n in sorted(atoms().items()) if n[0] != "mprescripts"]
    own = {}

    def outfit(n):
        t = n[0] if n[0] in EFFECTIVE_TAGS else ""
        if t not in own:
            own[t] = [a for a in names if t not in gen.EFFECTIVE.get(a, ())]
        out = {a: spread[a][int(r.random() * len(spread[a]))] for a in own[t] if r.random() < 0.75}
        return [n[0], dict(out, **n[1]), n[2]]

    for i in range(count):
        for s in sorted(shapes or SHAPES):
            n = SHAPES[s][1](*[outfit(k) if (i + j) % 2 else k for j, k in enumerate(
                (r.choice(REAL) if r.random() < 0.8 else r.choice(at)) for _ in range(SHAPES[s][0]))])
            yield outfit(n)


def edges(every=1):
    """Rows by what they begin and end with: a real token and an atom, both ways, and something or nothing between."""
    at = [n for _, n in sorted(atoms().items()) if n[0] != "mprescripts"]
    i = 0
    for t in REAL:
        for a in at:
            i += 1
            if i % every:
                continue
            mid = [[], [REAL[i * 7 % len(REAL)]], [at[i * 5 % len(at)]], [T("mspace", []), REAL[i * 11 % len(REAL)]]][i // every % 4]
            yield [t] + mid + [a]
            yield [a] + mid + [t]


def liveries(tags=("math", "mrow", "mfenced", "mtr", "mtable", "mmultiscripts", "msubsup", "munderover", "msqrt", "menclose", "maction", "semantics", "custom")):
    """Three children, full and empty in every way, of which any have the same attribute."""
    def child(parent, kind, i, a):
        body = [[["mi", {}, "abc"[i]]], [], [["mrow", {}, []]]][kind]
        if parent == "mtable":
            return ["mtr", a, [["mtd", {}, body]] if kind != 1 else []]
        if parent == "mtr":
            return ["mtd", a, body]
        return [["mi", a, "abc"[i]], ["mi", a, ""], ["mrow", a, []]][kind]

    attrs = [{"class": "a"}, {"id": "k"}, {"columnspan": "1"}, {"xref": "r"}]
    i = 0
    for t in tags:
        for kinds in range(27):
            for mask in range(8):
                i += 1
                n = [t, {}, [child(t, kinds // 3 ** j % 3, j, dict(attrs[i // 8 % 4]) if mask >> j & 1 else {}) for j in range(3)]]
                if t == "mtr":
                    n = ["mtable", {}, [n]]
                yield ["mfenced", {"open": "[", "close": "]"}, [n]] if n[0] == "mtable" else n


def notes():
    """semantics elements with the annotations of real documents."""
    body = [T("mi", "x"), ["mrow", {}, [T("mi", "a"), T("mo", "+"), T("mi", "b")]], ["mfrac", {}, [T("mi", "a"), T("mn", "2")]]]
    encodings = gen.VOCABULARY["encoding"] + [None, "", "StarMath 5.0", "application/x-mathematica", "OpenMath", "ASCII", "MathType-MTEF", "image/png"]
    i = 0
    for e in encodings:
        for t in ("annotation", "annotation-xml"):
            a = {} if e is None else {"encoding": e}
            for ks in ("x^2", "", [T("mi", "y")], [["mrow", {}, [T("mi", "y"), T("mn", "1")]]], [["apply", {}, [["plus", {}, []], ["ci", {}, "x"]]]], [T("mi", "y"), T("mi", "z")], [["math", {}, [T("mi", "w")]]], [["svg", {}, [["text", {}, "t"]]]]):
                i += 1
                note = [t, dict(a, **({"cd": "mathmlkeys", "name": "alternate-representation"} if i % 3 == 0 else {})), ks]
                for kids in ([body[i % 3], note], [note, body[i % 3]], [body[i % 3], ["annotation", {"encoding": "application/x-tex"}, "x"], note], [body[i % 3], note, ["annotation-xml", {"encoding": "MathML-Content"}, [T("ci", "x")]]], [note], [body[0], body[1], note]):
                    yield ["semantics", {}, kids]


STRAY = (",", "x", "12", "+", " a b ", "(", "α", "&", "-", "\u00a0", "if")


def strayed(nodes, texts=STRAY):
    """Nodes with text between (before, after) their children, which is no token and renders as nothing; also
    text and no children at all."""
    def at(n, path, key, t):
        if not path:
            return [n[0], dict(n[1], **{key: t}), n[2]]
        return [n[0], n[1], n[2][: path[0]] + [at(n[2][path[0]], path[1:], key, t)] + n[2][path[0] + 1:]]

    def paths(n):
        if n[0] in model.TOKENS:
            return
        for i, k in enumerate(model.kids(n)):
            yield [i]
            for p in paths(k):
                yield [i] + p

    for j, n in enumerate(nodes):
        for p in paths(n):
            for i, t in enumerate(texts):
                yield at(n, p, "#after" if (i + j) % 2 else "#before", t)
        for key in ("#before", "#after"):
            m = n
            for i, p in enumerate(paths(n)):
                m = at(m, p, key, texts[(i + j) % len(texts)])
            yield m


def hollow(texts=("x", "12", "a b", "+", "α")):
    """Every element that is no token and has text in place of children."""
    names = sorted({n[0] for a in atoms().values() for n in gen.walk(a)} - set(model.TOKENS) - {"mprescripts"})
    for t in names:
        for x in texts:
            yield [t, {}, x]


BRACKETS = ("()", "[]", "{}", "||", "‖‖", "⟨⟩", "<>", "⌊⌋", "⌈⌉", "[)", "(]", ")(", "((", "))", "//", "''", '""', "$$", "==", "∫d")
SPELLED = ("sin cos tan log ln exp lim max min mod det dim ker gcd sup inf arg deg sec csc cot sinh cosh tanh arcsin if and or then iff alpha pi in to dx dy frac sqrt left right end "
           "begin text sum int infty hat bar vec dot not cdot times nan inf none null true").split()


def sandwiches():
    """Rows of three to five: an atom on both sides of an operator, between brackets, after a function; words
    and numbers spelled in one token per character."""
    at = [n for n in atoms().values() if n[0] != "mprescripts"]
    ops = [n for n in REAL if n[0] == "mo" or n[0] in ("mspace", "mphantom")]
    rows = ["mrow", "mstyle", "mpadded", "custom", "math", "msqrt", "merror", "mtd", "maction", "menclose", "mfenced", "semantics"]
    i = 0

    def row(*ks):
        nonlocal i
        i += 1
        return [rows[i // 5 % len(rows)] if i % 5 == 0 else "mrow", {}, list(ks)]

    for a in at:
        for o in ops:
            yield row(a, o, a) if i % 3 else row(a, o, a, o, a)
        for b in BRACKETS:
            l, r = T("mo", b[0]), T("mo", b[1])
            yield row(l, a, r)
            yield row(T("mi", "f"), T("mo", "\u2061"), l, a, T("mo", ","), T("mi", "y"), r) if i % 2 else row(T("mi", "f"), l, a, r, T("mo", "+"), T("mi", "y"))
        for f in ("f", "sin", "lim", "α", "d"):
            yield row(T("mi", f), a, T("mi", "x"))
            yield row(T("mo", f), a, T("mo", "="), T("mn", "0"))
            yield row(T("mo", "∑"), a, T("mi", f))
            yield row(T("mo", "∫"), a, T("mo", "d"), T("mi", f))
            yield row(T("mi", f), T("mo", "\u2061"), a)
    for w in SPELLED:
        for t in ("mi", "mo", "mtext"):
            ks = [T(t, c) for c in w]
            yield row(*ks)
            yield row(T("mi", "x"), *ks, T("mi", "y"))
            yield row(T("mo", "\\"), *ks)
            yield ["msub", {}, [row(*ks), T("mi", "n")]]
            yield ["munder", {}, [row(*ks), T("mi", "n")]]
            if len(w) > 2:
                yield row(T(t, w[:2]), T(t, w[2:]))
                yield row(T(t, w[:-1]), T(t, w[-1]))
    for w in ("123", "1.5", "1,000", "1,000,000", "-1", "1e5", "1/2", "50%", "0.5", "1:2", "3.14", "10!", "2x", "1+1", ".5", "0x1", "²½"):
        for f in (lambda c: T("mn", c), lambda c: T("mn" if c.isdigit() else "mo", c), lambda c: T("mi", c)):
            yield row(*map(f, w))
            yield row(T("mi", "x"), T("mo", "="), *map(f, w))


def element(tag, ks):
    """The element with the nodes `ks` as far as its count of arguments allows, more of them where it needs more."""
    if tag in model.TOKENS:
        return T(tag, "v")
    n = model.ARITY.get(tag, 3 if tag == "mmultiscripts" else len(ks))
    return [tag, {}, (ks + [T("mn", str(i)) for i in range(n)])[:max(n, len(ks) if tag == "mmultiscripts" else n)]]


def kinship(tags=None):
    """Every element of MathML (known to the converter or not) as first, second and third child of every other."""
    names = sorted((gen.KNOWN - {"mprescripts"}) | {t for t in gen.REAL_NAMES[:70] + ["semantics", "annotation", "annotation-xml", "mtd", "none", "mlabeledtr", "custom", "span", "div", "img", "script"]})
    i = 0
    for p in names:
        if p in model.TOKENS:
            continue
        for c in names:
            if tags is not None and p not in tags and c not in tags:
                continue
            for at in range(3):
                i += 1
                ks = [T("mi", "k"), T("mn", "2"), T("mo", "+")]
                ks[at] = element(c, [T("mi", "x"), T("mo", "-"), T("mi", "y")][: 1 + i % 3])
                n = element(p, ks[: 3 - i // 3 % 2] if at < 2 else ks)
                yield n
                if at == 1 and p not in model.ARITY and p != "mmultiscripts":
                    yield [p, {}, [ks[0], ks[1]]]
                    yield [p, {}, [ks[1]]]
                    yield [p, {}, [ks[1], ks[1]]]


EXPRESSIONS = """a+b ( a + b ) | ( a ) | - x | + 1 | x ! | | x | | | x - y | | ‖ x ‖ | [ a , b ] | [ a , b ) | { x } | { x ∣ x > 0 } | ( a + b ) ( c + d ) | ( a + b ) c | c ( a + b ) | ( ) | [ ] | ( a
a b c d ) | f ( x ) | f \u2061 ( x ) | f \u2061 x | sin x | sin ( x ) | sin \u2061 x | log ( a , b ) | d x | d x d y | ∂ f | ∂ ∂ f | ∇ f | a \u2062 b | 2 x | 2 \u2062 x | 2 ⋅ x | 2 ( x + 1 ) | - 1 | ( - 1 ) | ( n - 1 ) | ( n k )
n - 1 | i = 1 | x → 0 | x → ∞ | n ≥ 0 | 1 / 2 | a / b | a / b / c | x , y | x , y , z | i , j | i \u2063 j | ( x , y ) | ⟨ x , y ⟩ | ⌊ x ⌋ | ⌈ x / 2 ⌉ | x ∈ A | A ∪ B | A ∖ B | ¬ p | p ∧ q | ∀ x | ∃ x ∈ A
∑ x | ∫ f d x | ∫ ∫ f | lim x | max ( a , b ) | a mod b | a = b = c | a < b < c | a ≠ b | x ′ | f ′ ( x ) | f ′′ | x * | * | † | ° | % | 5 % | 1 2 | 1 , 000 | 3 . 14 | . 5 | a . b | a : b | a ; b | ... | … | a … b | a ⋯ b
x ^ 2 | x _ 1 | a & b | # 1 | \\ a | a \\ b | " a " | ' a ' | $ x $ | ~ x | @ x | ? | a ? b : c | ( ( a ) ) | ( ( a ) ( b ) ) | [ ( a ) ] | ( [ a ] ) | ( a ] | ) a ( | | a | b | | | | ( a | b ) | Δ x | α β | 2 π r | e | i | π | 0 | 00 | 10""".replace("\n", " | ")


def expressions():
    """Short real formulas as rows of tokens."""
    for e in EXPRESSIONS.split(" | "):
        ks = [T("mn" if w.isdigit() else "mi" if w.isalpha() else "mo", w) for w in e.split()]
        if ks:
            yield ["mrow", {}, ks]


def formulas_in_places(shapes=None):
    """The short real formulas in every argument of every shape, alone, with one another, and within grouping elements."""
    es = list(expressions())
    wraps = [lambda n: n, lambda n: ["mstyle", {}, n[2]], lambda n: ["mrow", {}, [n]], lambda n: ["mpadded", {}, [n]], lambda n: ["semantics", {}, [n]], lambda n: ["mtd", {}, n[2]], lambda n: ["mrow", {"class": "x"}, [["mrow", {}, n[2]]]]]
    i = 0
    for s in sorted(shapes or SHAPES):
        k = SHAPES[s][0]
        for h in range(k):
            for e in es:
                i += 1
                yield filled(s, h, e)
                yield SHAPES[s][1](*[wraps[(i + j) % len(wraps)](es[(i * (1 + 2 * j) + j) % len(es)] if j != h else e) for j in range(k)])
