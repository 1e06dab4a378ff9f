"""Independent reference converter: what a document must render to, from its tree.

A node is [tag, {attr: value}, content]; content is a list of nodes (element
content) or a str (token text).  Nothing here imports the code under test."""
import json
import os
import re

_T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables.json"), encoding="utf-8"))
MI, MO, MN, FALLBACK = _T["mi"], _T["mo"], _T["mn"], _T["fallback"]
INVISIBLE = {"\u2061", "\u2062", "\u2063", "\u2064"}

TOKENS = ("mi", "mo", "mn", "mtext")
ROWS = ("mrow", "mpadded", "mstyle")
SCRIPTS = ("msub", "msup", "msubsup", "munderover", "mmultiscripts")
ARITY = {"msub": 2, "msup": 2, "mfrac": 2, "mroot": 2, "mover": 2, "munder": 2, "msubsup": 3, "munderover": 3}

MI_VARIANTS = {
    "bold": ["mathbf"], "italic": ["mathit"], "bold-italic": ["mathbf", "mathit"],
    "double-struck": ["mathbb"], "bold-fraktur": ["mathbf", "mathfrak"], "script": ["mathcal"],
    "bold-script": ["mathbf", "mathcal"], "fraktur": ["mathfrak"], "sans-serif": ["mathsf"],
    "bold-sans-serif": ["mathbf", "mathsf"], "sans-serif-italic": ["mathsf", "mathit"],
    "sans-serif-bold-italic": ["mathbf", "mathsf", "mathit"], "monospace": ["mathtt"],
}
TEXT_VARIANTS = {
    "bold": ["textbf"], "italic": ["textit"], "bold-italic": ["textbf", "textit"],
    "double-struck": ["mathbb"], "monospace": ["mathtt"], "fraktur": ["mathfrak"], "bold-fraktur": ["mathfrak"],
}
NOTATIONS = {
    "actuarial": r"\overline{\left.@\right|}", "radical": r"\sqrt{@}", "box": r"\boxed{@}",
    "roundedbox": r"\boxed{@}", "circle": r"\boxed{@}", "left": r"\left|@", "right": r"@\right|",
    "top": r"\overline{@}", "bottom": r"\underline{@}", "updiagonalstrike": r"\cancel{@}",
    "downdiagonalstrike": r"\bcancel{@}", "updiagonalarrow": r"\cancelto{}{@}",
    "verticalstrike": r"\hcancel{@}", "horizontalstrike": r"\hcancel{@}",
    "madruwb": r"\underline{@\right|}", "phasorangle": r"{\angle \underline{@}}",
}
LONGDIV = r"\overline{\left.\right)@}"
MATRICES = {("(", ")"): "pmatrix", ("[", "]"): "bmatrix", ("{", "}"): "Bmatrix", ("|", "|"): "vmatrix",
            ("||", "||"): "Vmatrix", ("", ""): "bmatrix"}
ACCENTS = (r"\hat", r"\bar", r"\underbrace", r"\overbrace")


class ArityFault(Exception):
    """The document must be rejected; .tags are the offending rendered elements."""

    def __init__(self, tags):
        Exception.__init__(self, ",".join(sorted(tags)))
        self.tags = set(tags)


def collapse(s):
    return " ".join(s.split())


def esc(s):
    return "".join("\\" + c if c in "%#$&_{}" else c for c in s)


def kids(node):
    return node[2] if isinstance(node[2], list) else []


def text(node):
    return "" if isinstance(node[2], list) else node[2].strip()


def attr(node, name, default=""):
    v = node[1].get(name)
    if v is None:
        return default
    return "" if v == name else v


def wrap(commands, s):
    for c in reversed(commands):
        s = "\\%s{%s}" % (c, s)
    return s


def mi(value, variant=""):
    v = collapse(value)
    r = MI.get(v) or FALLBACK.get(v) or esc(v)
    return wrap(MI_VARIANTS.get(variant, []), r)


def mo(value):
    v = collapse(value)
    if v in INVISIBLE:
        return ""
    return MO.get(v) or FALLBACK.get(v) or esc(v)


def mn(value):
    v = collapse(value)
    return MN.get(v) or esc(v)


def mtext(value, variant=""):
    cmds = TEXT_VARIANTS.get(variant, ["text"])
    out = ""
    i = 0
    while i < len(value):
        j = i
        while j < len(value) and (value[j].isspace() or (value[j].isascii() and value[j].isalnum())):
            j += 1
        if j > i:
            piece, i = wrap(cmds, value[i:j]), j
        else:
            piece, i = mi(value[i]), i + 1
        if piece and piece[0].isalpha() and re.search(r"\\[a-zA-Z]+$", out[-64:]):
            out += " "
        out += piece
    return out


def compound(node):
    while node[0] in ROWS and len(kids(node)) == 1:
        node = kids(node)[0]
    return node[0] in SCRIPTS or (node[0] in ROWS and len(kids(node)) > 1)


def has_table(nodes):
    return any(n[0] == "mtable" or has_table(kids(n)) for n in nodes)


def paren(s):
    return "\\left(" + s + "\\right)"


def render(node, in_table=False):
    """Raw rendering of one node (white space not yet normalised)."""
    tag, a, _ = node
    ks = kids(node)
    if tag == "mi":
        return mi(text(node), attr(node, "mathvariant"))
    if tag == "mo":
        return mo(text(node))
    if tag == "mn":
        return mn(text(node))
    if tag == "mtext":
        return mtext(text(node), attr(node, "mathvariant"))
    if tag == "mphantom":
        return ""
    inner = in_table or tag == "mtable"

    def r(k):
        return render(k, inner)

    def row():
        return " ".join(r(k) for k in ks)

    if tag == "math":
        return collapse(row())
    if tag in ("msub", "msup", "msubsup"):
        base = r(ks[0])
        if (len(kids(ks[0])) > 1 or compound(ks[0])) and len(base) > 1:
            base = paren(base)
        for mark, k in zip({"msub": "_", "msup": "^", "msubsup": "_^"}[tag], ks[1:]):
            base += mark + "{" + r(k) + "}"
        return base
    if tag == "mfrac":
        n, d = r(ks[0]), r(ks[1])
        if attr(node, "bevelled") not in ("", "false"):
            return "/".join(paren(x) if len(x) > 1 else x for x in (n, d))
        return "\\frac{%s}{%s}" % (n, d)
    if tag == "msqrt":
        return "\\sqrt{" + row() + "}"
    if tag == "mroot":
        x, i = r(ks[0]), r(ks[1])
        return "\\sqrt[%s]{%s}" % ("{" + i + "}" if "]" in i else i, x)
    if tag == "mfenced":
        o, c = attr(node, "open"), attr(node, "close")
        if has_table(ks):
            env = MATRICES.get((o, c))
            body = "\\begin{%s}\n%s\n\\end{%s}" % (env or "matrix", row(), env or "matrix")
            return body if env else "\\left" + o + body + "\\right" + c
        seps = [ch for ch in attr(node, "separators") if not ch.isspace()] or [","]
        s = ""
        for i, k in enumerate(ks):
            if i:
                s += seps[min(i - 1, len(seps) - 1)]
            s += r(k)
        return "\\left" + (o or "(") + s + "\\right" + (c or ")")
    if tag == "mtable":
        s = " \\\\\n".join(r(k) for k in ks)
        return "\\begin{matrix}" + s + "\\end{matrix}" if in_table else s
    if tag == "mtr":
        return " & ".join(r(k) for k in ks)
    if tag in ("mover", "munder"):
        content, accent = r(ks[0]), r(ks[1])
        if accent in ACCENTS:
            return accent + "{" + content + "}"
        return "\\%sset{%s}{%s}" % (tag[1:], accent, content)
    if tag == "munderover":
        base, u, o = (r(k) for k in ks)
        if compound(ks[0]):
            base = "{" + base + "}"
        return "%s_{%s}^{%s}" % (base, u, o)
    if tag == "mmultiscripts":
        base = r(ks[0])
        if compound(ks[0]) or any(ch.isspace() for ch in base):
            base = paren(base)
        marks = [i for i, k in enumerate(ks) if i and k[0] == "mprescripts"] or [len(ks)]

        def pairs(ns):
            t = [r(k) for k in ns] + ([""] if len(ns) % 2 else [])
            return ["_{%s}^{%s}" % (t[i], t[i + 1]) for i in range(0, len(t), 2)]

        pre = "".join("\\" + p for p in pairs(ks[marks[0] + 1:]))
        return pre + base + "{}".join(pairs(ks[1:marks[0]]))
    if tag == "maction":
        if attr(node, "actiontype") in ("", "toggle"):
            return " \\Longrightarrow ".join(r(k) for k in ks)
        return r(ks[0])
    if tag == "menclose":
        n = attr(node, "notation", None)
        return NOTATIONS.get(n, LONGDIV).replace("@", row())
    if tag == "merror":
        return "\\color{red}{" + row() + "}"
    return row()


def misfits(node):
    """(tag, number of children wanted, number found) of the rendered elements with a wrong number of children."""
    tag, ks = node[0], kids(node)
    if tag in TOKENS or tag == "mphantom":
        return set()
    out = set()
    if tag in ARITY and len(ks) != ARITY[tag]:
        out = {(tag, ARITY[tag], len(ks))}
    elif tag == "mmultiscripts" and len(ks) < 3:
        out = {(tag, 3, len(ks))}
    if tag == "maction" and attr(node, "actiontype") not in ("", "toggle"):
        if not ks:
            return {(tag, 1, 0)}
        ks = ks[:1]
    if tag == "mmultiscripts":  # what separates the prescripts is not rendered itself
        cut = next((i for i, k in enumerate(ks) if i and k[0] == "mprescripts"), 0)
        ks = ks[:cut] + ks[cut + 1:] if cut else ks
    for k in ks:
        out |= misfits(k)
    return out


def faults(node):
    """Tags of the rendered elements with a wrong number of children."""
    return {tag for tag, _, _ in misfits(node)}


def expected(roots):
    """The conversion of the outermost math elements `roots`; ArityFault if it must fail."""
    bad = set()
    for m in roots:
        bad |= faults(m)
    if bad:
        raise ArityFault(bad)
    return " ".join(s for s in (collapse(render(m)) for m in roots) if s)
