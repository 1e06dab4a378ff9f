"""Generators of MathML trees over an abstract source of choices (common.Src).

A profile says which elements may occur and how often, and which constructs are
left out (the known findings are left out by construction where a property's
oracle does not accept them)."""
from . import model

LETTERS = "xyzabcdefghijklmnopqrstuvwABCDEFGHIJKLMNOPQRSTUVWXYZ"
WORDS = ["sin", "cos", "max", "lim", "log", "ab", "foo", "Tr", "xyz", "mod", "AB", "velocity", "n1", "x2y", "don't"]
NUMBERS = ["0", "1", "2", "7", "12", "42", "3.14", "1,000", ".5", "-3", "0x1F", "1e10", "2/3", "1 000", "10%", "007",
           "12345678901234567890", "½", "٣", "0.30", "1.0", "+5", "1_000", "IV"]
OPS = ["+", "-", "=", "<", ">", "(", ")", "[", "]", ",", ";", "|", "/", "*", "!", ":", "≤", "≥", "→", "∑", "∫", "∈",
       "×", "·", "±", "∞", "∂", "≠", "⊗", "∪", "∧", "⇒", "…", "¯", "ˆ", "^", "⏞", "⏟", "~", "&", "%", "#", "$", "{", "}",
       "_", "||", "&&", "->", ":=", "==", "''", "′", "\\", "lim", "det", "\u2061", "\u2062", "\u2063", "\u2064"]
MI_SYMBOLS = sorted(k for k in model.MI if not k.startswith(("&", "%")) or len(k) == 1)
MO_SYMBOLS = sorted(k for k in model.MO if not k.startswith(("&#", "%C")) or len(k) == 1)
MN_SYMBOLS = sorted(model.MN)
FALLBACK_SYMBOLS = sorted(model.FALLBACK)
MI_COMMON = [c for c in "αβγδεθλμπρσφψωΓΔΘΛΞΠΣΦΨΩ∞ℝℕ∂∇ℏ" if c in model.MI or c in model.FALLBACK]
EXOTIC = ["ж", "я", "中", "文", "か", "אב", "ñ", "ß", "é", "ö", "Ä", "😀", "𝔸", "𝕏", "𝛼", "İ", "ſ", "\u212a", "e\u0301"]
REAL_NAMES = """mspace ms mglyph msgroup msrow mscarry mscarries msline mstack mlongdiv maligngroup malignmark mlabeledtr annotation annotation-xml
semantics ci cn csymbol cs bind bvar share apply interval lambda piecewise piece otherwise sin cos exp ln log root times divide power sum int limit set list vector matrix
matrixrow abs determinant declare reln sep condition domainofapplication degree momentabout logbase lowlimit uplimit fn cerror cbytes ident infinity pi none mark
span div p b i em strong sub sup table tr td th tbody thead tfoot br hr img a svg g path text style script title desc foreignObject template slot math-ml mi-x m none
mstyle mpadded mrow mtd math1 mathml row col frac sqrt over under fenced enclose multiscripts phantom error action number operator identifier OMOBJ OMS oMath r t
mtext-x bgroup mprescript prescripts mfraction munderover2 mpr mpadded1 mo1 mn1 mx msqr mroots menc merr mact mph mta""".split()
UNKNOWN = ["mspace", "ms", "mstyle", "semantics", "mtd", "mlabeledtr", "mglyph", "ms", "mspace", "annotation", "annotation-xml", "none",
           "maligngroup", "malignmark", "mstack", "mlongdiv", "mscarries", "custom", "x-y.z", "a_b", "MI", "Mrow", "mis",
           "msubs", "mo2", "é", "math2", "div", "span", "apply", "ci", "mfraction", "mtextual"]
KNOWN = set(model.TOKENS) | set(model.ARITY) | {"math", "mrow", "mstyle", "mpadded", "msqrt", "mfenced", "mmultiscripts", "mprescripts", "menclose",
                                                "merror", "maction", "mphantom", "mtable", "mtr"}


def near_names():
    """Names that differ a little from the known ones (as a search by prefix, part, case or typo would not)."""
    known = sorted(KNOWN | {"none"})
    out = []
    for t in known:
        out += [t + "x", "x" + t, t + "s", t.upper(), t.capitalize(), t[:-1], t[1:], t + "-" + t, t + "." + "a", "x-" + t, t + "1", t[0] + t, t + t[-1], "my" + t + "s",
                t[:-1] + t[-1].upper(), "sem" + t, t + "row", "_" + t]
    return [n for n in dict.fromkeys(out) if n and n not in KNOWN and n[0] not in "0123456789-." and not n.lower().startswith("xml")]


NEAR = near_names()

MI_VARIANTS = sorted(model.MI_VARIANTS)
TEXT_VARIANTS = sorted(model.TEXT_VARIANTS)
OTHER_VARIANTS = ["normal", "", "initial", "tailed", "looped", "Bold", "bold ", "mathvariant", "serif", "bold-sans", "none"]
NOTATIONS = sorted(model.NOTATIONS)
OPENS = ["(", "[", "|", "||", "", "<", "⟨", "⌈", "⌊", ".", "/", "\\langle", "((", "‖", "]", ")", "open", "\\{"]
CLOSES = [")", "]", "|", "||", "", ">", "⟩", "⌉", "⌋", ".", "/", "\\rangle", "))", "‖", "[", "(", "close", "\\}"]
SEPARATORS = [",", ";", ";,", ",;.", "|", "", " ", ";;", "; , .", "+-", ":", "·", "→", ",,", "abc", "12", "separators",
              ";|:/", "‚٫", "\t;", "!?", "-"]
ACCENT_CHARS = [k for k in MO_SYMBOLS if model.MO[k] in model.ACCENTS]
PRESENTATION = ["id", "class", "style", "href", "displaystyle", "scriptlevel", "mathcolor", "mathsize", "dir", "linethickness",
                "columnalign", "rowspacing", "stretchy", "fence", "form", "lspace", "accent", "accentunder", "data-x",
                "xml:lang", "width", "selection", "encoding", "innertable", "innerTable", "value", "name", "children",
                "rowspan", "columnspan", "largeop", "subscriptshift", "alttext", "display", "separator"]
# The attributes of MathML (and of HTML and word processors) with the values documents use.  Those
# with an effect on some element (EFFECTIVE) must have none on the others.
LENGTHS = ["0", "0em", "1em", "0.5ex", "thin", "medium", "thick", "veryverythickmathspace", "-1px", "50%", "+2mu", "100"]
BOOLS = ["true", "false", "1", "0", "", "yes"]
VOCABULARY = {
    "id": ["x", "1", "math"], "class": ["MJX-variant", "hidden", "limits"], "style": ["display:none", "color:red", "font-weight:bold"],
    "href": ["#a", "http://x.y/z"], "mathcolor": ["red", "#ff0000", "black", "transparent", "white"], "mathbackground": ["yellow", "transparent"], "background": ["red"],
    "color": ["red", "#f00"], "mathsize": ["big", "small", "normal"] + LENGTHS, "fontsize": ["12pt"], "fontweight": ["bold", "normal"],
    "fontstyle": ["italic", "normal"], "fontfamily": ["serif", "monospace"], "dir": ["rtl", "ltr"], "displaystyle": BOOLS,
    "scriptlevel": ["0", "1", "+1", "-1", "2"], "scriptminsize": LENGTHS, "scriptsizemultiplier": ["0.5"], "decimalpoint": [".", ","],
    "infixlinebreakstyle": ["before", "after", "duplicate"], "display": ["block", "inline", "none", "true", "false"], "mode": ["display", "inline"], "overflow": ["scroll", "linebreak", "elide", "truncate", "scale"],
    "alttext": ["x", "\\frac{1}{2}"], "altimg": ["x.png"], "altimg-width": ["1"], "cdgroup": ["x"], "maxwidth": LENGTHS, "baseline": ["top"],
    "form": ["prefix", "infix", "postfix"], "fence": BOOLS, "separator": BOOLS, "lspace": LENGTHS, "rspace": LENGTHS, "stretchy": BOOLS,
    "symmetric": BOOLS, "maxsize": LENGTHS + ["infinity"], "minsize": LENGTHS, "largeop": BOOLS, "movablelimits": BOOLS, "accent": BOOLS,
    "accentunder": BOOLS, "linebreak": ["newline", "nobreak", "auto"], "lineleading": LENGTHS, "linebreakstyle": ["before", "after", "duplicate", "infixlinebreakstyle"], "indentalign": ["left", "center", "right", "auto", "id"],
    "linebreakmultchar": ["\u2062", "\u00d7"], "indentshift": LENGTHS, "indenttarget": ["x"], "indentalignfirst": ["left", "indentalign"], "indentalignlast": ["right", "indentalign"],
    "indentshiftfirst": LENGTHS, "indentshiftlast": LENGTHS, "mslinethickness": LENGTHS, "leftoverhang": LENGTHS, "rightoverhang": LENGTHS, "linewrap": BOOLS, "breakable": BOOLS,
    "linethickness": LENGTHS, "numalign": ["left", "right", "center"], "denomalign": ["left", "right", "center"], "beveled": BOOLS, "bevel": BOOLS,
    "subscriptshift": LENGTHS, "superscriptshift": LENGTHS, "align": ["left", "right", "center", "axis", "baseline", "top", "bottom", "axis 2"], "width": LENGTHS, "height": LENGTHS,
    "depth": LENGTHS, "voffset": LENGTHS, "lquote": ["'", "\u201c"], "rquote": ["'", "\u201d"], "selection": ["1", "2", "0"], "alt": ["x"],
    "columnalign": ["left", "right left", "center", "right"], "rowalign": ["top", "baseline", "bottom", "center", "axis"], "columnlines": ["solid", "none solid", "dashed", "none"],
    "rowlines": ["solid", "none", "dashed"], "frame": ["solid", "none", "box", "dashed"], "framespacing": ["0.4em 0.5ex"], "rowspacing": LENGTHS, "columnspacing": LENGTHS,
    "columnwidth": ["auto", "fit"], "groupalign": ["left", "{left center}", "decimalpoint"], "alignmentscope": BOOLS, "equalrows": BOOLS, "equalcolumns": BOOLS, "side": ["left", "right", "leftoverlap", "rightoverlap"],
    "minlabelspacing": LENGTHS, "rowspan": ["1", "2", "0"], "columnspan": ["1", "2", "3"], "colspan": ["2"], "border": ["1"], "edge": ["left", "right"],
    "encoding": ["application/x-tex", "MathML-Presentation", "TeX", "MathML-Content", "application/mathml+xml", "application/mathml-presentation+xml", "application/mathml-content+xml", "text/html", "image/svg+xml", "LaTeX", "text/plain"], "definitionURL": ["x"], "src": ["x"], "cd": ["x"], "name": ["sin", "x"], "type": ["real"],
    "xref": ["x"], "other": ["x"], "value": ["1", "x"], "index": ["1"], "char": ["x"], "text": ["x"], "latex": ["x"], "tex": ["\\alpha"], "data-mjx-texclass": ["ORD", "OP"],
    "data-latex": ["\\pm"], "xml:lang": ["ar", "en"], "xml:space": ["preserve", "default"], "lang": ["ar"], "title": ["t"], "role": ["math", "presentation"],
    "aria-hidden": ["true"], "aria-label": ["x"], "hidden": ["", "true"], "visibility": ["hidden", "visible", "collapse"], "intent": ["f($x)"], "arg": ["x"], "tabindex": ["0"],
    "onclick": ["f()"], "innerTable": ["true", "1", "", "innerTable"], "innertable": ["true"], "children": ["0"], "tag": ["mi"], "tagName": ["mi"],
    "nodeName": ["mi"], "attributes": ["x"], "key": ["x"], "length": ["2"], "shift": ["1"], "position": ["1"], "location": ["n", "w", "nw", "s"], "crossout": ["updiagonalstrike", "none", "verticalstrike"], "carries": ["1"],
    "stackalign": ["left", "decimalpoint"], "charalign": ["left", "right"], "charspacing": ["loose", "tight"], "longdivstyle": ["lefttop", "stackedrightright"], "bracketed": BOOLS, "fences": ["[]"], "math": ["x"],
    "mathvariant": ["bold", "normal", "italic", "double-struck", "script", "fraktur", "monospace"], "open": ["[", "", "|"], "close": ["]", "", "|"],
    "separators": [";", "", ",;"], "bevelled": BOOLS, "notation": ["box", "radical", "left", "longdiv"], "actiontype": ["toggle", "tooltip", ""],
    "variant": ["bold"], "math-variant": ["bold"], "mathVariant": ["bold"], "Mathvariant": ["bold"], "MATHVARIANT": ["bold"], "Open": ["["], "CLOSE": ["]"],
    "Separators": [";"], "separater": [";"], "seperators": [";"], "Bevelled": ["true"], "Notation": ["box"], "actionType": ["tooltip"], "action": ["tooltip"],
}
EFFECTIVE = {"mathvariant": ("mi", "mtext"), "open": ("mfenced",), "close": ("mfenced",), "separators": ("mfenced",),
             "bevelled": ("mfrac",), "notation": ("menclose",), "actiontype": ("maction",)}
VOCABULARY_NAMES = sorted(VOCABULARY)
# what harvest.install() finds in the code under test and nowhere else
EXTRA = []
MORE_SIZES = []



def near_values(name, values):
    """Attribute values that differ a little from those with a meaning (also a long list of odd ones)."""
    out = ["", " ", name, name.upper(), name.capitalize(), name + " ", " " + name, name + name, name[:-1], "true", "false", "0", "1", "none", "null", "None", "\t", "\u00a0", "\u200b"]
    for v in values:
        out += [v.upper(), v.capitalize(), " " + v, v + " ", v + "\u00a0", v + v, v + " " + v, v[:-1], v[1:], v + "x", "x" + v, v + "s", v.replace("-", ""), v.replace("-", " "), v.replace("-", "_"),
                v + "-" + v, v + ",", v + "\\", '"' + v + '"', "'" + v + "'", v[::-1], v + " none", "normal " + v]
    return [v for v in dict.fromkeys(out) if v not in values]


NEAR_VALUES = {"mathvariant": near_values("mathvariant", MI_VARIANTS), "notation": near_values("notation", NOTATIONS + ["longdiv"]),
               "actiontype": near_values("actiontype", ["toggle", "statusline", "tooltip", "input"]), "bevelled": near_values("bevelled", ["true", "false"]),
               "open": near_values("open", ["(", "[", "{", "|", "||", "<", "⟨", "\\{", "\\langle", "."]),
               "close": near_values("close", [")", "]", "}", "|", "||", ">", "⟩", "\\}", "\\rangle", "."]),
               "separators": near_values("separators", [",", ";", ";,", "|", ",;."])}

CONTAINERS = {  # weights of element kinds in mixed trees
    "mrow": 16, "msup": 6, "msub": 6, "msubsup": 5, "mfrac": 7, "msqrt": 5, "mroot": 4, "mfenced": 7, "mover": 4,
    "munder": 4, "munderover": 4, "mmultiscripts": 4, "menclose": 3, "merror": 2, "maction": 2, "mphantom": 2,
    "mtable": 3, "mstyle": 3, "mpadded": 3, "unknown": 4, "math": 1,
}


class Profile:
    def __init__(self, weights=None, boost=None, depth=4, valid=False, token=None, wide=6, plain_tokens=False,
                 prescripts=True, presentation=6, drop=()):
        w = dict(CONTAINERS if weights is None else weights)
        for k, v in (boost or {}).items():
            w[k] = v
        for k in drop:
            w.pop(k, None)
        self.weights = [(v, k) for k, v in sorted(w.items(), key=lambda kv: (kv[0] != "mrow", kv[0])) if v]
        self.depth, self.valid, self.token, self.wide = depth, valid, token, wide
        self.plain_tokens, self.prescripts, self.presentation = plain_tokens, prescripts, presentation


# ------------------------------------------------------------------ tokens

def unicode_char(src):
    """A printable character from anywhere in Unicode that XML allows."""
    lo, hi = src.choice([(0x21, 0x7e), (0xa1, 0x17f), (0x370, 0x3ff), (0x400, 0x45f), (0x2010, 0x2027), (0x2030, 0x205e),
                         (0x2070, 0x209c), (0x20a0, 0x20bf), (0x2100, 0x214f), (0x2190, 0x21ff), (0x2200, 0x22ff),
                         (0x2300, 0x23ff), (0x25a0, 0x25ff), (0x27c0, 0x27ff), (0x2900, 0x297f), (0x2980, 0x29ff),
                         (0x2a00, 0x2aff), (0x4e00, 0x4eff), (0x1d400, 0x1d7ff), (0x1f600, 0x1f64f)])
    return chr(src.between(lo, hi))


def mi_text(src, plain=False):
    if EXTRA and src.chance(12):
        return src.choice(EXTRA)
    k = src.weighted([(40, "letter"), (12, "word"), (14, "common"), (10, "symbol"), (6, "fallback"), (5, "exotic"),
                      (4, "special"), (4, "char"), (2, "long"), (2, "empty")])
    if plain and k in ("symbol", "fallback", "exotic", "special", "char", "empty"):
        k = "letter"
    if k == "letter":
        return src.choice(LETTERS)
    if k == "word":
        return src.choice(WORDS)
    if k == "common":
        return src.choice(MI_COMMON)
    if k == "symbol":
        return src.choice(MI_SYMBOLS)
    if k == "fallback":
        return src.choice(FALLBACK_SYMBOLS)
    if k == "exotic":
        return src.choice(EXOTIC)
    if k == "special":
        return src.choice(["%", "#", "$", "&", "_", "{", "}", "a_b", "x%", "C#", "{x", "y}", "$a$", "a&b", "a b", "^", "~"])
    if k == "char":
        return unicode_char(src)
    if k == "long":
        return src.choice(LETTERS) * src.between(8, 40)
    return ""


def mo_text(src, plain=False):
    if EXTRA and src.chance(12):
        return src.choice(EXTRA)
    k = src.weighted([(60, "op"), (25, "symbol"), (5, "fallback"), (4, "word"), (4, "char"), (2, "empty")])
    if plain and k != "op":
        k = "op"
    if k == "op":
        return src.choice(OPS)
    if k == "symbol":
        return src.choice(MO_SYMBOLS)
    if k == "fallback":
        return src.choice(FALLBACK_SYMBOLS)
    if k == "word":
        return src.choice(["mod", "if", "and", "lim", "a&b", "x_", "100%", "of $", "#{", "d x"])
    if k == "char":
        return unicode_char(src)
    return ""


def mn_text(src, plain=False):
    if EXTRA and src.chance(12):
        return src.choice(EXTRA)
    k = src.weighted([(40, "pool"), (40, "digits"), (10, "symbol"), (8, "mixed"), (2, "long")])
    if plain and k in ("symbol", "mixed"):
        k = "digits"
    if k == "pool":
        return src.choice(NUMBERS)
    if k == "digits":
        return "".join(src.choice("0123456789") for _ in range(src.between(1, 6)))
    if k == "symbol":
        return src.choice(MN_SYMBOLS)
    if k == "mixed":
        return "".join(src.choice("0123456789.,-+ %$#_{}&'abcXeE/") for _ in range(src.between(1, 8))).strip()
    return "".join(src.choice("0123456789") for _ in range(src.between(20, 80)))


TEXT_CHARS = "abcXYZ0129  .,-+%#$&_{}^~\\'\"()[]<>=!?:;/|@*`\u00a0\u2003αβ→≤∑éñÅ中ж½²№😀𝔸"


def text_text(src, plain=False):
    if EXTRA and src.chance(12):
        return src.choice(EXTRA) + src.choice(["", "", " a", "1"])
    k = src.weighted([(40, "words"), (40, "mixed"), (10, "pair"), (5, "long"), (5, "one")])
    if plain:
        k = "words"
    if k == "words":
        return " ".join(src.choice(WORDS[:-1] + ["if", "and", "for all", "otherwise"]) for _ in range(src.between(1, 4)))
    if k == "mixed":
        return "".join(src.choice(TEXT_CHARS) for _ in range(src.between(1, 10)))
    if k == "pair":
        return src.choice(MI_SYMBOLS + FALLBACK_SYMBOLS) + src.choice(list("aZ1 .") + ["é", "中", "α", "ℝ", "\u00a0"])
    if k == "long":
        return " ".join(src.choice(WORDS) for _ in range(src.between(5, 30)))
    return unicode_char(src)


TEXTS = {"mi": mi_text, "mo": mo_text, "mn": mn_text, "mtext": text_text}


def variant(src, tag):
    if EXTRA and src.chance(5):
        return src.choice(EXTRA)
    if src.chance(8):
        return src.choice(NEAR_VALUES["mathvariant"])
    pool = MI_VARIANTS if tag == "mi" else TEXT_VARIANTS + ["script", "sans-serif"]
    return src.choice(pool) if not src.chance(15) else src.choice(OTHER_VARIANTS)


def token(src, p):
    if p.token is not None:
        return p.token(src)
    tag = src.weighted([(45, "mi"), (20, "mn"), (25, "mo"), (10, "mtext")])
    a = {}
    if tag in ("mi", "mtext") and src.chance(15):
        a["mathvariant"] = variant(src, tag)
    return [tag, a, safe(TEXTS[tag](src, p.plain_tokens), tag)]


def safe(t, tag):
    """Keep tokens to what XML can carry; a text already trimmed stays what it is."""
    return "".join(c for c in t if c in "\t\n\r" or " " <= c < "\ud800" or "\ue000" <= c < "\ufffe" or c >= "\U00010000")


# ------------------------------------------------------------------ trees

def count(src, p, lo=0):
    k = src.weighted([(30, 2), (25, 1), (18, 3), (8, 4), (6, 0), (3, -1)])
    if k == -1:
        k = src.between(5, max(5, p.wide))
    return max(lo, k)


def nodes(src, p, d, n):
    out = [tree(src, p, d) for _ in range(n)]
    if n > 1 and src.chance(7):
        i = src.below(n - 1)
        out[i + 1] = near_copy(src, out[i])
    return out


def clone(n):
    return [n[0], dict(n[1]), n[2] if isinstance(n[2], str) else [clone(k) for k in n[2]]]


def near_copy(src, n):
    """The same again, or with an attribute, a text or its children changed a little."""
    c = clone(n)
    k = src.choice(["same", "plain", "text", "kids"])
    if k == "plain":
        c[1] = {}
    elif k == "text" and isinstance(c[2], str):
        c[2] = src.choice(["x", "1", "+", "", c[2] + "1", "α"])
    elif k == "kids" and isinstance(c[2], list) and len(c[2]) > 1 and c[0] not in ("mmultiscripts", "mtr", "mtable", "mtd") and "mprescripts" not in [x[0] for x in c[2]]:
        c[2] = c[2][::-1]
    return c


def tree(src, p, d=None):
    if d is None:
        d = p.depth
    if d <= 0 or src.chance(30):
        n = token(src, p)
    else:
        n = build(src, p, src.weighted(p.weights), d - 1)
    if p.presentation and src.chance(p.presentation):
        decorate(src, n)
    return n


def decorate(src, n):
    """Adds attributes that have no effect on this element."""
    for _ in range(src.between(1, 3)):
        if src.chance(25):
            k = src.choice(sorted(EFFECTIVE))
            if n[0] in EFFECTIVE[k]:
                continue
            v = src.choice(["bold", "[", "true", "box", "toggle", "circle", ";", "statusline"])
        elif src.chance(60):
            k = src.choice(VOCABULARY_NAMES)
            if n[0] in EFFECTIVE.get(k, ()):
                continue
            v = src.choice(VOCABULARY[k])
        else:
            k, v = src.choice(PRESENTATION), src.choice(["", "true", "false", "0", "1em", "a b", "<&\"'>", "innerTable", "bold", "é"])
        n[1].setdefault(k, v)


def fences(src, p, a, table=False):
    pool_o, pool_c = OPENS, CLOSES
    if p.valid:
        if table:
            pool_o = ["(", "[", "|", "||", "", "<", "/", "."]
            pool_c = [")", "]", "|", "||", "", ">", "/", "."]
        else:
            pool_o = ["(", "[", "|", "", "<", ".", "/", "⟨", "⌈", "]", ")"]
            pool_c = [")", "]", "|", "", ">", ".", "/", "⟩", "⌉", "[", "("]
    mode = src.weighted([(30, "pair"), (25, "none"), (25, "mixed"), (10, "open"), (10, "close")])
    if mode == "pair":
        i = src.below(5)
        a["open"], a["close"] = OPENS[i], CLOSES[i]
        if table and src.chance(15) and not p.valid:
            a["open"], a["close"] = "{", "}"
    elif mode == "mixed":
        a["open"], a["close"] = src.choice(pool_o), src.choice(pool_c)
    elif mode == "open":
        a["open"] = src.choice(pool_o)
    elif mode == "close":
        a["close"] = src.choice(pool_c)
    if not p.valid and src.chance(8):
        k = src.choice(["open", "close"])
        a[k] = src.choice(NEAR_VALUES[k])
    if p.valid and table and (not a.get("open")) != (not a.get("close")):
        a["open"] = a["close"] = "<"
    if p.valid and not table and "||" in (a.get("open"), a.get("close")):
        a["open"] = a["close"] = "|"


def table(src, p, d):
    rows = src.weighted([(30, 2), (20, 1), (15, 3), (5, 0), (5, 5)])
    cols = src.weighted([(30, 2), (20, 1), (15, 3), (5, 0), (5, 6)])
    out = []
    for _ in range(rows):
        c = cols if not src.chance(15) else src.between(0, 4)
        out.append(["mtr", {}, [["mtd", {}, nodes(src, p, d - 1, src.weighted([(60, 1), (20, 2), (10, 0)]))] for _ in range(c)]])
    return ["mtable", {}, out]


def build(src, p, tag, d):
    """An element of the given kind with children of depth at most d."""
    a = {}
    if tag == "unknown":
        return [src.choice(UNKNOWN) if src.chance(50) else src.choice(NEAR + REAL_NAMES * 3), a, nodes(src, p, d, count(src, p))]
    if tag in model.ARITY:
        if tag == "mfrac" and src.chance(30):
            a["bevelled"] = src.choice(["true", "true", "false", "", "bevelled", "yes", "0", "False"] if not src.chance(20) else NEAR_VALUES["bevelled"])
        ks = nodes(src, p, d, model.ARITY[tag])
        if tag in ("mover", "munder") and src.chance(40):
            ks[1] = ["mo", {}, src.choice(ACCENT_CHARS)]
        if tag in ("msup", "msub", "msubsup", "munderover") and src.chance(35):
            ks[0] = hard_base(src, p, d)
        return [tag, a, ks]
    if tag == "mfenced":
        tab = d >= 1 and src.chance(30) and any(k == "mtable" for _, k in p.weights)
        fences(src, p, a, tab)
        if src.chance(45):
            a["separators"] = src.choice(SEPARATORS if not p.valid else [",", ";", ";,", "|", "", " ", ":;.", "+"])
        if tab:
            ks = [table(src, p, d)]
            if src.chance(15) and not p.valid:
                ks.insert(src.below(2), tree(src, p, d - 1))
            if src.chance(10) and not p.valid:
                ks = [["mrow", {}, ks]]
        else:
            ks = nodes(src, p, d, src.weighted([(20, 2), (20, 1), (20, 3), (10, 4), (8, 0), (8, 6), (3, p.wide)]))
            if p.valid and model.has_table(ks) and bool(a.get("open")) != bool(a.get("close")):
                a["open"] = a["close"] = "|"
        return [tag, a, ks]
    if tag == "mtable":
        if p.valid:
            n = ["mfenced", a, [table(src, p, d)]]
            fences(src, p, a, True)
            return n
        return table(src, p, d)
    if tag == "mmultiscripts":
        base = hard_base(src, p, d) if src.chance(35) else tree(src, p, d)
        pre = src.weighted([(30, 0), (15, 2), (8, 1), (8, 4), (4, 3), (2, 6)]) if p.prescripts else 0
        post = src.weighted([(30, 2), (10, 0), (10, 4), (10, 1), (6, 3), (4, 6)])
        if pre + post + (1 if pre else 0) < 2:
            post = 2
        ks = [base] + nodes(src, p, d, post)
        if pre or (p.prescripts and post >= 2 and src.chance(5)):
            ks += [["mprescripts", {}, []]] + nodes(src, p, d, pre)
        for i in range(1, len(ks)):
            if ks[i][0] != "mprescripts" and src.chance(12):
                ks[i] = ["none" if not src.chance(20) else src.choice(NEAR), {}, []]
                if ks[i][0] != "none" and src.chance(50):
                    ks[i][2] = [token(src, p)]
        return [tag, a, ks]
    if tag == "menclose":
        if src.chance(85):
            pool = NOTATIONS
            if p.valid:
                pool = [n for n in NOTATIONS if n not in ("left", "right", "madruwb")]
            a["notation"] = src.choice(pool + ["longdiv"]) if not src.chance(12) else src.choice(
                ["", "unknown", "Box", "notation", "box circle", "long"] + NEAR_VALUES["notation"])
        return [tag, a, nodes(src, p, d, count(src, p))]
    if tag == "maction":
        if src.chance(70):
            a["actiontype"] = src.choice(["toggle", "statusline", "tooltip", "input", "", "actiontype", "Toggle", "highlight"] if not src.chance(15) else NEAR_VALUES["actiontype"])
        return [tag, a, nodes(src, p, d, count(src, p, 1))]
    return [tag, a, nodes(src, p, d, count(src, p))]


def hard_base(src, p, d):
    """A base that has to be grouped, hidden in rows at random."""
    k = src.choice(["row", "script", "one", "unknown"])
    if k == "row":
        n = ["mrow", {}, nodes(src, p, max(0, d - 1), src.between(2, 3))]
    elif k == "script":
        n = build(src, p, src.choice([t for t in model.SCRIPTS if any(t == u for _, u in p.weights)] or ["msup"]), max(0, d - 2))
    elif k == "unknown":
        n = [src.choice(UNKNOWN[:3] + ["custom"] if not src.chance(20) else NEAR), {}, nodes(src, p, max(0, d - 1), src.between(1, 3))]
    else:
        n = tree(src, p, 0)
    for _ in range(src.weighted([(50, 0), (30, 1), (15, 2), (5, 4)])):
        n = [src.choice(model.ROWS), {}, [n]]
    return n


def math(src, p, lo=1, hi=3):
    return ["math", {}, nodes(src, p, p.depth, src.between(lo, hi))]


# ------------------------------------------------------------------ canonical text

def esc_text(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def esc_attr(v):
    return esc_text(v).replace('"', "&quot;").replace("\t", "&#9;").replace("\n", "&#10;")


def xml(node):
    """The plain serialisation of a node."""
    out = []

    def go(n):
        # "#before" and "#after" are text between elements, not attributes
        if "#before" in n[1]:
            out.append(esc_text(n[1]["#before"]))
        out.append("<" + n[0] + "".join(' %s="%s"' % (k, esc_attr(v)) for k, v in n[1].items() if k[0] != "#"))
        if not n[2]:
            out.append(" />" if n[2] == [] else "></" + n[0] + ">")
            out.append(esc_text(n[1].get("#after", "")))
            return
        out.append(">")
        if isinstance(n[2], str):
            out.append(esc_text(n[2]))
        else:
            for k in n[2]:
                go(k)
        out.append("</" + n[0] + ">")
        if "#after" in n[1]:
            out.append(esc_text(n[1]["#after"]))

    go(node)
    return "".join(out)


def size(node):
    return 1 + sum(size(k) for k in model.kids(node))


def depth(node):
    return 1 + max([depth(k) for k in model.kids(node)] or [0])


def walk(node):
    yield node
    for k in model.kids(node):
        for n in walk(k):
            yield n
