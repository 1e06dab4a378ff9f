"""C11-C14: text, identifier, operator and number tokens."""
import itertools
import re
import unicodedata

from . import gen, harvest, model
from .common import Violation, call
from .prop import SHAPES, Prop, T, atoms, chain, check_roots, filled, in_holes, outfits, pairs, stats, REAL

SPACES = " \t\n\r\u00a0\u2003\u2009\u3000\u2028"


def doc(*tokens):
    return {"roots": [["math", {}, list(tokens)]]}


def around(src, tok):
    """The token somewhere in a small document."""
    k = src.weighted([(50, 0), (30, 1), (20, 2)])
    n = tok
    for _ in range(k):
        s = src.choice(sorted(SHAPES))
        n = filled(s, src.below(SHAPES[s][0]), n, src.choice(["mi", "mn", "greek", "text"]))
    ks = [n]
    if src.chance(40):
        ks.insert(src.below(2), gen.token(src, gen.Profile()))
    return {"roots": [["math", {}, ks]]}


class TokenProp(Prop):
    tags = ()
    quick = 28000
    thorough = 200000

    def harvested(self, tier):
        for m in harvest.trees(self.tags, None, tier, tokens_only=True, most=10000):
            yield {"roots": [m]}
        strings = harvest.flat()
        variants = sorted(set(gen.MI_VARIANTS) | set(gen.TEXT_VARIANTS)) + ["normal", ""]
        for t in self.tags:
            for f in ("%s", "a%s", "%sa", "1%s", "%s1", "%s.", "(%s)", "%s %s", "%s%s", "α%s", "%sα", "x y %s", "%s x y", "\u00a0%s", "-%s", "%s%%"):
                yield from batches(t, [f.replace("%s", s) for s in strings if t != "mo" or s != "_"])
            if t in ("mi", "mtext"):
                for v in variants:
                    yield from batches(t, strings, {"mathvariant": v})
                for v in strings[:200]:
                    yield from batches(t, ["x", "sin", "α", "a b"] + gen.EXTRA[:12], {"mathvariant": v})

    def check(self, case):
        check_roots(case)
        ns, tags = stats(case["roots"])
        toks = [n for n in ns if n[0] in self.tags]
        return any(len(n[2]) > 1 or n[1] or not n[2].isascii() for n in toks), [
            "length<=%d" % next(b for b in (0, 1, 4, 16, 64, 10 ** 9) if max(len(n[2]) for n in toks) <= b)] if toks else []


def token_places(tags, tier, every=11):
    """The tokens of the atoms in every hole, and beside every other atom."""
    for m in in_holes([n for n in atoms().values() if n[0] in tags]):
        yield {"roots": [m]}
    for m in pairs(tags, every=every if tier == "quick" else 1):
        yield {"roots": [m]}


def dressed_up(tokens, tier, docs):
    """The tokens with the attributes of MathML that mean nothing for what they render as."""
    for m in outfits(tokens, docs if tier == "quick" else docs * 8):
        yield {"roots": [m]}


LENGTHS = (9, 17, 33, 65, 100, 129, 257, 513, 1025, 4097)  # of runs in long tokens, and one character around them


def batches(tag, texts, attrs=None, size=120):
    """Many tokens in few documents; a failing one is shrunk to the token that matters."""
    texts = list(texts)
    for i in range(0, len(texts), size):
        yield doc(*[[tag, dict(attrs or {}), t] for t in texts[i:i + size]])


ASCII = "".join(map(chr, range(0x20, 0x7f)))


def strings(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


# characters that change the one before them or the run they stand in, and that are easily taken for nothing
MODIFIERS = ("\ufe0e", "\ufe0f", "\u200d", "\u200c", "\u200b", "\u2060", "\ufeff", "\u00ad", "\u0338", "\u0301", "\u0302", "\u0305", "\u20d7", "\u0331", "\u200e", "\u2062", "\u2061",
             "\u2032", "'", "*", "\U000e0100", "\U0001f3fb", "\ufe00", "\u034f", "\u0307", "\u20dd")


def modified(chars, mods=MODIFIERS):
    for c in chars:
        for m in mods:
            yield c + m
            yield m + c
            yield "a" + c + m + "1"


class C11(TokenProp):
    id = "C11"
    tags = ("mtext",)
    rule = """Text tokens over letters, digits, white space (non-breaking and Unicode ones too), punctuation, LaTeX specials,
    dictionary symbols and other non-ASCII characters, 0 to 200 characters, with all variants, alone or within up to two random
    elements; output compared with the reference rendering and the letters and digits read back from it; every ordered pair of
    26 representative characters and every ASCII character in 4 surroundings are enumerated.
    Non-trivial: more than one character, a variant or a non-ASCII character."""

    def enumerate(self, tier):
        yield from token_places(("mtext",), tier)
        yield from dressed_up([["mtext", {} if v is None else {"mathvariant": v}, t] for v in (None, "bold", "italic", "bold-italic", "double-struck", "monospace", "fraktur", "normal")
                               for t in ("a", "if", "two words", " and ", "a\u00a0b", ",", "α", "x = 1", "50%", "é", "1", "", "\u00a0", "a_b", "f(x)", "A.B")], tier, 12)
        for v in gen.NEAR_VALUES["mathvariant"]:
            for t in ("word", "a α b"):
                yield doc(["mtext", {"mathvariant": v}, t], ["mtext", {}, t])
        reps = "aZ0 9.,-'(%#$&_{}^~\\\"αé→中\u00a0²😀"
        variants = [None, "", "normal", "italics", "Bold", "mathvariant"] + sorted(set(gen.TEXT_VARIANTS) | set(gen.MI_VARIANTS))
        for a in reps:
            for b in reps:
                yield doc(["mtext", {}, a + b])
                for c in reps if tier == "thorough" else "a 0α%":
                    yield doc(["mtext", {}, a + b + c])
        for i in list(range(0x20, 0x7f)) + list(range(0xa1, 0x180)) + list(range(0x370, 0x400)) + list(range(0x2010, 0x2030)):
            c = chr(i)
            for t in (c, "a" + c, c + "1", "a " + c + " b"):
                if not (c.isspace() and t == c):
                    yield doc(["mtext", {}, t])
        for v in variants:
            for t in ("word", "two words", "α", "a α b", "", "é", "1", "x=1", "50%", "a\u00a0b"):
                yield doc(["mtext", {} if v is None else {"mathvariant": v}, t])
        for n in LENGTHS + (20001, 70001) + tuple(gen.MORE_SIZES):
            for v in (None, "bold", "monospace", "bold-fraktur"):
                a = {} if v is None else {"mathvariant": v}
                word = "".join(chr(97 + i * 7 % 26) for i in range(n))
                for t in (word, word[:-1] + " " + word, " ".join(word[i:i + 5] for i in range(0, n, 5)), "x" + " " * n + "y", "7" * n, word + "α" + word, "α" + word, word + "é"):
                    yield doc(["mtext", a, t], T("mi", "z"))
                if n < 5000:
                    for t in ("α" * n, "αx" * n, "é " * n + ".", "a%" * n, "→" + word + "∑ ", "#$" * n, ("word α " * n)[:n] + ".", ".,;" * n, "中" * n, "²x" * n):
                        yield doc(["mtext", a, t.strip()], T("mi", "z"))
        yield from batches("mtext", strings(ASCII, 2, 2))
        yield from batches("mtext", strings("aZ0 .-%α", 3, 4 if tier == "quick" else 5))
        yield from batches("mtext", strings(ASCII[::3] + "é", 2, 2), {"mathvariant": "bold-italic"})
        yield from batches("mtext", modified(list("aZ0.% ") + gen.FALLBACK_SYMBOLS[::9] + gen.MI_SYMBOLS[::9]))
        for s in SPACES:
            for t in ("a%sb", "%sa", "a%s", "a%s%sb", "a %s b", "1%s2", "α%sβ", "a%sα", "α%sb", ".%s."):
                yield doc(["mtext", {}, t.replace("%s", s)], T("mi", "x"))

    def gen(self, src, tier):
        k = src.weighted([(30, "chars"), (20, "text"), (20, "pair"), (20, "words"), (5, "long"), (5, "uni")])
        if k == "chars":
            t = "".join(src.choice(gen.TEXT_CHARS) for _ in range(src.between(1, 12)))
        elif k == "text":
            t = gen.text_text(src)
        elif k == "pair":
            t = "".join(src.choice([src.choice(gen.MI_SYMBOLS), src.choice(gen.FALLBACK_SYMBOLS), "a", "B1", " ", ".", "中"])
                        for _ in range(src.between(1, 6)))
        elif k == "words":
            t = src.choice(SPACES).join(src.choice(gen.WORDS + ["if", "and"]) for _ in range(src.between(1, 8)))
        elif k == "long":
            t = "".join(src.choice("abc 01 .,α") for _ in range(src.between(30, 200)))
        else:
            t = "".join(gen.unicode_char(src) for _ in range(src.between(1, 6)))
        a = {}
        if src.chance(50):
            a["mathvariant"] = gen.variant(src, "mtext")
        return around(src, ["mtext", a, gen.safe(t, "mtext")])

    def check(self, case):
        r = TokenProp.check(self, case)
        ks = model.kids(case["roots"][0])
        if len(ks) == 1 and ks[0][0] == "mtext" and not any(c in model.MI or c in model.FALLBACK for c in ks[0][2]):
            # plain words can be read back: drop the commands, keep what they hold
            out = call(gen.xml(case["roots"][0])).value
            back = re.sub(r"\\[a-z]+\{", "", out).replace("}", "")
            if "\\" not in back and model.collapse(back) != model.collapse(ks[0][2]):
                raise Violation("the text does not read back\n  text:   %r\n  output: %r" % (ks[0][2], out))
        return r


class C12(TokenProp):
    id = "C12"
    tags = ("mi",)
    rule = """Identifiers with every font variant and other values of the attribute, contents from letters, words, dictionary symbols,
    accented letters and arbitrary characters, alone, next to other identifiers with variants, and inside elements that carry
    variants themselves; output compared with the reference rendering, and with the rendering of the same identifier without
    the attribute wrapped in the variant's commands; all variants with 60 contents are enumerated.
    Non-trivial: a variant is present or the content is not a single letter."""

    def enumerate(self, tier):
        yield from token_places(("mi",), tier, 19)
        yield from dressed_up([["mi", {} if v is None else {"mathvariant": v}, t] for v in [None, "normal", "initial", "Bold"] + gen.MI_VARIANTS
                               for t in ("x", "R", "α", "sin", "ab", "1", "é", "∞", "", "x y", "%", "lim", "Γ")], tier, 10)
        for v in gen.NEAR_VALUES["mathvariant"]:
            for t in ("x", "sin", "α"):
                yield doc(["mi", {"mathvariant": v}, t], ["mi", {}, t])
        contents = list("xXaR1") + ["sin", "αβ", "α", "Ω", "ℝ", "é", "Å", "ж", "中", "∞", "%", "_", "{", "a_b", "x y", "", "𝒳", "𝔸", "ⁿ", "²", "∂", "ℏ", "^", "~",
                                    "\\", "⊕", "dx", "Tr", "K", "ÿ", "'", "⅓", "&", "10", "a1"]
        values = gen.MI_VARIANTS + [v for v in gen.OTHER_VARIANTS] + ["BOLD", "bolditalic", "bold italic", "doublestruck", "fraktur-bold",
                                                                    "sans", "italic bold", "monospaced", "bold-sans-serif-italic", "script-bold"]
        for v in values:
            for c in contents:
                yield doc(["mi", {"mathvariant": v}, c])
            for o in (["mn", {"mathvariant": v}, "2"], ["mo", {"mathvariant": v}, "+"], ["mrow", {"mathvariant": v}, [T("mi", "y")]],
                      ["mstyle", {"mathvariant": v}, [T("mi", "y"), T("mi", "z")]], ["ms", {"mathvariant": v}, "s"]):
                yield doc(["mi", {"mathvariant": v}, "x"], o, T("mi", "x"))
            yield {"roots": [["math", {"mathvariant": v}, [T("mi", "x"), ["mtext", {}, "t"], T("mn", "1")]]]}
            for w in values[:13]:
                yield doc(["mi", {"mathvariant": v}, "x"], ["mi", {"mathvariant": w}, "x"], ["mtext", {"mathvariant": w}, "x"])
        for n in LENGTHS + (70001,) + tuple(gen.MORE_SIZES):
            for v in ("bold", "sans-serif-bold-italic", "normal", "double-struck"):
                for t in ("x" * n, "ж" * n, "a b " * n, "a_b" * n, "%" * n):
                    yield doc(["mi", {"mathvariant": v}, t.strip()], ["mi", {"mathvariant": v}, "x"], T("mi", t.strip()))
            if n < 5000:
                yield doc(*[["mi", {"mathvariant": values[i % len(values)]}, "abc"[i % 3]] for i in range(n)])
                yield doc(*([["mi", {"mathvariant": "bold"}, "x"]] * n + [T("mi", "x"), ["mi", {"mathvariant": "italic"}, "x"]]))
        for a in ({"mathVariant": "bold"}, {"variant": "bold"}, {"fontweight": "bold"}, {"fontstyle": "italic"}, {"mathvariants": "bold"}):
            yield doc(["mi", a, "x"])

    def gen(self, src, tier):
        a = {"mathvariant": gen.variant(src, "mi")}
        c = gen.safe(gen.mi_text(src), "mi") if not src.chance(10) else gen.unicode_char(src)
        case = around(src, ["mi", a, c])
        for n in gen.walk(case["roots"][0]):
            if n[0] != "mi" and src.chance(20):
                n[1]["mathvariant"] = gen.variant(src, "mi")
        return case

    def check(self, case):
        r = TokenProp.check(self, case)
        for n in gen.walk(case["roots"][0]):
            if n[0] == "mi" and "mathvariant" in n[1] and model.mi(model.text(n)).strip() == model.mi(model.text(n)):
                a = call(gen.xml(["math", {}, [n]]))
                b = call(gen.xml(["math", {}, [["mi", {}, n[2]]]]))
                if a.ok and b.ok:
                    want = model.collapse(model.wrap(model.MI_VARIANTS.get(model.attr(n, "mathvariant"), []), b.value))
                    if a.value != want:
                        raise Violation("the variant does not wrap the plain rendering\n  input:    %s\n  expected: %r\n  got:      %r" % (gen.xml(n), want, a.value))
        return r


# ------------------------------------------------------------------ C13

def entries():
    for tag, pool in (("mi", gen.MI_SYMBOLS + gen.FALLBACK_SYMBOLS), ("mo", gen.MO_SYMBOLS + gen.FALLBACK_SYMBOLS),
                      ("mn", gen.MN_SYMBOLS), ("mtext", gen.MI_SYMBOLS + gen.FALLBACK_SYMBOLS)):
        for c in pool:
            yield tag, c
    for tag, t in (("mi", model.MI), ("mo", model.MO)):
        for c in sorted(t):
            if c.startswith(("&", "%")) and len(c) > 1:  # written twice escaped
                yield tag, c


GREEK = {}
for _c in range(0x391, 0x3ca):
    _m = re.match(r"GREEK (SMALL|CAPITAL) LETTER (ALPHA|BETA|GAMMA|DELTA|EPSILON|ZETA|ETA|THETA|IOTA|KAPPA|LAMDA|MU|NU|XI|PI|RHO|SIGMA|TAU|UPSILON|PHI|CHI|PSI|OMEGA)$",
                  unicodedata.name(chr(_c), ""))
    if _m:
        _n = _m.group(2).replace("LAMDA", "LAMBDA").lower()
        GREEK[chr(_c)] = "\\" + (_n.capitalize() if _m.group(1) == "CAPITAL" else _n)
# Greek letters that LaTeX has no command of their own for, or a variant of
GREEK_OTHER = {"Α", "Β", "Ε", "Ζ", "Η", "Ι", "Κ", "Μ", "Ν", "Ρ", "Τ", "Υ", "Χ", "ε", "φ"}
OPERATORS = {"≤": "\\leq", "≥": "\\geq", "≠": "\\neq", "×": "\\times", "÷": "\\div", "±": "\\pm", "∓": "\\mp", "∑": "\\sum", "∏": "\\prod",
             "∫": "\\int", "∞": "\\infty", "∂": "\\partial", "∇": "\\nabla", "∈": "\\in", "∉": "\\notin", "⊂": "\\subset", "⊃": "\\supset",
             "⊆": "\\subseteq", "⊇": "\\supseteq", "∪": "\\cup", "∩": "\\cap", "∅": "\\emptyset", "→": "\\rightarrow", "←": "\\leftarrow",
             "⇒": "\\Rightarrow", "⇐": "\\Leftarrow", "⇔": "\\Leftrightarrow", "↔": "\\leftrightarrow", "∀": "\\forall", "∃": "\\exists",
             "∧": "\\land", "∨": "\\lor", "≈": "\\approx", "≡": "\\equiv", "∼": "\\sim", "≅": "\\cong", "∝": "\\propto", "⊥": "\\perp",
             "∥": "\\parallel", "⊕": "\\oplus", "∘": "\\circ", "†": "\\dagger", "ℵ": "\\aleph", "ℓ": "\\ell", "↦": "\\mapsto", "⟨": "\\langle",
             "⟩": "\\rangle", "⌈": "\\lceil", "⌉": "\\rceil", "⌊": "\\lfloor", "⌋": "\\rfloor", "≪": "\\ll", "≫": "\\gg", "↑": "\\uparrow", "↓": "\\downarrow"}
MARKS = {0x300: "grave", 0x301: "acute", 0x302: "hat", 0x303: "tilde", 0x306: "breve", 0x307: "dot", 0x308: "ddot", 0x30a: "mathring", 0x30c: "check",
         0x304: "bar"}


def independent(tag, c):
    """What Unicode says the rendering of this character must contain, or None."""
    if len(c) != 1:
        return None
    if c in GREEK and c not in GREEK_OTHER and (tag in ("mi", "mtext") or tag == "mo" and c not in "ΛΞξ"):
        return GREEK[c]
    if tag == "mo" and c in OPERATORS and model.MO.get(c) == OPERATORS[c]:
        return OPERATORS[c]
    d = unicodedata.normalize("NFD", c)
    if len(d) == 2 and ord(d[1]) in MARKS and d[0].isascii() and c in model.FALLBACK and model.FALLBACK[c] == "\\%s{%s}" % (MARKS[ord(d[1])], d[0]):
        return "\\%s{%s}" % (MARKS[ord(d[1])], d[0])
    k = unicodedata.normalize("NFKC", c)
    if tag == "mn" and len(k) == 1 and k.isdigit() and k.isascii() and k != c and "SCRIPT" in unicodedata.name(c):
        return ("^" if "SUPERSCRIPT" in unicodedata.name(c) else "_") + "{" + k + "}"
    if unicodedata.name(c, "").startswith("MATHEMATICAL") and len(k) == 1 and k.isascii() and k.isalnum() and c in model.FALLBACK:
        return "{" + k + "}"
    return None


class C13(Prop):
    id = "C13"
    rule = """Every entry of the symbol dictionaries as each token kind it applies to, plain, with white space around it, as a numeric
    character reference and in a random neighbourhood; and every assigned character of the Basic Multilingual Plane and the symbol
    and letter blocks above it (thorough: of all planes) as identifier, operator, number and text, compared with the frozen,
    reviewed dictionary; Greek letters, common operators, accented letters, styled letters and script digits also against what
    their Unicode names and decompositions say.  Non-trivial: the token is a dictionary entry or a non-ASCII character."""
    quick = 16000
    thorough = 80000

    def enumerate(self, tier):
        for tag, c in entries():
            yield {"tag": tag, "text": c}
            yield {"tag": tag, "text": c, "raw": "<math><%s>%s</%s></math>" % (tag, "\t " + refs(c) + "\n", tag)}
        yield from dressed_up([[t, {}, c] for t, c in entries()], tier, 2)
        yield from dressed_up([n for n in REAL if n[0] in model.TOKENS], tier, 24)
        # every entry twice in one document with all the others of its kind, in both orders
        for tag in ("mi", "mo", "mn", "mtext"):
            own = [c for t, c in entries() if t == tag]
            for cs in (own, own[::-1], own[::2] + own[1::2]):
                yield {"roots": [["math", {}, [[tag, {}, c] for c in cs]]]}
                yield {"roots": [["math", {}, [["mrow", {}, [[t, {}, c] for t in ("mi", "mo", tag)]] for c in cs]]]}
            if tag == "mtext":
                yield {"roots": [["math", {}, [["mtext", {}, "".join(own)], ["mtext", {}, " ".join(own)], ["mtext", {}, "".join(c + "a" for c in own)]]]]}
        every = list(entries())
        for i, (tag, c) in enumerate(every):
            # all kinds of neighbours on both sides, in the row and in the text
            e, other = [tag, {}, c], every[(i * 37 + 11) % len(every)]
            around = [["mi", {}, "x"], ["mn", {}, "90"], ["mo", {}, "+"], ["mtext", {}, "ab 1"], ["mi", {"mathvariant": "bold"}, "y"], ["mi", {}, "α"], ["mi", {}, "é"],
                      ["mo", {}, "("], ["mtext", {}, "."], ["mfrac", {}, [["mi", {}, "a"], ["mn", {}, "2"]]], ["mrow", {}, []], ["mi", {}, "sin"], list(other[:1]) + [{}, other[1]]]
            yield {"roots": [["math", {}, [e] + [x for n in around for x in (n, e)] + [e]]]}
            if tag == "mtext":
                t = "%s90%sa%s b %s %s.%s,%s(%s)%s%%%sα%sé%sZ%s\u2212%s=%s%s" % ((c,) * 16)
                yield {"roots": [["math", {}, [["mtext", {}, t], ["mtext", {}, other[1] + c + other[1]], ["mtext", {"mathvariant": "bold"}, t]]]]}
            else:
                yield {"roots": [["math", {}, [["mover", {}, [e, ["mo", {}, "^"]]], ["munder", {}, [["mi", {}, "x"], e]], ["msup", {}, [e, e]], ["mfrac", {"bevelled": "true"}, [e, e]],
                                               ["mroot", {}, [e, e]], ["mfenced", {}, [e, e]], ["munderover", {}, [e, e, e]], ["mmultiscripts", {}, [e, e, e]]]]]}
        for i, (tag, c) in enumerate(every):
            s = sorted(SHAPES)[i % len(SHAPES)]
            yield {"roots": [["math", {}, [chain(s, i % SHAPES[s][0], (8, 20, 44)[i % 3], "greek", [tag, {}, c])]]]}
            s = sorted(SHAPES)[i * 11 % len(SHAPES)]
            yield {"roots": [["math", {}, [SHAPES[s][1](*[[tag, {}, c]] * SHAPES[s][0])]]]}
        for tag in ("mi", "mo", "mn", "mtext"):
            own = [c for t, c in every if t == tag]
            yield from batches(tag, modified(own, MODIFIERS if tier == "thorough" or tag in ("mn", "mi") else MODIFIERS[::3] + MODIFIERS[1:3]))
            for step in (1, 5, 29):
                yield from batches(tag, [a + b for a, b in zip(own, own[step:] + own[:step])])
        step = 24
        cps = [i for i in list(range(0xa1, 0xd800)) + list(range(0xf900, 0xfffe)) + list(range(0x1d400, 0x1d800)) + list(range(0x1f100, 0x1f900))
               + list(range(0x10000, 0x10300)) if unicodedata.category(chr(i)) not in ("Cn", "Co", "Cs", "Zs", "Zl", "Zp") and not chr(i).isspace()]
        if tier == "thorough":
            cps += [i for i in range(0x10300, 0x30000) if unicodedata.category(chr(i)) not in ("Cn", "Co", "Cs")]
        else:  # all of the symbol blocks, and a slice of the large scripts
            cps = [i for i in cps if not 0x3400 <= i < 0xd7b0 or i % 7 == 0]
        for j in range(0, len(cps), step):
            yield {"block": [cps[j], cps[min(len(cps), j + step) - 1]], "chars": "".join(map(chr, cps[j:j + step]))}

    def harvested(self, tier):
        for m in harvest.trees(model.TOKENS, None, tier, tokens_only=True, most=10000):
            yield {"roots": [m]}
        new = [s for s in gen.EXTRA if len(s) <= 3][:40]
        for tag in ("mi", "mo", "mn", "mtext") if new else ():
            yield from batches(tag, modified([c for t, c in entries() if t == tag], new))

    def gen(self, src, tier):
        k = src.choice(["mi", "mo", "mn", "mtext"])
        pool = {"mi": gen.MI_SYMBOLS, "mo": gen.MO_SYMBOLS, "mn": gen.MN_SYMBOLS, "mtext": gen.MI_SYMBOLS}[k]
        c = src.choice(pool if not src.chance(20) or k == "mn" else gen.FALLBACK_SYMBOLS)
        p = gen.Profile(depth=2)
        ks = [gen.tree(src, p, src.below(2)) for _ in range(src.between(0, 3))]
        ks.insert(src.below(len(ks) + 1), [k, {}, c])
        s = src.choice(sorted(SHAPES))
        n = ks[0] if len(ks) == 1 else ["mrow", {}, ks]
        return {"roots": [["math", {}, [filled(s, src.below(SHAPES[s][0]), n)]]]}

    def check(self, case):
        if "roots" in case:
            check_roots(case)
            return True, ["in context"]
        if "chars" in case:
            # one document per token kind holds the whole block; a failing one is taken apart
            for tag in ("mi", "mo", "mn", "mtext"):
                toks = [[tag, {}, c] for c in case["chars"]]
                xml = "<math>" + "".join("<mi>x</mi>" + gen.xml(t) for t in toks) + "</math>"
                want = model.collapse(" ".join("x " + model.render(t) for t in toks))
                out = call(xml)
                if not out.ok or out.value != want:
                    for t in toks:
                        one(t, gen.xml(["math", {}, [t]]))
                    raise Violation("a block of characters renders differently together\n  input:    %s\n  expected: %r\n  got:      %r" % (xml, want, out))
            # the same among neighbours, and inside of texts
            around = [["mn", {}, "90"], ["mi", {}, "x"], ["mo", {}, "+"], ["mtext", {}, "a b"], ["mi", {}, "α"], ["mrow", {}, []]]
            check_roots({"roots": [["math", {}, [n for i, c in enumerate(case["chars"]) for n in (around[i % 6], ["mi", {}, c], ["mn", {}, c], around[i * 5 % 6], ["mo", {}, c], ["mtext", {}, c])]]]})
            texts = [[t, {}, f % ((c,) * f.count("%s"))] for c in case["chars"] for t, f in (
                ("mtext", "90%s"), ("mtext", "a %s b%s%s.%s,%s1"), ("mtext", "%s%s"), ("mi", "a%s"), ("mi", "%sa"), ("mi", "%s%s"), ("mn", "1%s"), ("mn", "%s2"), ("mo", "%s="), ("mo", "+%s"))]
            check_roots({"roots": [["math", {}, texts]]})
            return True, ["character block"]
        t = [case["tag"], {}, case["text"]]
        one(t, case.get("raw") or gen.xml(["math", {}, [t]]))
        return True, [case["tag"] + " entry"] + (["as reference"] if "raw" in case else [])

    def show(self, case):
        return case.get("raw") or (case["chars"] if "chars" in case else "".join(map(gen.xml, case["roots"])) if "roots" in case else "%(tag)s %(text)s" % case)


def refs(c):
    return "".join("&#x%X;" % ord(x) if i % 2 == 0 else "&#%d;" % ord(x) for i, x in enumerate(c))


def one(t, xml):
    want = model.collapse(model.render(t))
    out = call(xml)
    if not out.ok or out.value != want:
        raise Violation("a symbol does not render as its command\n  input:    %s (%s)\n  expected: %r\n  got:      %r" % (
            xml, " ".join("U+%04X" % ord(c) for c in t[2]), want, out))
    ind = independent(t[0], t[2])
    if ind is not None and ind not in out.value:
        raise Violation("a symbol does not render as its command\n  input:    %s\n  expected: %r\n  got:      %r" % (xml, ind, out.value))


# ------------------------------------------------------------------ C14

# words that mean something in LaTeX, in HTML's entities or to programs
NAMES = sorted(set("""arccos arcsin arctan arccot arcsec arccsc arg cos cosh cot coth csc sec sech csch deg det dim exp gcd hom inf ker lg lim liminf limsup ln log max min Pr sin sinh sup tan tanh
arsinh arcosh artanh acos asin atan sinc sign sgn rank tr Tr mod bmod pmod div grad curl rot lcm erf erfc Re Im Var Cov Cor E P O o d e i im id Hom End Aut Ker diag span argmax argmin plim const
and or not if then else for all otherwise where such that in iff let be the is of to on at as by with from when exp10 log10 log2 ln2 nabla infty infin oo inf nan NaN null true false None
abs floor ceil round sqrt cbrt root frac over choose binom pow div mult times plus minus equals begin end left right text mathrm mathbf mathit mathcal operatorname quad qquad big Big frac12
hbar ell wp aleph beth partial forall exists emptyset varnothing angle bot top prime sum prod int oint coprod cup cap subset supset le ge ne lt gt leq geq neq approx equiv sim cong propto pm mp
amp lt gt quot apos nbsp copy reg hellip mdash ndash bull deg sdot InvisibleTimes ApplyFunction it af ic ii dd ee DifferentialD ExponentialE ImaginaryI
alpha beta gamma delta epsilon varepsilon zeta eta theta vartheta iota kappa lambda mu nu xi omicron pi varpi rho varrho sigma varsigma tau upsilon phi varphi chi psi omega
cm mm km kg mg ms Hz kHz MHz eV keV MeV GeV Pa kPa mol rad sr lm lx Bq Gy Sv kat min h s m g A K C N J W V F T H L bar atm psi rpm ppm dB px pt em ex""".split())
    | {w[1:] for t in (model.MI, model.MO, model.MN, model.FALLBACK) for v in t.values() for w in re.findall(r"\\[A-Za-z]+", v)})


class C14(TokenProp):
    id = "C14"
    tags = ("mn", "mi", "mo")
    rule = """Numbers (integers to 400 digits, decimals with leading and trailing zeros, signs, separators, exponents, fractions, hex,
    mixed letters, other digits), identifiers and operators that are not dictionary entries (words of 1 to 200 characters in any
    case and script), with inner white space and LaTeX-special characters; the output must be the same string with specials
    escaped and white space runs collapsed; 0 to 12000 and the pool with all specials are enumerated.
    Non-trivial: more than one character."""

    def enumerate(self, tier):
        yield from token_places(("mn", "mo"), tier, 23)
        yield from dressed_up([[t, {}, x] for t in ("mn", "mi", "mo") for x in ("0", "1", "2", "10", "3.14", "1,000", "-1", "+5", "007", "1.50", "1/2", "12%", "a", "A", "ab", "Ab", "x", "d", "e", "i", "dx", "sin", "lim",
                                "log2", "x'", "foo", "foo bar", "H2O", "mm", "0x1F", "1e5", "IV", ":=", "==", "->", "<=", "...", "1 000", "2n") if t == "mn" or (x not in model.MI and x not in model.MO)], tier, 20)
        for i in list(range(0, 1200)) + list(range(1200, 12000, 7 if tier == "quick" else 1)):
            yield doc(["mn", {}, str(i)])
        for n in LENGTHS + (20001, 70001) + tuple(gen.MORE_SIZES):
            digits = "".join(str(i * 7 % 10) for i in range(n))
            for x in (digits, "1" * n, "0" * n, "." + digits, digits + "." + digits, "-" + digits, digits + "%", "ab" * n, "Ab cd " * n, digits + "e5", "1," * n + "000", "x" + digits, "жя" * n,
                      "a%b" * n, "1_0" * n, "a-b" * n, "1  2" * n):
                for t in ("mn", "mi", "mo"):
                    if t == "mn" or n < 5000:
                        yield doc([t, {}, x.strip()])
                        yield doc(T("mi", "x"), [t, {}, x.strip()], T("mn", "2"))
        for x in ("0.0", "00", "1.0", "1.50", "1.500000", "0.1", ".1", "1.", "1,5", "1,000,000.00", "1 000 000", "1'000", "-0", "+1", "-1.5e-10", "1E5", "1e05",
                  "3.14159265358979323846264338327950288", "0x1F", "0b01", "1/2", "1:30", "12%", "$5", "#1", "a1", "1a", "1_000", "NaN", "inf", "Infinity",
                  "nan", "1e400", "1e-400", "9007199254740993", "0.1e1", "１２", "٣", "1\u00a0000", "1\u2009000", "1  000", "IV", "twelve", "∞", "−1", "½", "10²",
                  "2,", "(1)", "[1]", "{1}", "1&2", "1;2", "True", "None", "false", "x", "·", "1·2", "1×2", "1..2", "0" * 50, "9" * 300, "1" + "0" * 400):
            for t in ("mn", "mi", "mo"):
                if t == "mn" or (x not in model.MI and x not in model.MO):
                    yield doc([t, {}, x])
                    yield doc(T("mi", "x"), [t, {}, x], T("mo", "+"), [t, {}, x])
        for t in ("mi", "mo", "mn"):
            yield from batches(t, strings(ASCII, 2, 2))
            yield from batches(t, modified(ASCII[1:]))
        yield from batches("mn", strings("01.,-e", 3, 4 if tier == "quick" else 6))
        yield from batches("mn", strings("09 +'/", 3, 3 if tier == "quick" else 5))
        yield from batches("mo", strings("<>=!+-*/|&:.~^'", 3, 3 if tier == "quick" else 4))
        yield from batches("mi", strings("aAxX1'_α", 3, 4 if tier == "quick" else 5))
        for i, x in enumerate(NAMES):
            for t in ("mi", "mo", "mn"):
                yield doc([t, {}, x], T("mi", "x"), [t, {}, x.capitalize()], ["msup", {}, [[t, {}, x], T("mn", "2")]], ["mfenced", {}, [[t, {}, x.upper()]]], T("mo", "\u2061"), [t, {}, x + " " + NAMES[i * 7 % len(NAMES)]],
                          [t, {}, x + x], [t, {}, "x" + x], [t, {}, x + "1"], ["mfrac", {}, [[t, {}, x], ["mrow", {}, [[t, {}, x], ["mfenced", {}, [T("mi", "x")]]]]]], ["munder", {}, [[t, {}, x], T("mi", "n")]])
        for x in ("Sin", "SIN", "sin", "argmax", "lim sup", "d x", "ab", "AB", "aB", "x'", "x1", "1x", "x.y", "x-y", "foo_bar", "Å", "Straße", "ΑΒΓ", "αβ", "naïve",
                  "e\u0301", "日本", "שלום", "ﬁ", "İi", "x\u0302", "a\u00a0b", "K\u00e4", "x" * 65, "ab" * 150, "in", "alpha", "pi", "infty", "sum", "left", "begin", "text",
                  "&amp;", "&alpha;", "a<b", "->>", "=>=", "<==", "+++", "-+", "...", "....", "!=!", "~~", "^^", "@@", "::", "[[", "]]", "((", "<<<", "|||"):
            for t in ("mi", "mo", "mn"):
                yield doc([t, {}, x])

    def gen(self, src, tier):
        tag = src.weighted([(50, "mn"), (30, "mi"), (20, "mo")])
        k = src.weighted([(25, "number"), (25, "mixed"), (25, "word"), (15, "phrase"), (5, "long"), (5, "uni")])
        if k == "number":
            t = src.choice(["", "", "-", "+"]) + "".join(src.choice("0123456789") for _ in range(src.between(1, 12)))
            if src.chance(60):
                t += src.choice(".,") + "".join(src.choice("0012345") for _ in range(src.between(0, 8)))
            if src.chance(20):
                t += src.choice("eE") + src.choice(["", "-", "+"]) + str(src.below(400))
        elif k == "mixed":
            t = "".join(src.choice("0123456789.,-+ '%$#_{}&abcXYeE/:()=") for _ in range(src.between(1, 14)))
        elif k == "word":
            t = "".join(src.choice("abcdefzABCDEFZ0189éßñжяλΩ中'.-_") for _ in range(src.between(1, 12)))
        elif k == "phrase":
            t = "".join(src.choice([" ", "  ", "\u00a0", "\t"]) + src.choice(gen.WORDS) for _ in range(src.between(2, 5)))
        elif k == "long":
            t = "".join(src.choice("0123456789ab.") for _ in range(src.between(40, 200)))
        else:
            t = "".join(gen.unicode_char(src) for _ in range(src.between(2, 6)))
        return around(src, [tag, {}, gen.safe(t, tag)])
