"""A fuzzing dictionary taken from the code under test.

The strings and numbers that occur in its source steer the enumerations: a special case that the code makes of a
name, a value, a text or a size is tried, whatever it is.  Those that the tree of constants.json (tools/snapshot_constants.py)
does not have, or has less often, are tried in every place; the others in some.  Nothing is judged here: all documents
go to the oracles of the properties."""
import ast
import collections
import json
import os
import re
from xml.parsers import expat

from . import common, gen, model
from .prop import LEAVES, LEVELS, PARENTS, SHAPES, WIDE, T, atoms, chain, filled, with_attributes

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")
MOST = 40  # new constants that are tried in every place


def constants(top):
    """The constants in the Python files below a directory: (strings, numbers) with their counts,
    and the strings that do not stand in the symbol dictionaries."""
    strings, numbers, plain = collections.Counter(), collections.Counter(), set()
    for folder, _, files in sorted(os.walk(top)):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(folder, f), encoding="utf-8").read())
            except (SyntaxError, ValueError):
                continue
            docs = set()
            table = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                    docs.add(id(n.body[0].value))
                if isinstance(n, ast.Dict) and len(n.keys) > 60:
                    table.update(id(x) for k in n.keys + n.values for x in ast.walk(k or n.values[0]))
            for n in ast.walk(tree):
                if not isinstance(n, ast.Constant) or id(n) in docs:
                    continue
                v = n.value
                if isinstance(v, bytes):
                    v = v.decode("latin-1")
                if isinstance(v, str) and 0 < len(v) < 400:
                    strings[v] += 1
                    if id(n) not in table:
                        plain.add(v)
                elif isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 10 ** 7:
                    numbers[int(v)] += 1
    return strings, numbers, plain


def examples(pattern):
    """Some strings that a regular expression matches (nothing when it is none)."""
    if not re.search(r"[\\\[\](){}*+?|.^$]", pattern):
        return []
    try:
        import re._parser as parser
        tree = parser.parse(pattern)
    except Exception:
        return []

    def pick(op, arg, k):
        op = str(op)
        if op == "LITERAL":
            return chr(arg)
        if op == "NOT_LITERAL":
            return "x" if arg != ord("x") else "y"
        if op == "ANY":
            return "x1 <"[k % 4]
        if op == "IN":
            negated = str(arg[0][0]) == "NEGATE"
            if negated:
                return "x1.="[k % 4]
            o, a = arg[k % len(arg)]
            if str(o) == "RANGE":
                return chr(a[0] if k % 2 else a[1])
            return pick(o, a, k)
        if op == "CATEGORY":
            return {"CATEGORY_DIGIT": "7", "CATEGORY_SPACE": " ", "CATEGORY_WORD": "w"}.get(str(arg), "-")
        if op == "BRANCH":
            return seq(arg[1][k % len(arg[1])], k)
        if op == "SUBPATTERN":
            return seq(arg[-1], k)
        if op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, sub = arg
            return "".join(seq(sub, k + i) for i in range(min(int(hi), max(int(lo), k % 3))))
        if op == "ATOMIC_GROUP":
            return seq(arg, k)
        return ""

    def seq(items, k):
        return "".join(pick(o, a, k) for o, a in items)

    try:
        return [seq(tree, k) for k in range(6)]
    except Exception:
        return []


def clean(s):
    """What of a string can stand in a document."""
    return gen.safe("".join(" " if c in "\t\n\r\x0b\x0c" else c for c in s), "mi").strip()


def near(s):
    """Strings like this one."""
    out = re.findall(r"[A-Za-z][\w.-]*", s) + s.split() + examples(s)
    if len(s) <= 12:
        out += [s.upper(), s.lower(), s.capitalize(), s.swapcase(), s + s, s + "1", "x" + s, s + "x", s[:-1], s[1:], s + " " + s, "1" + s]
    if 1 < len(s) <= 60 and not s.isalnum():
        out += list(s)
    return out


_cache = {}


def dictionary():
    """(new strings, strings like them, other strings of the code, new numbers)."""
    if "d" not in _cache:
        base = json.load(open(BASE, encoding="utf-8"))
        strings, numbers, plain = constants(os.path.join(common.REPO, "src"))
        extra = os.environ.get("VERIF_DICTIONARY")  # to try the check itself with any constants
        new = [s for s in strings if strings[s] > base["strings"].get(s, 0)]
        if extra:
            for v in json.loads(extra):
                if isinstance(v, int):
                    numbers[v] += 1000
                else:
                    new.append(v)
        new = sorted(dict.fromkeys(new), key=lambda s: (len(s), s))
        nums = sorted(n for n in numbers if n > 0 and numbers[n] > base["numbers"].get(str(n), 0))[:MOST]
        first = list(dict.fromkeys(clean(s) for s in new))
        like = list(dict.fromkeys(clean(x) for s in new[:MOST] for x in near(s)))
        other = list(dict.fromkeys(clean(s) for s in sorted(plain)))
        _cache["d"] = ([s for s in first if s][:MOST], [s for s in like if s and s not in first][:12 * MOST], [s for s in first[MOST:] + other if s], nums)
    return _cache["d"]


def name(s):
    """Whether the string can name an element that is not one of MathML's or an attribute."""
    if not re.fullmatch(r"[^\W\d][\w.-]*", s) or s in gen.KNOWN or s.lower().startswith("xml"):
        return False
    if s.isascii():
        return True
    try:
        p = expat.ParserCreate()
        p.Parse("<%s/>" % s, True)
        return True
    except expat.ExpatError:
        return False


def tokens(s):
    return [[t, {}, s] for t in model.TOKENS] + [["mi", {"mathvariant": "bold"}, s], ["mtext", {"mathvariant": "bold"}, s]]


def nodes(s):
    """Everything that a string can be in a tree."""
    x, y, z = T("mi", "x"), T("mo", "+"), T("mn", "2")
    out = tokens(s)
    if name(s):
        out += [[s, {}, [x]], [s, {}, [x, y, z]], [s, {}, []], [s, {}, "t"]]
        out += [["custom", {s: "true"}, [x, y]], ["mrow", {s: ""}, [x, z]]]
    out += [["custom", {"class": s}, [x, y]]]
    return out


def fits(s, tag):
    return not (tag == "mo" and s in ("_",))


def trees(tags=None, shapes=None, tier="quick", tokens_only=False, most=14000):
    """Documents with the constants of the code in and around the elements `tags` (all when None) and the shapes;
    at most about `most` of them, evenly taken."""
    docs = list(_trees(tags, shapes, tokens_only))
    # a fraction that is no common divisor of the loops inside
    keep = 1.0 if tier == "thorough" else min(1.0, most / (len(docs) or 1))
    for i, m in enumerate(docs):
        if keep == 1.0 or int((i + 1) * keep) > int(i * keep):
            yield m


def _trees(tags, shapes, tokens_only):
    first, like, other, numbers = dictionary()
    own = [n for a, n in sorted(atoms().items()) if (tags is None or n[0] in tags) and n[0] not in ("mprescripts", "mtr")]
    names = sorted(shapes or SHAPES)
    x, z = T("mi", "x"), T("mi", "z")

    def placed(n, s, full):
        for t in names:
            k, b = SHAPES[t]
            for h in range(k):
                yield [filled(t, h, n)]
            yield [b(*[n] * k)]
            if full:
                for leaf in ("empty", "greek"):
                    yield [filled(t, 0, n, leaf), n]
                yield [x, filled(t, k - 1, ["mrow", {}, [x, n]]), n, filled(t, 0, ["mrow", {}, [n, x]])]
        yield [n, n]
        yield [x, n, z]
        yield [T("mn", "1"), n, T("mo", "("), n, T("mtext", "a b")]

    for i, s in enumerate(first):
        for n in nodes(s):
            if fits(s, n[0]):
                for ks in placed(n, s, True):
                    yield ["math", {}, ks]
        if not tokens_only:
            some = own if len(own) < 30 else own[::3]
            values = [s] + [o for o in first if o != s][:6]
            if name(s):
                yield from with_attributes(some, [(s, ["true", "0", "", s] + values)])
                yield from (["math", {s: v}, [n, T("mi", "k")]] for n in some for v in ("true", s))
            yield from with_attributes(some, [(a, [s]) for a in sorted(gen.EFFECTIVE) + ["class", "accent", "display"]])
            if "mfenced" in (tags or ()) or tags is None:
                t = ["mtable", {}, [["mtr", {}, [["mtd", {}, [x]], ["mtd", {}, [z]]]]]]
                for a in ({"open": s}, {"close": s}, {"open": s, "close": s}, {"open": s, "close": first[(i + 1) % len(first)]}, {"separators": s}, {"open": "(", "close": s}, {"open": s, "close": ")"}):
                    yield ["math", {}, [["mfenced", a, [t]], ["mfenced", a, [x, z, x, z]]]]
        for o in first[:12]:
            # two at a time
            for a in tokens(s)[:4]:
                for b in tokens(o)[:4]:
                    if fits(s, a[0]) and fits(o, b[0]):
                        yield ["math", {}, [a, b, z] + [SHAPES[t][1](*[(a, b)[j % 2] for j in range(SHAPES[t][0])]) for t in names]]
    for i, s in enumerate(like):
        for j, n in enumerate(nodes(s)):
            if fits(s, n[0]):
                for k, ks in enumerate(placed(n, s, False)):
                    if (i + j + k) % 4 == 0 or j < 4 and k < 3:
                        yield ["math", {}, ks]
        if not tokens_only and i < 60:
            yield from with_attributes(own[i % 3::3], [(a, [s]) for a in sorted(gen.EFFECTIVE)] + ([(s, ["true", "1"])] if name(s) else []))
    for i, s in enumerate(other):
        ns = nodes(s)
        for j in range(3):
            n = ns[(i + j * 5) % len(ns)]
            if fits(s, n[0]):
                t = names[(i + j) % len(names)] if names else "mrow1"
                yield ["math", {}, [n, filled(t, (i + j) % SHAPES[t][0], n), z, SHAPES[t][1](*[n] * SHAPES[t][0])]]
        if own and not tokens_only:
            yield from with_attributes([own[i % len(own)]], [(sorted(gen.EFFECTIVE)[i % 7], [s])] + ([(s, ["true"])] if name(s) else []))
    for n in numbers:
        if n > 0x7f and n < 0x110000 and not 0xd800 <= n < 0xe000:
            for c in (chr(n - 1), chr(n), chr(n + 1)):
                if clean(c) == c and c.isprintable():
                    for t in model.TOKENS:
                        for f in ("%s", "a%s", "%sa", "1%s2"):
                            yield ["math", {}, [T(t, f.replace("%s", c)), z] + [filled(s, 0, T(t, f.replace("%s", c))) for s in names]]
        for m in (n - 1, n, n + 1):
            if 0 <= m <= 3000:
                for w in sorted(WIDE):
                    if tags is None or w in tags or any(k[0] in tags for k in gen.walk(WIDE[w]([]))):
                        for leaf in ("mi", "mo", "text", "empty"):
                            yield ["math", {}, [WIDE[w]([LEAVES[leaf](i) for i in range(m)]), z]]
            if 1 <= m <= 20000:
                for t in model.TOKENS:
                    for c in ("x", "7", "a b", "α", "%"):
                        v = T(t, (c * m)[:m].strip() or "x")
                        yield ["math", {}, [v, z] + [filled(s, h, v) for s in names if m < 2000 for h in range(SHAPES[s][0])]]
            if 1 <= m <= LEVELS:
                for s in names:
                    for h in range(SHAPES[s][0]):
                        yield ["math", {}, [chain(s, h, m)]]
                        yield ["math", {}, [chain(s, h, m, "empty")]]
            if m <= 1000:
                for t in model.TOKENS:
                    yield ["math", {}, [T(t, str(m)), z, T(t, "-%d" % m), T(t, "%d.%d" % (m, m)), T(t, "x%d" % m)] + [filled(s, h, T(t, str(m))) for s in names for h in range(SHAPES[s][0])]]
                    yield from with_attributes(own[:6], [(a, [str(m)]) for a in sorted(gen.EFFECTIVE)])


def sizes():
    """Sizes around the new numbers."""
    return [m for n in dictionary()[3][:5] for m in (n - 1, n, n + 1) if 1 < m <= 6000]


def install():
    """Puts the new constants into the pools of the generators and enumerations."""
    from . import p_run, p_struct, p_tokens, p_xml, prop, surface

    first, like, _, _ = dictionary()
    if gen.EXTRA or not (first or sizes()):
        return
    gen.EXTRA[:] = first * 3 + like[:60]
    names = [s for s in first + like[:30] if name(s)]
    p_xml.MESSY.extend(first + like[:20])
    gen.UNKNOWN.extend(names)
    gen.REAL_NAMES[:0] = names
    p_struct.NAMES.extend(names)
    p_xml.HOSTS.extend(n for n in names if not n.startswith("math"))
    p_tokens.NAMES.extend(s for s in first + like if s not in ("_",))
    for s in names:
        if s not in gen.EFFECTIVE:
            gen.VOCABULARY.setdefault(s, ["true", "0", "", s] + first[:6])
    gen.VOCABULARY_NAMES[:] = sorted(gen.VOCABULARY)
    p_struct.VALUES.extend(first + like[:20])
    for a, vs in gen.NEAR_VALUES.items():
        vs.extend(s for s in first + like[:40] if s not in vs and s not in MEANT.get(a, ()))
    gen.MORE_SIZES[:] = sizes()
    surface.B_NAMES.extend(s for s in names if s.isascii())
    surface.B_VALUES.extend(s for s in first + like[:20] if re.fullmatch(r"[\w.#-]+", s))
    for s in first[:12]:
        p_run.TRICKY += ["<math><mi>%s</mi><mo>%s</mo><mtext>%s</mtext></math>" % ((gen.esc_text(s),) * 3), "<math %s=\"%s\"><mi>x</mi></math>" % (s if name(s) else "title", gen.esc_attr(s))]
        if name(s):
            p_run.TRICKY += ["<%s/>" % s, "<math><%s><mi>x</mi></%s></math>" % (s, s)]


MEANT = {"mathvariant": set(model.MI_VARIANTS) | set(model.TEXT_VARIANTS), "notation": set(model.NOTATIONS) | {"longdiv"}, "actiontype": {"toggle"}, "bevelled": {"true"}}


def numbers():
    return dictionary()[3]


def flat():
    """The strings for places in which nothing but a string stands."""
    first, like, other, _ = dictionary()
    return first + like + other[::3]
