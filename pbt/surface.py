"""Writes a tree as XML text in any of the ways XML allows (and with the defects of
attributes that the converter promises to repair)."""
from . import gen

COMMENTS = ["", " c ", "<mi>zz</mi>", "&undefined;", "a b=c", "\"", "it's", "<math>", "</math>", " mml: ", "]]>", "<![CDATA[", "<a b", "<mi x>y</mi>",
            "> <", "\n line \n", "<!DOCTYPE x>", "é∑", "<?pi", "<mml:mi>q</mml:mi>", "&lt;", "</mrow></math>", "\n<mml:mi a b=c>\n", "\"\n<mi x>'", "x" * 80, "<!", "a - b"]
PIS = ["<?a?>", "<?php echo \"<mi>x</mi>\"; ?>", "<?xml-stylesheet href='x'?>", "<?x <a b=c> ?>", "<?x it's \" ?>", "<?q </math> ?>", "<?m <mml:mi> ?>",
       "<?x & ?>", "<?x <a \" ?>", "<?x\n<mml:mi a b>\n?>"]
BLANKS = [" ", "\n", "\t", "  ", "\r\n", "\n   ", "\r", " \t "]
DOCTYPES = ["<!DOCTYPE math>", "<!DOCTYPE html>", "<!DOCTYPE math SYSTEM \"mathml.dtd\">", "<!DOCTYPE math [ ]>",
            "<!DOCTYPE math PUBLIC \"-//W3C//DTD MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/mathml2.dtd\">",
            "<!DOCTYPE math [<!ELEMENT math ANY><!-- it's <a b> -->]>", "<!DOCTYPE math [<!ENTITY unused \"<mi>u</mi>\">]>"]
DECLS = ["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>",
         "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>"]
NS = "http://www.w3.org/1998/Math/MathML"

B_NAMES = ["a", "display", "mathvariant", "open", "close", "separators", "notation", "bevelled", "actiontype", "stretchy", "data-x", "xml:lang", "v.w_x-1",
           "é", "xmlns", "class", "id", "width", "A", "x1", "columnalign", "innertable", "b", "style", "d", "href"]
B_VALUES = ["1", "1em", "true", "bold", "box", "#ff0000", "50%", "a/b", "http://x.y/z?q=1&r=2", "&alpha;", "a=b", "(", "[", "{{x}}", "é", "-1", "0", "toggle",
            "a/", "/", "a//b", "||", ";", ".5", "mml:x", "=", "a,b;c"]


class Style:
    """What a text may be written with; the probabilities are drawn once per document."""

    def __init__(self, src, plain=False):
        p = (lambda *a: 0) if plain else (lambda *a: src.choice([0, 0, 5, 20, 60]))
        self.single, self.spaces, self.refs, self.cdata = p(), p(), p(), p()
        self.comments, self.pis, self.between, self.pad, self.shuffle = p(), p() // 2, p(), p(), p()
        self.prefix = 0      # percentage of elements with the mml: prefix
        self.broken = 0      # percentage of elements with broken attributes
        self.attr_prefix = 0
        self.entities = {}   # value: name
        self.injected = 0
        self.prefixed = 0


def blank(src, st, must=False):
    if src.chance(st.spaces):
        return src.choice(BLANKS)
    return " " if must else ""


def misc(src, st, blanks=True):
    """White space, comments and processing instructions."""
    out = ""
    if blanks and src.chance(st.between):
        out += src.choice(BLANKS)
    if src.chance(st.comments):
        out += "<!--" + src.choice(COMMENTS) + "-->"
        if blanks and src.chance(st.between):
            out += src.choice(BLANKS)
    if src.chance(st.pis):
        out += src.choice(PIS)
    return out


def ref(src, c):
    return src.choice(["&#%d;", "&#x%x;", "&#x%X;", "&#%06d;"]) % ord(c)


def chars(src, st, s, quote=None, whole=""):
    """Character data or an attribute value, some characters as references."""
    out = []
    for i, c in enumerate(s):
        if c in "<&" or c == quote or (quote and c in "\t\n\r"):
            named = {"<": "&lt;", "&": "&amp;", "\"": "&quot;", "'": "&apos;"}.get(c)
            out.append(named if named and not src.chance(st.refs) else ref(src, c))
        elif c == ">" and ("]]" in whole or not src.chance(50)):
            out.append("&gt;")
        elif st.refs and i < 12 and src.chance(st.refs):
            out.append({"\"": "&quot;", "'": "&apos;"}.get(c) or ref(src, c))
        else:
            out.append(c)
    return "".join(out)


def value(src, st, v):
    q = "'" if src.chance(st.single) else "\""
    if v in st.entities and v:
        return q + "&%s;" % st.entities[v] + q
    s = chars(src, st, v, q)
    if " " in s and src.chance(st.spaces):
        s = s.replace(" ", src.choice(["\n", "\t", " "]))
    return q + s + q


def text(src, st, t):
    """The content of a token."""
    if t in st.entities and t:
        body = "&%s;" % st.entities[t]
    elif t and src.chance(st.cdata):
        i = src.below(len(t) + 1)
        j = src.between(i, len(t))
        part = cdata(t[i:j])
        if " " in part and src.chance(40):
            part = part.replace(" ", src.choice(["\n", "\t", "\r\n"]))
        body = chars(src, st, t[:i], None, t) + part + chars(src, st, t[j:], None, t)
    elif len(t) > 1 and src.chance(st.comments + st.pis):
        i = src.below(len(t) + 1)
        body = chars(src, st, t[:i], None, t) + misc(src, st, False) + chars(src, st, t[i:], None, t)
    else:
        body = chars(src, st, t, None, t)
        if " " in body and src.chance(st.spaces):
            body = body.replace(" ", src.choice(["\n", "\t", " ", "\r\n"]))
    if src.chance(st.pad):
        body = src.choice(BLANKS) + body
    if src.chance(st.pad):
        body += src.choice(BLANKS)
    if src.chance(st.comments // 2):
        body = src.choice(["<!--%s-->" % src.choice(COMMENTS) + body, body + "<!--%s-->" % src.choice(COMMENTS)])
    return body


def cdata(s):
    return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"


def broken(src, st, last, closing):
    """An attribute without a value or with an unquoted one."""
    n = src.choice(B_NAMES)
    form = src.choice(["bare", "bare", "value", "value", "spaced", "empty"])
    if form == "empty" and not last:
        form = "bare"
    st.injected += 1
    if form == "bare":
        return n
    if form == "empty":
        return n + "="
    v = src.choice(B_VALUES)
    if form == "spaced":  # only words: "a= b/c" and "a= b=c" have no one reading
        v = "".join(c for c in v if c not in "/=") or "v"
    if v.endswith("/") and last:
        v += "x"
    return n + (src.choice([" =", "= ", " = "]) if form == "spaced" else "=") + v


def element(src, st, n, out):
    px = "mml:" if st.prefix and src.chance(st.prefix) else ""
    if px:
        st.prefixed += 1
    attrs = list(n[1].items())
    if src.chance(st.shuffle):
        attrs = src.shuffled(attrs)
    parts = [(("mml:" if st.attr_prefix and src.chance(st.attr_prefix) and ":" not in k and k != "xmlns" else "") + k + blank(src, st) + "=" + blank(src, st) + value(src, st, v))
             for k, v in attrs]
    if st.broken and src.chance(st.broken):
        for _ in range(src.weighted([(60, 1), (20, 2), (10, 3), (10, 9)])):
            i = src.below(len(parts) + 1)
            last = i == len(parts)
            parts.insert(i, broken(src, st, last, False))
    out.append("<" + px + n[0])
    for a in parts:
        out.append(blank(src, st, True) + a)
    unquoted = bool(parts) and parts[-1][-1] not in "\"'"
    end = blank(src, st, unquoted and parts[-1].endswith("/"))
    if not n[2]:
        k = src.below(3)
        inner = ""
        if k == 0 and not (unquoted and not end):
            out.append(end + "/>")
            return
        if k == 0:
            out.append(" />")
            return
        if k == 2:
            inner = misc(src, st)
            if src.chance(st.cdata // 4):
                inner += "<![CDATA[]]>"
        out.append(end + ">" + inner)
    else:
        out.append(end + ">")
        if isinstance(n[2], str):
            out.append(text(src, st, n[2]))
        else:
            for k in n[2]:
                out.append(misc(src, st))
                element(src, st, k, out)
            out.append(misc(src, st))
    out.append("</" + px + n[0] + blank(src, st) + ">")


def prolog(src, st):
    s = ""
    if src.chance(25):
        s += src.choice(["", "", "\n", " \n\t"]) + src.choice(DECLS)
        if src.chance(50):
            s += src.choice(BLANKS)
    elif src.chance(4):
        s += "\ufeff"
    if st.entities:
        s += "<!DOCTYPE math [" + "".join("<!ENTITY %s \"%s\">" % (n, v) for v, n in st.entities.items()) + "]>"
    elif src.chance(25):
        s += src.choice(DOCTYPES)
    return s + misc(src, st)


def some_entities(src, st, roots):
    """Declares up to three token texts or attribute values as entities."""
    pool = sorted({t for r in roots for n in gen.walk(r) for t in list(n[1].values()) + ([n[2]] if isinstance(n[2], str) else [])
                   if t and "]]" not in t and not set(t) & set("<&%\"'\t\n\r")})
    if pool:
        for i in range(src.between(1, 3)):
            st.entities.setdefault(src.choice(pool), src.choice(["alpha", "e", "infin", "x.y", "InvisibleTimes"]) + str(i))


def document(src, roots, st, epilog=True, host=None):
    """One document with the math elements `roots` in order."""
    out = [prolog(src, st)]
    root = roots[0] if len(roots) == 1 else host or ["div", {}, list(roots)]
    element(src, st, root, out)
    if epilog:
        out.append(misc(src, st))
    return "".join(out)
