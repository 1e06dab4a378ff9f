"""C16-C19, C21, C22: the XML the converter is given."""
import re

from . import gen, harvest, model, surface
from .common import Violation, call
from .gen import Profile
from .prop import SHAPES, LEAVES, Prop, T, big, expect, must_be
from .p_struct import DEPTH, dup_token, nested_matrices

MESSY = ["", "a", "x y", "mml:", "<mml:mi>", "a mml:b", " mml:x>", "</mml:mi>", "&", "<", ">", "\"", "'", "a=b", "<a b>", "<a b=c>", "-->", "]]>", "&lt;",
         "it's \"x\"", "x > y", "a / b", "</math>", "<math>", "/>", "mml", "xmlns:mml=\"x\"", " a=b c", "<!--", "<?x?>", "a  b", "\u00a0", "= \"", "mml:mml:",
         "a <mml:b> c", "x <a b=c d> y", "p <!-- q --> r", "x \" <mml:y z> \" w", "k <![CDATA[ l ]]> <mml:m n>", "<?x y?> <mml:z w>",
         "<!DOCTYPE math>", "<!DOCTYPE x [<!ENTITY e \"f\">]>", "<!ENTITY e \"f\">", "<?xml version=\"1.0\"?>", "&#945;", "&#x3b1;", "&nbsp;", "&alpha;", "&amp;", "&amp;lt;", "<br>", "<br/>", "<script>",
         "<math/>", "<mi>x</mi>", "xmlns=", "xmlns=\"http://www.w3.org/1998/Math/MathML\"", "%20", "\\u03b1", "\\n", "{0}", "%s", "$1", "\\1", "\\g<0>", "<![CDATA[", "]]", "]>", "/math", "</", "#", "a=\"b\"",
         "a = 'b", "mathvariant=bold", "<mi mathvariant=bold>", "&lt;mi&gt;", "--", "<!", "<!-- -->"]


def some_tree(src, tier, messy=0, depth=None):
    """A math element; messy: percentage of tokens and attributes that look like markup."""
    def token(s):
        if s.chance(messy):
            t = s.choice(["mi", "mo", "mtext", "mn"])
            return [t, {}, s.choice(MESSY)]
        return gen.token(s, plain)

    plain = Profile()
    p = Profile(depth=src.between(0, depth or DEPTH[tier] - 1), token=token, wide=8, presentation=12)
    m = gen.math(src, p, 0 if src.chance(5) else 1, 3)
    if messy:
        for n in gen.walk(m):
            if src.chance(messy // 3):
                k = src.choice(["title", "open", "close", "separators", "alt", "mathvariant", "notation"])
                n[1][k] = src.choice(MESSY)
    return m


def canonical(roots):
    return gen.xml(roots[0]) if len(roots) == 1 else "<div>" + "".join(gen.xml(r) for r in roots) + "</div>"


class Surface(Prop):
    quick = 24000
    thorough = 150000

    def check(self, case):
        """The text renders as the plain one, and as the model says."""
        roots, xml = case["roots"], case["xml"]
        out = call(xml)
        base = call(canonical(roots))
        same = (out.ok, out.value) == (base.ok, base.value) if out.ok or base.ok else out.mro == base.mro
        if not same:
            raise Violation("the same content gives another result when it is written differently\n  written:  %s\n  gives     %r\n  plain:    %s\n  gives     %r" % (
                xml, out, canonical(roots), base))
        must_be(out, expect(roots), xml)
        return self.hard(case), labels_of(xml)

    def hard(self, case):
        return case["xml"] != canonical(case["roots"])


def labels_of(xml):
    for name, mark in (("comment", "<!--"), ("cdata", "<![CDATA["), ("reference", "&#"), ("doctype", "<!DOCTYPE"), ("entity", "<!ENTITY"),
                       ("pi", "<?"), ("line break", "\n"), ("single quotes", "='"), ("mml", "mml:")):
        if mark in xml:
            yield name


def every_shape(leaves=("mi",)):
    for s in sorted(SHAPES):
        for leaf in leaves:
            yield ["math", {}, [SHAPES[s][1](*[LEAVES[leaf](j) for j in range(SHAPES[s][0])])]]


# ------------------------------------------------------------------ C16

class C16(Surface):
    id = "C16"
    rule = """A random tree (depth to 3, thorough 5, 0 to 3 math elements) written in a random surface form: quotes, attribute order, spaces and
    line breaks inside tags, character references in four notations, named entities of an internal subset, CDATA sections anywhere
    in a text, comments and processing instructions with markup-like contents anywhere, declarations, document types, self-closing
    and empty tags, white space between elements and around texts; the result must be that of the plain form and what the reference
    model says.  Every rewriting alone on every element shape is enumerated.  Non-trivial: the text differs from the plain form."""

    def enumerate(self, tier):
        from random import Random
        from .common import Src

        class Fixed(Src):  # deterministic source for the enumerated rewritings
            def __init__(self, seed):
                self.r = Random(seed)

            def below(self, n):
                return self.r.randrange(n) if n > 1 else 0

        fields = ["single", "spaces", "refs", "cdata", "comments", "pis", "between", "pad", "shuffle"]
        for i, m in enumerate(every_shape(("mi", "greek", "text", "mo"))):
            for j, f in enumerate(fields):
                for v in (30, 100):
                    src = Fixed(i * 1000 + j * 10 + v)
                    st = surface.Style(src, plain=True)
                    setattr(st, f, v)
                    out = []
                    surface.element(src, st, m, out)
                    yield {"roots": [m], "xml": "".join(out)}
            for h in surface.DECLS + surface.DOCTYPES + ["\n", " ", "<!-- c -->", "<?x y?>", surface.DECLS[0] + surface.DOCTYPES[2] + "<!--x-->"]:
                if i % 3 == 0:
                    yield {"roots": [m], "xml": h + gen.xml(m)}
                    yield {"roots": [m], "xml": h + gen.xml(m) + "\n<!-- e --><?e?>\n"}
        # what may stand before and after the formulas, around formulas at all depths
        doctypes = surface.DOCTYPES + ["<!DOCTYPE html SYSTEM \"x.dtd\">", "<!DOCTYPE html SYSTEM 'about:legacy-compat'>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">",
                                       "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.1 plus MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/xhtml-math11-f.dtd\" [ <!ENTITY mathml \"http://www.w3.org/1998/Math/MathML\"> ]>",
                                       "<!DOCTYPE div\n[\n<!ATTLIST math\n id ID #IMPLIED>\n]\n>", "<!DOCTYPE x [<!NOTATION n SYSTEM \"s\"><?p <math> ?>]>", "<!-- <!DOCTYPE math> --><!DOCTYPE math><!-- > -->", ""]
        frames = ("%s", "<html><body>%s</body></html>", "<html><head><title>t</title></head><body><p>text</p>%s<p>&lt;math></p></body></html>", "<div>%s</div>", "<p><!-- <math> -->%s</p>", "<a><b><c><d>%s</d></c></b></a>",
                  "<math:x xmlns:math='u'>%s</math:x>", "<mrow>%s</mrow>", "<html xmlns=\"http://www.w3.org/1999/xhtml\">%s</html>")
        shapes = [["math", {}, [T("mi", "x")]], ["math", {}, [["mfenced", {"open": "["}, [T("mi", "a"), T("mo", "+")]], ["math", {}, [T("mn", "1")]]]], ["math", {}, [T("mtext", "a & b")]]]
        for j, d in enumerate(doctypes):
            for k, c in enumerate(surface.DECLS + [""]):
                for l, f in enumerate(frames):
                    m, n = shapes[(j + k) % 3], shapes[(k + l) % 3]
                    yield {"roots": [m], "xml": c + d + f % gen.xml(m)}
                    yield {"roots": [m], "xml": c + "\n" + d + " " + f % ("<!-- c -->" + gen.xml(m)) + "<!-- <math/> -->\n<?p?>"}
                    if l:
                        yield {"roots": [m, n], "xml": c + "<?p?>" + d + f % (gen.xml(m) + "<i>and</i>" + gen.xml(n))}
        for tag in model.TOKENS:
            for t in ("x", "ab", "α", "+", "<", "&", "a b", "a&b", "12", "]]>", "]", "x>y", "\"", "'", "∑", "{", "a<b"):
                m = ["math", {}, [[tag, {}, t], T("mi", "z")]]
                for body in forms(t):
                    yield {"roots": [m], "xml": "<math><%s>%s</%s><mi>z</mi></math>" % (tag, body, tag)}
        # white space within and around a token, as references of all notations, in CDATA and as entities
        for w in ("\t", "\n", "\r", "\r\n", "\n\r", " ", "\u00a0", "\u2003", "\u2028", "\u3000", "\r\r", " \t", "\u0085"):
            for f in ("a%sb", "%sab", "ab%s", "1%s2%s3", "α%sβ", "+%s+", "%s", "a%s%s%sb"):
                for tag in model.TOKENS:
                    t = f.replace("%s", w)
                    m = ["math", {}, [[tag, {}, t], T("mi", "z")]]
                    for write in (lambda c: "&#%d;" % ord(c), lambda c: "&#x%x;" % ord(c), lambda c: "&#x00%X;" % ord(c), lambda c: c, lambda c: "<![CDATA[%s]]>" % c, lambda c: "<!---->" + c + "<?x?>"):
                        yield {"roots": [m], "xml": "<math><%s>%s</%s><mi>z</mi></math>" % (tag, "".join(write(c) if c.isspace() else c for c in t), tag)}
        for i, t in enumerate(MESSY):
            for j, tag in enumerate(model.TOKENS):
                m = ["math", {}, [[tag, {}, t], T("mi", "z")]]
                for k, body in enumerate(forms(t)):
                    if (i + j + k) % 3 == 0 or k in (6, 8):
                        yield {"roots": [m], "xml": "<math><%s>%s</%s><mi>z</mi></math>" % (tag, body, tag)}
                        yield {"roots": [m], "xml": surface.DECLS[k % 3] + surface.DOCTYPES[(i + k) % len(surface.DOCTYPES)] + "<math><%s>%s</%s><mi>z</mi></math>" % (tag, body, tag)}
        # parts of the document and of its texts and values as entities, which may use others
        def literal(s):
            return s.replace("&#", "&#38;#").replace("%", "&#37;").replace("\"", "&#34;")

        for i, m in enumerate(every_shape(("mi", "text", "mo"))):
            x = gen.xml(m)
            els = [h for h in re.finditer(r"<(\w+)[^<>]*>[^<>]*</\1>", x)]
            for k, dtd in enumerate(("math", "math SYSTEM \"mathml.dtd\"", "math PUBLIC \"-//W3C//DTD MathML 2.0//EN\" \"mathml2.dtd\"")):
                if not els:
                    continue
                h = els[(i + k) % len(els)]
                e = h.group()
                yield {"roots": [m], "xml": "<!DOCTYPE %s [<!ENTITY e \"%s\">]>" % (dtd, literal(e)) + x.replace(e, "&e;")}
                yield {"roots": [m], "xml": "<!DOCTYPE %s [<!ENTITY e \"%s\"><!ENTITY f \"<!-- c -->&e;\"><!ENTITY g \"\">]>" % (dtd, literal(e)) + x.replace(e, "&g;&f;<!--&e;-->&g;")}
                yield {"roots": [m], "xml": "<!DOCTYPE %s [<!ENTITY all \"%s\">]><math>&all;</math>" % (dtd, literal(x[6:-7]))}
                t = re.search(">([^<>]+)<", e).group(1)
                yield {"roots": [m], "xml": "<!DOCTYPE %s [<!ENTITY t '%s'>]>" % (dtd, t.replace("&", "&#38;").replace("%", "&#37;").replace("'", "&#39;")) + x.replace(">" + t + "<", ">&t;<")}
                yield {"roots": [m], "xml": "<!DOCTYPE %s [<!ENTITY t '%s'><!ENTITY u \"&t;&v;\"><!ENTITY v ''>]>" % (dtd, t.replace("&", "&#38;").replace("%", "&#37;").replace("'", "&#39;")) + x.replace(">" + t + "<", "> &u;\n<")}
                yield {"roots": [m], "xml": "<!DOCTYPE %s [<!ENTITY %% p SYSTEM \"p.ent\">]>" % dtd + x}
        for i, (t, n) in enumerate((("α", "alpha"), ("∑", "sum"), ("\u2062", "InvisibleTimes"), ("\u2061", "af"), ("x", "x"), ("<", "lt2"), ("&", "a"), ("é", "eacute"), ("\u00a0", "nbsp"), ("→", "rarr"), ("ab", "A"), ("%", "percnt"), ("ℝ", "Ropf"), ("∞", "infin"))):
            for tag in model.TOKENS:
                for body, lit in ((t, "".join("&#38;#%d;" % ord(c) for c in t)), (t, "".join("&#38;#x%X;" % ord(c) for c in t)), (t, t.replace("&", "&#38;#38;").replace("<", "&#38;#60;").replace("%", "&#37;"))):
                    d = "<!DOCTYPE math [<!ENTITY %s \"%s\">]>" % (n, lit)
                    for f in ("%s", "%sa", "a%s", "a %s b", "%s%s"):
                        yield {"roots": [["math", {}, [[tag, {}, f.replace("%s", body)], T("mi", "z")]]], "xml": d + "<math><%s>%s</%s><mi>z</mi></math>" % (tag, f.replace("%s", "&%s;" % n), tag)}
                    yield {"roots": [["math", {}, [["mfenced", {"open": body, "separators": body}, [T("mi", "a"), T("mi", "b")]]]]], "xml": d + "<math><mfenced open='&%s;' separators='&%s;'><mi>a</mi><mi>b</mi></mfenced></math>" % (n, n)}
        # the same among much else
        pads = {n: ("<mrow>" + "<mi>p</mi>" * (n // 10) + "</mrow>", "<!-- " + "c " * (n // 2) + "-->", " \n" * (n // 2), "<custom title=\"" + "x" * n + "\"><mi>p</mi></custom>") for n in (400, 4500, 20000, 70000)}
        pad_trees = [["mrow", {}, [T("mi", "p")]], None, None, ["custom", {}, [T("mi", "p")]]]
        for i, t in enumerate(MESSY):
            tag = model.TOKENS[i % 4]
            for k, body in enumerate(forms(t)):
                n = (400, 4500, 20000, 70000)[0 if k % 8 == i % 8 and i % 3 == 0 else (1 if (i + k) % 4 else 2) if i % 7 else 3]
                if (i * 3 + k) % (7 if n < 20000 else 29) and tier == "quick":
                    continue
                j = (i + k) % 4
                p = pads[n][j]
                ks = [[tag, {}, t], T("mi", "z")]
                if pad_trees[j]:
                    tree = ["mrow", {}, [T("mi", "p")] * (n // 10)] if j == 0 else pad_trees[j]
                    yield {"roots": [["math", {}, [tree] + ks]], "xml": "<math>%s<%s>%s</%s><mi>z</mi></math>" % (p, tag, body, tag)}
                    yield {"roots": [["math", {}, ks + [tree]]], "xml": "<math><%s>%s</%s><mi>z</mi>%s</math>" % (tag, body, tag, p)}
                else:
                    yield {"roots": [["math", {}, ks]], "xml": "<math>%s<%s>%s</%s><mi>z</mi></math>" % (p, tag, body, tag)}
                    yield {"roots": [["math", {}, ks]], "xml": "<math><%s>%s</%s><mi>z</mi>%s</math>" % (tag, body, tag, p)}
        yield from many()
        for k, tag in (("open", "mfenced"), ("close", "mfenced"), ("separators", "mfenced"), ("notation", "menclose"), ("mathvariant", "mi"), ("bevelled", "mfrac"),
                       ("actiontype", "maction")):
            for v in ("<", ">", "\"", "'", "&", "[", "bold", "box", "true", "toggle", "tooltip", ";,", "a b", "⟨", k, "", "/>", "x>y"):
                el = [tag, {k: v}, [T("mi", "a"), T("mn", "2")] if tag != "mi" else "a"]
                plain = gen.xml(el)
                head = plain[:plain.index("\"") + 1]
                tail = plain[plain.index("\"", len(head)) + 1:]
                for w in {"".join("&#%d;" % ord(c) for c in v), gen.esc_attr(v), v.replace("&", "&amp;").replace("<", "&lt;").replace("\"", "&#34;")}:
                    yield {"roots": [["math", {}, [el]]], "xml": "<math>" + head + w + "\"" + tail + "</math>"}
                    yield {"roots": [["math", {}, [el]]], "xml": "<math>" + head[:-2] + "\n=\n'" + w.replace("'", "&apos;") + "'\n" + tail + "</math>"}

    def harvested(self, tier):
        z = T("mi", "z")
        plain = ["math", {}, [["mrow", {}, [T("mi", "a")]], ["mfrac", {}, [T("mn", "1"), T("mtext", "t")]]]]
        other = ["math", {}, [T("mi", "b"), T("mo", "+")]]
        x = gen.xml(plain)
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            for j, tag in enumerate(model.TOKENS):
                for k, body in enumerate(forms(s)):
                    if new and k < 40 or (i + j + k) % 13 == 0:
                        yield {"roots": [["math", {}, [[tag, {}, s], z]]], "xml": "<math><%s>%s</%s><mi>z</mi></math>" % (tag, body, tag)}
            c = re.sub("-+", "-", s.replace("]]>", "")).strip("-")
            for w in ("<!--%s-->", "<!-- %s -->", "<!--a %s b-->", "<!--\n%s\n-->", "<?p %s?>", "<?p a %s b ?>"):
                m = w.replace("%s", c.replace("?>", "") if "<?" in w else c)
                spots = [0, len(x)] + [h.start() for h in re.finditer("<", x)][1:] + [x.index(">a<") + 1, x.index(">t<") + 1, x.index(">t<") + 2]
                for p in spots if new else [spots[i % len(spots)]]:
                    yield {"roots": [plain], "xml": x[:p] + m + x[p:]}
            if harvest.name(s):
                for m in ("<?%s?>" % s, "<?%s x='1'?>" % s, "<!DOCTYPE %s>" % s, "<!DOCTYPE %s [<!ENTITY %s \"v\">]>" % (s, s), "<!DOCTYPE math SYSTEM \"%s\">" % s, "<!DOCTYPE math PUBLIC \"%s\" \"%s\">" % (re.sub("[^A-Za-z0-9.:-]", "", s), s),
                          "<!DOCTYPE math [<!ELEMENT %s ANY><!NOTATION %s SYSTEM \"%s\">]>" % (s, s, s)):
                    yield {"roots": [plain], "xml": m + x}
                    yield {"roots": [plain, other], "xml": m + "<r>" + x + gen.xml(other) + "</r>"}
                for m in ("<?%s?>", "<?%s a b?>", "<!-- %s -->")[:2 if "--" in s else 3]:
                    yield {"roots": [plain, other], "xml": "<r>" + m % s + x + m % s + gen.xml(other) + "</r>" + m % s}
                if s not in ("lt", "gt", "amp", "quot", "apos"):
                    yield {"roots": [["math", {}, [T("mi", "q" + s), z]]], "xml": "<!DOCTYPE math [<!ENTITY %s \"q%s\">]><math><mi>&%s;</mi><mi>z</mi></math>" % (s, s, s)}
            for k, tag in (("open", "mfenced"), ("separators", "mfenced"), ("mathvariant", "mi"), ("title", "mrow")) if new else ():
                el = [tag, {k: s}, [T("mi", "a"), T("mn", "2")] if tag != "mi" else "a"]
                h = gen.xml(el)
                q = gen.esc_attr(s)
                for w in ("'" + q.replace("'", "&apos;") + "'", "\"" + "".join("&#%d;" % ord(ch) for ch in s) + "\"", "'" + "".join("&#x%x;" % ord(ch) for ch in s) + "'"):
                    yield {"roots": [["math", {}, [el]]], "xml": "<math>" + h.replace("\"" + q + "\"", w, 1) + "</math>"}
        for m in harvest.trees(None, None, tier, most=4000):
            x = gen.xml(m)
            yield {"roots": [m], "xml": "<?xml version=\"1.0\"?>" + x.replace("><", ">\n<").replace(" />", "\n/>")}

    def gen(self, src, tier):
        n = src.weighted([(80, 1), (10, 2), (10, 3)])
        roots = [some_tree(src, tier, src.choice([0, 0, 15])) for _ in range(n)]
        st = surface.Style(src)
        if src.chance(25):
            surface.some_entities(src, st, roots)
        return {"roots": roots, "xml": surface.document(src, roots, st)}


def many():
    """Documents with very many of the things that XML allows, and long ones."""
    for n in (5, 17, 33, 65, 129, 257, 1025, 5000, *gen.MORE_SIZES):
        xs = [T("mi", "abαcd"[i % 5]) if i % 3 else T("mo", "+<&"[i % 2]) for i in range(min(n, 1025))]
        m = ["math", {}, xs]
        body = [gen.xml(x) for x in xs]
        texts = [gen.esc_text(x[2]) for x in xs]
        for f in (lambda i, b: b + "<!-- c%d <a b> -->" % i, lambda i, b: "<?p %d?>" % i + b, lambda i, b: b + "\n\t" * (i % 3), lambda i, b: b.replace("</", "<!----></", 1), lambda i, b: b.replace(">", " >", 1),
                  lambda i, b: b.replace(">", " id='i%d'>" % i, 1), lambda i, b: re.sub(">(.*)<", lambda g: ">" + surface.cdata(xs[i][2]) + "<", b),
                  lambda i, b: re.sub(">(.*)<", lambda g: ">" + "".join("&#%d;" % ord(c) for c in xs[i][2]) + "<", b),
                  lambda i, b: re.sub(">(.*)<", lambda g: ">" + "".join("&#x%x;" % ord(c) for c in xs[i][2]) + "<", b), lambda i, b: re.sub(">(.*)<", lambda g: "> " + g.group(1) + "\n<", b)):
            yield {"roots": [m], "xml": "<math>" + "".join(f(i, b) for i, b in enumerate(body)) + "</math>"}
        yield {"roots": [m], "xml": "<!DOCTYPE math [" + "".join("<!ENTITY e%d \"%s\">" % (i, "v") for i in range(n)) + "]>" + "<math>" + "".join(body) + "</math>"}
        v = [T("mi", "v%d" % i) for i in range(min(n, 1025))]
        yield {"roots": [["math", {}, v]], "xml": "<!DOCTYPE math [" + "".join("<!ENTITY e%d \"v%d\">" % (i, i) for i in range(len(v))) + "]><math>" + "".join("<mi>&e%d;</mi>" % i for i in range(len(v))) + "</math>"}
        yield {"roots": [m], "xml": "<!-- x -->" * n + "<math>" + "".join(body) + "</math>" + "<?p?>" * n}
        yield {"roots": [m], "xml": "<math><!--" + "x <a b> " * n + "-->" + "".join(body) + "</math>"}
        # one token in many parts
        t = "".join("ab<&α"[i % 5] for i in range(n))
        one = ["math", {}, [T("mi", t), T("mtext", t)]]
        for w in ("".join(surface.cdata(c) for c in t), "<!---->".join(map(gen.esc_text, t)), "<?p?>".join(map(gen.esc_text, t)), "".join("&#%d;" % ord(c) for c in t), surface.cdata(t),
                  "".join(surface.cdata(c) if i % 2 else gen.esc_text(c) for i, c in enumerate(t)), "\n" * n + gen.esc_text(t) + " " * n):
            yield {"roots": [one], "xml": "<math><mi>%s</mi><mtext>%s</mtext></math>" % (w, w)}
        x, px = T("mi", "x"), "<mi>x</mi>"
        for i in range(min(n, 85)):
            x, px = ["mrow", {}, [x]], "<mrow%s>%s%s%s</mrow>" % (" " * (i % 3), "<!-- %d -->" % i if i % 2 else "\n", px, "<?q?>" if i % 3 else " ")
        yield {"roots": [["math", {}, [x]]], "xml": "<math>" + px + "</math>"}


def forms(t):
    """Ways of writing a text."""
    e = gen.esc_text(t)
    yield from (" %s " % e, "\n%s\n" % e, "\t\r\n  %s" % e, "<!-- c -->" + e, e + "<!--c-->", "<?p?>" + e, surface.cdata(t), " " + surface.cdata(t) + "\n",
                "".join("&#%d;" % ord(c) for c in t), "".join("&#x%X;" % ord(c) for c in t), "".join(surface.cdata(c) for c in t),
                "<!---->".join(gen.esc_text(c) for c in t), "<![CDATA[]]>" + e + "<![CDATA[]]>", "<!--<mi>q</mi>-->" + e + "<?x </mi>?>")
    for i in range(1, len(t)):
        yield surface.cdata(t[:i]) + gen.esc_text(t[i:])
        yield gen.esc_text(t[:i]) + surface.cdata(t[i:])
        yield gen.esc_text(t[:i]) + "<!-- x -->" + "".join("&#%d;" % ord(c) for c in t[i:])


# ------------------------------------------------------------------ C17

class C17(Surface):
    id = "C17"
    rule = """A random tree written with the mml: prefix on all, most or some of its elements (in any surface form, namespace declared or not) with
    texts, attribute values, comments and CDATA that contain mml: and tag-like strings; the result must be that of the document
    without prefix and what the reference model says.  Every element with prefix in 12 forms of tags is enumerated.
    Non-trivial: at least one prefixed element, or mml: within the content."""

    def enumerate(self, tier):
        for m in every_shape(("mi", "text")):
            x = gen.xml(m)
            pre = re.sub(r"<(/?)(?=\w)", r"<\1mml:", x)
            ns = " xmlns:mml=\"%s\"" % surface.NS
            yield {"roots": [m], "xml": pre}
            yield {"roots": [m], "xml": pre.replace("<mml:math", "<mml:math" + ns, 1)}
            yield {"roots": [m], "xml": pre.replace("<mml:math", "<mml:math xmlns=\"x\"" + ns, 1)}
            if "=" in x:
                yield {"roots": [m], "xml": re.sub(r" (?=[\w-]+=\")", " mml:", pre)}
                yield {"roots": [m], "xml": re.sub(r" (?=[\w-]+=\")", "\n\tmml:", x).replace("<math", "<math" + ns, 1)}
            yield {"roots": [m], "xml": pre.replace("><", ">\n<")}
            yield {"roots": [m], "xml": pre.replace(">", "\n>").replace(" /\n>", "\n/>")}
            yield {"roots": [m], "xml": pre.replace(" />", "/>")}
            yield {"roots": [m], "xml": x.replace("<math", "<mml:math").replace("</math", "</mml:math")}
            tags = sorted(set(re.findall(r"<(\w+)", x)))
            for t in tags:
                yield {"roots": [m], "xml": re.sub(r"<(/?)(?=%s\b)" % t, r"<\1mml:", x)}
                yield {"roots": [m], "xml": re.sub(r"<(/?)(?!%s\b)(?=\w)" % t, r"<\1mml:", x)}
        ns = " xmlns:mml=\"%s\"" % surface.NS
        for n in (5, 17, 65, 129, 257, 513, 1025, 6000, *gen.MORE_SIZES):
            xs = [T("mi", "abαcd"[i % 5]) if i % 3 else T("mo", "+-") for i in range(n)]
            m, body = ["math", {}, xs], [gen.xml(x) for x in xs]
            pre = [b.replace("<m", "<mml:m").replace("</m", "</mml:m") for b in body]
            yield {"roots": [m], "xml": "<mml:math>" + "".join(pre) + "</mml:math>"}
            yield {"roots": [m], "xml": "<mml:math%s>" % ns + "\n".join(pre) + "</mml:math>"}
            yield {"roots": [m], "xml": "<math>" + "".join(body[:-1] + pre[-1:]) + "</math>"}
            yield {"roots": [m], "xml": "<math%s>" % ns + "".join(pre[:1] + body[1:]) + "</math>"}
            yield {"roots": [m], "xml": "<mml:math>" + "".join(b if i % 2 else p for i, (b, p) in enumerate(zip(body, pre))) + "</mml:math>"}
            yield {"roots": [m], "xml": "<math><!-- " + "<mml:x> " * n + "-->" + "".join(body[:-1] + pre[-1:]) + "</math>"}
            t = T("mtext", "mml:a <mml:b> " * n + "c")
            yield {"roots": [["math", {}, [t, T("mi", "y")]]], "xml": "<mml:math><mml:mtext>" + gen.esc_text(t[2]) + "</mml:mtext><mml:mi>y</mml:mi></mml:math>"}
            yield {"roots": [["math", {}, [t, T("mi", "y")]]], "xml": "<mml:math><mtext>" + surface.cdata(t[2]) + "</mtext><mml:mi>y</mml:mi></mml:math>"}
            x, a, b = T("mi", "x"), "<mml:mi>x</mml:mi>", "<mi>x</mi>"
            for i in range(min(n, 85)):
                x, a, b = ["mrow", {}, [x]], "<mml:mrow>" + a + "</mml:mrow>", "<%smrow>%s</%smrow>" % (("mml:", b, "mml:") if i % 2 else ("", b, ""))
            yield {"roots": [["math", {}, [x]]], "xml": "<mml:math>" + a + "</mml:math>"}
            yield {"roots": [["math", {}, [x]]], "xml": "<math>" + b + "</math>"}
            y = ["custom", {"a%d" % i: "mml:v" for i in range(n)}, [T("mi", "x")]]
            yield {"roots": [["math", {}, [y]]], "xml": "<mml:math>" + gen.xml(y).replace("<custom", "<mml:custom").replace("</custom", "</mml:custom") + "</mml:math>"}
            more = ["mml:a%d='mml:%d'" % (i, i) for i in range(n)]
            for k, v, tag, body, ks in (("mathvariant", "bold", "mi", "x", "x"), ("open", "[", "mfenced", "<mml:mi>x</mml:mi>", [T("mi", "x")]), ("bevelled", "true", "mfrac", "<mi>a</mi><mi>b</mi>", [T("mi", "a"), T("mi", "b")])):
                for p in (0, n // 2, n):
                    at = " ".join(more[:p] + ["mml:%s='%s'" % (k, v)] + more[p:])
                    yield {"roots": [["math", {}, [[tag, {k: v}, ks]]]], "xml": "<mml:math%s><mml:%s %s>%s</mml:%s></mml:math>" % (ns, tag, at, body, tag)}
        for t in MESSY + ["mml:mi", "x mml:y z", "mml: mml:", "MML:", "mml", "mml::", "a.mml:b", "(mml:)"]:
            for tag in ("mtext", "mi", "mo", "mn"):
                for px in ("", "mml:"):
                    m = ["math", {}, [[tag, {}, t], T("mi", "y")]]
                    for body in (gen.esc_text(t), surface.cdata(t), surface.cdata(t).replace(" ", "\n"), gen.esc_text(t).replace(" ", "\r"), t.replace("&", "&amp;").replace("<", "&lt;").replace("]]>", "]]&gt;")):
                        yield {"roots": [m], "xml": "<{0}math><{0}{1}>{2}</{0}{1}><mi>y</mi></{0}math>".format(px, tag, body)}
            for k in ("open", "close", "separators", "title"):
                m = ["math", {}, [["mfenced", {k: t}, [T("mi", "a"), T("mi", "b")]]]]
                for px in ("", "mml:"):
                    for q in "\"'":
                        v = t.replace("&", "&amp;").replace("<", "&lt;").replace(q, "&#%d;" % ord(q))
                        yield {"roots": [m], "xml": "<{0}math><{0}mfenced {1}={3}{2}{3}><mi>a</mi><mi>b</mi></{0}mfenced></{0}math>".format(px, k, v, q)}

    def harvested(self, tier):
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            for j, (tag, f) in enumerate((t, f) for t in model.TOKENS for f in ("%s", "mml:%s", "%s mml:", "<mml:%s>", "</mml:%s>", "mml:mi %s", "%s:mml:")):
                if new or (i + j) % 9 == 0:
                    t = f.replace("%s", s)
                    m = ["math", {}, [[tag, {}, t], ["mfenced", {"open": t}, [T("mi", "y")]]]]
                    v = gen.esc_attr(t)
                    for px in ("", "mml:"):
                        for body in (gen.esc_text(t), surface.cdata(t)):
                            yield {"roots": [m], "xml": "<{0}math><{0}{1}>{2}</{0}{1}><{0}mfenced open=\"{3}\"><mi>y</mi></{0}mfenced></{0}math>".format(px, tag, body, v)}
        for m in harvest.trees(None, None, tier, most=4000):
            yield {"roots": [m], "xml": re.sub(r"<(/?)(?=\w)", r"<\1mml:", gen.xml(m))}

    def gen(self, src, tier):
        roots = [some_tree(src, tier, src.choice([0, 10, 30])) for _ in range(src.weighted([(85, 1), (15, 2)]))]
        st = surface.Style(src, plain=src.chance(40))
        st.prefix = src.choice([100, 100, 80, 40, 10, 0])
        if src.chance(60):
            roots[0][1]["xmlns:mml"] = surface.NS
        if src.chance(20):
            roots[0][1]["xmlns"] = surface.NS
        xml = surface.document(src, roots, st)
        return {"roots": roots, "xml": xml}

    def hard(self, case):
        return "mml:" in case["xml"].replace("xmlns:mml", "")


# ------------------------------------------------------------------ C18

BROKEN_IN = [["math", {}, [T("mi", "x"), ["mfenced", {"open": "["}, [T("mn", "1"), T("mrow", [])]]]], ["math", {"display": "block"}, [["msup", {}, [["mi", {"mathvariant": "bold"}, "x"], T("mtext", "a b")]]]]]


class C18(Surface):
    id = "C18"
    rule = """A random tree in a random surface form, texts, attribute values, comments and CDATA often looking like markup, into whose start
    tags 1 to 40 attributes without value or with an unquoted value are put (26 names, effective and repeated ones included, 27 values,
    any position, any element, prefixed ones too); the result must be that of the document without them and what the reference model says.
    Every element kind with every form of broken attribute, and 1 to 40 of them in a document, are enumerated.
    Non-trivial: at least one broken attribute."""

    def enumerate(self, tier):
        frags = [" a", " a ", " a b", " a=1", " a=1 b=2", " a =1", " a = 1", "\na\n", " a=", " display", " mathvariant=bold", " a=1em", " a=x/y ", " a=http://x/y?z=1&w=2 ",
                 " é", " x:y", " data-a-b=c-d", " a a a", " a=1 a=1", " A b C=d e", " a=#fff", " a=50%", " open", " close=)", " notation=box", " bevelled", " a=b=c",
                 " a\tb=1\n c", " separators=;", " actiontype=toggle", " a=(b)", " a=[", " a=,", " a=.5", " a=-1", " a=+", " a={x}"]
        # values in what may look like quotes
        for l, r in ("“”", "„“", "‘’", "«»", "``", "´´", "()", "[]", "″″", "’’", "＂＂", "「」"):
            frags += [" open=%s[%s" % (l, r), " a=%sx%s" % (l, r), " mathvariant = %sbold%s" % (l, r), " notation=%s" % l, " open=%s=%s" % (l, r)]
        frags += [" open=&quot;[&quot;", " mathvariant=&#34;bold&#34;", " a=&x;", " a=\\", " a=\\n", " a=$1", " a=\\1", " a=\\g<0".replace("<0", ""), " a=@", " a=!", " a=*", " a=a:b;c:d", " a=?", " a=|", " a=~", " a=^"]
        for i, m in enumerate(every_shape(("mi", "text"))):
            x = gen.xml(m)
            heads = [h for h in re.finditer(r"<[\w]+", x)]
            for j, f in enumerate(frags):
                # one tag at a time, then all tags
                k = heads[(i + j) % len(heads)].end()
                yield {"roots": [m], "xml": x[:k] + f + x[k:]}
                yield {"roots": [m], "xml": re.sub(r"<\w+", lambda h: h.group() + f, x)}
                yield {"roots": [m], "xml": re.sub(r"(<\w+(?: [\w:]+=\"[^\"]*\")*)( ?/)?>", lambda h: h.group(1) + f + (" /" if h.group(2) else "") + ">", x)}
        for n in list(range(1, 13)) + [20, 40, 120]:
            m = ["math", {}, [T("mi", "x") for _ in range(n)]]
            yield {"roots": [m], "xml": "<math>" + "".join("<mi a%d>x</mi>" % i for i in range(n)) + "</math>"}
            yield {"roots": [m], "xml": "<math" + "".join(" b%d=%d" % (i, i) for i in range(n)) + ">" + "<mi>x</mi>" * n + "</math>"}
            yield {"roots": [m], "xml": "<math>" + "".join("<mi a%s>x</mi>" % ("" if i % 2 else "='1' b=2") for i in range(n)) + "</math>"}
        for n in (17, 65, 129, 257, 513, 1025, 6000, *gen.MORE_SIZES):
            xs = [T("mi", "abαcd"[i % 5]) if i % 3 else T("mo", "+-") for i in range(n)]
            m, body = ["math", {}, xs], [gen.xml(x) for x in xs]
            for f in (" q", " q=1", " q = 1 ", "\nq\n"):
                late = [b if i < n - 1 else b.replace(">", f + ">", 1) for i, b in enumerate(body)]
                yield {"roots": [m], "xml": "<math>" + "".join(late) + "</math>"}
                yield {"roots": [m], "xml": "<math%s>" % f + "".join(late) + "</math>"}
                yield {"roots": [m], "xml": "<math>" + "".join(b.replace(">", f + ">", 1) if i % 2 else b for i, b in enumerate(body)) + "</math>"}
                yield {"roots": [m], "xml": "<math>" + "".join(b.replace(">", " id=\"i%d\"%s>" % (i, f), 1) for i, b in enumerate(body)) + "</math>"}
                yield {"roots": [m], "xml": "<math><!--" + "<a b=c> " * n + "-->" + "".join(late) + "</math>"}
            attrs = ["math", {}, [["mfenced", {"open": "["}, [T("mi", "x")]], T("mi", "y")]]
            for sep in (" ", "\n"):
                for f in (lambda i: "b%d" % i, lambda i: "b%d=%d" % (i, i), lambda i: "b", lambda i: "b%d%s" % (i, ["", "=1", "='%d'" % i, "=\"x y\""][i % 4])):
                    many = sep.join(f(i) for i in range(n))
                    yield {"roots": [attrs], "xml": "<math><mfenced open=\"[\"%s%s><mi>x</mi></mfenced><mi>y</mi></math>" % (sep, many)}
                    yield {"roots": [attrs], "xml": "<math><mfenced %s%sopen=\"[\"><mi>x</mi></mfenced><mi %s>y</mi></math>" % (many, sep, many)}
            for f in (" " + "n" * n, " a=" + "v" * n, " " + "n" * n + "=" + "v" * n, " " * n + "a", " a" + " " * n + "=" + " " * n + "1" + " " * n, " a='" + "x y= <".replace("<", "&lt;") * n + "' b c=1"):
                yield {"roots": [attrs], "xml": "<math%s><mfenced%s open=\"[\"%s><mi%s>x</mi></mfenced><mi%s>y</mi></math>" % ((f,) * 2 + (f if "'" not in f else " z", f, f))}
            t = T("mtext", "if a = b and <c d> " * n + "e")
            yield {"roots": [["math", {}, [t, T("mi", "y")]]], "xml": "<math><mtext q>" + gen.esc_text(t[2]) + "</mtext><mi q=1>y</mi></math>"}
            yield {"roots": [["math", {}, [t, T("mi", "y")]]], "xml": "<math><mtext>" + surface.cdata(t[2]) + "</mtext><mi q=1>y</mi></math>"}
            yield {"roots": [["math", {}, [T("mi", "x" * n * 12), T("mi", "y")]]], "xml": "<math><mi>" + "x" * n * 12 + "</mi><mi q=1 r>y</mi></math>"}
            yield {"roots": [["math", {}, [T("mi", "y")]]], "xml": "<math>" + "\n " * n * 6 + "<mi q=1 r>y</mi></math>"}
            x, a = T("mi", "x"), "<mi q>x</mi>"
            for i in range(min(n, 85)):
                x, a = ["mrow", {}, [x]], "<mrow%s>" % (" q", "", " q=1", " id='x' q")[i % 4] + a + "</mrow>"
            yield {"roots": [["math", {}, [x]]], "xml": "<math>" + a + "</math>"}
        for t in MESSY + ["a b", "if a = b", "x=1", "display", "a=1 b", "p > q a", "a=b c=d > e"]:
            for tag in ("mtext", "mi", "mo"):
                for f in (" a", " a=1", " mathvariant"):
                    m = ["math", {}, [[tag, {"title": t}, t], T("mi", "y")]]
                    good = [" title=\"%s\"" % t.replace("&", "&amp;").replace("<", "&lt;").replace("\"", "&quot;"),
                            " title='%s'" % t.replace("&", "&amp;").replace("<", "&lt;").replace("'", "&apos;")]
                    if tag == "mi":  # values with an effect
                        for q, r in (("\"", "&quot;"), ("'", "&#39;")):
                            v = "open=%s%s%s" % (q, t.replace("&", "&amp;").replace("<", "&lt;").replace(q, r), q)
                            for w in (f + " " + v, " " + v + f, " q='a\"b c' " + v + f, " q=\"a'b c\" " + v + f):
                                yield {"roots": [["math", {}, [["mfenced", {"open": t}, [T("mi", "x")]], T("mi", "y")]]], "xml": "<math><mfenced%s><mi>x</mi></mfenced><mi%s>y</mi></math>" % (w, f)}
                    for g in good:
                        for body in (t.replace("&", "&amp;").replace("<", "&lt;").replace("]]>", "]]&gt;"), surface.cdata(t), surface.cdata(t).replace(" ", "\n"), "<!-- <a b> c=d -->" + gen.esc_text(t),
                                     "<!--\n <a b>\n c=d -->" + gen.esc_text(t)):
                            for h in (f + g, g + f, g + " ", g + f + g.replace("title", "alt")):
                                yield {"roots": [m], "xml": "<math%s><%s%s>%s</%s><mi>y</mi></math>" % (f, tag, h, body, tag)}

    def harvested(self, tier):
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            frags = [" a=" + s] if re.fullmatch(r"[\w.#-]+", s) else []
            if harvest.name(s):
                frags += [" " + s, " %s=1" % s, " %s = b" % s, " %s=%s" % (s, s), "\n%s\n" % s, " a " + s, " %s b='c'" % s, " x=1 %s y=2" % s, " title=\"%s\" q" % s]
            frags += [" title=\"%s\" q" % gen.esc_attr(s), " q title=\"%s\"" % gen.esc_attr(s), " title='%s' q=1" % gen.esc_attr(s).replace("'", "&#39;")]
            for j, f in enumerate(frags):
                for k, m in enumerate(BROKEN_IN):
                    x = gen.xml(m)
                    if new or (i + j + k) % 11 == 0:
                        yield {"roots": [m], "xml": re.sub(r"<\w+", lambda h: h.group() + f, x)}
                        yield {"roots": [m], "xml": re.sub(r"(<\w+(?: [\w:]+=\"[^\"]*\")*)( ?/)?>", lambda h: h.group(1) + f + (" /" if h.group(2) else "") + ">", x)}
                        heads = [h.end() for h in re.finditer(r"<\w+", x)]
                        p = heads[(i + j) % len(heads)]
                        yield {"roots": [m], "xml": x[:p] + f + x[p:]}
            for j, (tag, f) in enumerate((t, f) for t in model.TOKENS for f in (" a", " a=1", " mathvariant", " id='i' q")):
                if new or (i + j) % 7 == 0:
                    m = ["math", {}, [[tag, {"title": s}, s], T("mi", "y")]]
                    for body in (gen.esc_text(s), surface.cdata(s), "<!-- <a b> c=d -->" + gen.esc_text(s)):
                        yield {"roots": [m], "xml": "<math%s><%s%s title=\"%s\"%s>%s</%s><mi>y</mi></math>" % (f, tag, f, gen.esc_attr(s), f.replace("id=", "name="), body, tag)}
        for m in harvest.trees(None, None, tier, most=3000):
            yield {"roots": [m], "xml": re.sub(r"<[\w.:-]+", lambda h: h.group() + " q r=1", gen.xml(m), count=2)}

    def gen(self, src, tier):
        roots = [some_tree(src, tier, src.choice([0, 15, 30])) for _ in range(src.weighted([(85, 1), (15, 2)]))]
        st = surface.Style(src, plain=src.chance(40))
        st.broken = src.choice([10, 30, 60, 100])
        st.prefix = src.choice([0, 0, 0, 30, 100])
        xml = surface.document(src, roots, st)
        return {"roots": roots, "xml": xml, "broken": st.injected}

    def hard(self, case):
        return case.get("broken", 1) > 0

    def check(self, case):
        hit, labels = Surface.check(self, case)
        b = case.get("broken", 1)
        return hit, list(labels) + ["broken attributes %s" % ("0" if not b else "1-5" if b < 6 else ">5")]


# ------------------------------------------------------------------ C19

def rejected(xml, note=""):
    out = call(xml)
    if out.ok:
        raise Violation("malformed input%s is accepted and gives %r\n  input: %s" % (note, out.value, short(xml)))
    if "ExpatError" not in out.mro:
        raise Violation("malformed input%s does not raise the parse error but %r\n  input: %s" % (note, out, short(xml)))


def short(x):
    return x if len(x) < 3000 else x[:1500] + " ... " + x[-200:]


BAD_TEXT = ["<", "< ", "a<b", "a < b", "&", "& ", "a&b", "&;", "&foo;", "&alpha;", "&nbsp;", "&#0;", "&#xZZ;", "&#x110000;", "&amp", "&1;", "<<", "<1", "x]]>y", "\x01",
            "\x0b", "\x00", "<!", "<!-- x", "<![CDATA[ x", "<!-- a -- b -->", "</", "<?", "<>", "</>", "&lt", "&&amp;", "&#1;", "\x1f"]


class C19(Prop):
    id = "C19"
    rule = """Valid documents (random trees in random surface forms, some with repairable attributes) that are truncated at any point or
    corrupted (closing tag dropped, doubled, crossed or misspelt, stray markup characters, undefined entities, illegal characters,
    dropped quotes, repeated attributes, several roots, text around the root) must raise the parse error; arbitrary strings over markup
    fragments must be accepted exactly when the XML parser accepts them, and always end (CPU watchdog), as must long hostile
    strings.  All truncations of 60 documents and all corruptions of every shape are enumerated.
    Non-trivial: every case (each is malformed, or a string of markup fragments)."""
    quick = 24000
    thorough = 200000

    def enumerate(self, tier):
        yield from ({"bad": x} for x in ("", " ", "\n", "x", "x + y", "a<b", "<", ">", "&", "&amp;", "&alpha;", "<math>", "</math>", "<math/", "<math", "<!-- c -->", "<?xml version=\"1.0\"?>",
                                        "<!DOCTYPE math>", "\\frac{1}{2}", "<math></math><math></math>", "<math/><math/>", "<mi>x</mi><mo>+</mo>", "x<math/>", "<math/>x", "<math/>&amp;",
                                        "<math></Math>", "<math><mi>x</math></mi>", "{\"a\": 1}", "None", "0", "<math><mi>x</mi></math></math>", "<<math></math>>", "<math><mi>x<mi></math>",
                                        "<![CDATA[<math/>]]>", "<1/>", "< math></math>", "<math></ math>", "</>", "<math a='1' a='2'/>", "<math a=\"<\"/>", "<math a=\"&x;\"/>",
                                        "<math a='x\"/>", "<math a=\"1\"b=\"2\"/>", "\x00", "\x07", "<math>\x00</math>", "<math>\x01</math>", "]]>", "-->", "<!---->", "?>",
                                        "<math><?xml version='1.0'?></math>", "<math><!-- -- --></math>", "<math>]]></math>", "<a><math><mi>x</mi></math>", "<math><mi>x</mi></math><!--",
                                        "<math><mi>x</mi></math> y", "<math><mi>x</mi></math><mi>y</mi>", "1 < 2", "<html><body>no math"))
        docs = list(every_shape(("mi",)))
        for i, m in enumerate(docs):
            x = gen.xml(m)
            if i % 3 == 0 or tier == "thorough":
                for k in range(len(x)):
                    yield {"bad": x[:k]}
                y = re.sub(r"<\w+", lambda h: h.group() + " a=1 b", x)
                for k in range(0, len(y), 1 if tier == "thorough" else 5):
                    yield {"bad": y[:k]}
                z = "<!-- c --><?p?>" + re.sub(r"<(/?)(?=\w)", r"<\1mml:", x).replace(">a<", "><![CDATA[a]]><!-- </mml:math> --><")
                for k in range(0, len(z), 1 if tier == "thorough" else 3):
                    yield {"bad": z[:k]}
            for bad in closings(x):
                yield {"bad": bad}
            for k, b in enumerate(BAD_TEXT):
                j = x.index("a") if ">a<" not in x else x.index(">a<") + 1
                yield {"bad": x[:j] + b + x[j:] if ">a<" in x else x.replace("><", ">" + b + "<", 1)}
                if k % 5 == i % 5:
                    yield {"bad": x.replace("><", ">" + b + "<", 1)}
                    yield {"bad": re.sub(r"<(?=\w)", "<mml:", x, count=0).replace("</", "</mml:") .replace("><", ">" + b + "<", 1)}
        # entities that nothing declares, in documents that name a DTD or use a part of one
        heads = ["<!DOCTYPE math>", "<!DOCTYPE math SYSTEM \"mathml.dtd\">", "<!DOCTYPE math PUBLIC \"-//W3C//DTD MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/mathml2.dtd\">",
                 "<!DOCTYPE math [<!ENTITY e \"f\">]>", "<!DOCTYPE math [<!ENTITY % p SYSTEM \"p.ent\"> %p;]>", "<!DOCTYPE math SYSTEM 'm.dtd' [<!ENTITY e 'f'>]>", "<!DOCTYPE math [<!ENTITY % p \"<!ENTITY e 'f'>\"> %p; ]>",
                 "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.1 plus MathML 2.0//EN\" \"xhtml-math11-f.dtd\" [<!ATTLIST math id ID #IMPLIED>]>"]
        decls = ["", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8' standalone='no'?>\n", "<?xml version=\"1.0\" standalone = \"no\" ?><!-- c -->", "\ufeff", "<!-- c --><?p?>", "<?xml version=\"1.0\" standalone=\"yes\"?>"]
        for i, m in enumerate(every_shape(("mi",))):
            x = gen.xml(m)
            for j, h in enumerate(heads):
                d, n = decls[(i + j) % len(decls)], ("alpha", "nbsp", "foo", "InvisibleTimes", "x.y", "sum")[(i + j) % 6]
                if ">a<" in x:
                    yield {"bad": d + h + x.replace(">a<", ">&%s;<" % n, 1)}
                    yield {"bad": d + h + x.replace(">a<", ">a&%s;b<" % n, 1)}
                yield {"bad": d + h + x.replace("</math>", "&%s;</math>" % n)}
                yield {"bad": d + h + x.replace("<math", "<math title=\"&%s;\"" % n, 1)}
                yield {"bad": d + h + "<div>" + x + "&%s;</div>" % n}
        # names of namespaces that were never declared, or wrongly
        for i, m in enumerate(every_shape(("mi", "text"))):
            x = gen.xml(m)
            tags = list(re.finditer(r"<(\w+)", x))
            for j, h in enumerate(tags):
                pre = ("m", "x", "ml", "MML", "mmlx", "mathml", "svg", "é", "a-b")[(i + j) % 9]
                yield {"bad": x[:h.end()] + " %s:a=\"1\"" % pre + x[h.end():]}
                yield {"bad": x[:h.end()] + " b %s:a='1' c=d" % pre + x[h.end():]}
                yield {"bad": x[:h.end()] + (" xmlns:%s=\"\"" % pre, " xmlns:xmlns=\"u\"", " xmlns:xml=\"u\"", " xmlns:p=\"u\" xmlns:q=\"u\" p:a=\"1\" q:a=\"2\"", " p:q:r=\"1\"", " :a=\"1\"", " a:=\"1\"")[(i + j) % 7] + x[h.end():]}
                t = h.group(1)
                yield {"bad": re.sub(r"<(/?)%s\b" % t, r"<\1%s:%s" % (pre, t), x)}
                if j == i % len(tags):
                    yield {"bad": re.sub(r"<(/?)(?=\w)", r"<\1%s:" % pre, x)}
                    yield {"bad": re.sub(r"<(/?)(?=\w)", r"<\1%s:" % pre, x).replace("<" + pre + ":math", "<" + pre + ":math a", 1)}
                    yield {"bad": x.replace("<math>", "<%s:math>" % pre).replace("</math>", "</%s:math>" % pre)}
                    yield {"bad": "<div>" + x + "<%s:p>t</%s:p></div>" % (pre, pre)}
                    yield {"bad": "<div><p xmlns:%s=\"u\"/>" % pre + "<%s:p>t</%s:p>" % (pre, pre) + x + "</div>"}
        odd = [chr(i) for i in range(0x20) if not chr(i).isspace()] + list("\x7f\x80\x9f\xad\u034f\u061c\u180e\u200b\u200c\u200d\u200e\u2060\u2061\u2063\u2064\u206a\ufe0f\ufff9\ufffd\ufffe\uffff\U000e0001")
        for x in ("<math><mi>x</mi></math>", "<math/>", "<div><math><mi>x</mi></math></div>", "<?xml version=\"1.0\"?><math><mi a>x</mi></math>", "<mml:math><mml:mi>x</mml:mi></mml:math>", "<p>t</p>"):
            for c in odd + ["\ufeff"]:
                for w in (c, c * 2, " " + c, c + " ", "\n" + c + "\n", c + "\x0c" + c):
                    if c != "\ufeff":
                        yield {"bad": w + x}
                        yield {"bad": w + x + w}
                    yield {"bad": x + w}
                    yield {"bad": x + w + x}
            # illegal characters anywhere
            for c in odd if " a>" not in x else ():
                if c < " " or c in "\ufffe\uffff":
                    for k in range(len(x) + 1):
                        yield {"bad": x[:k] + c + x[k:]}
        # the fault stands far into a long, wide or deep document
        for n in (50, 150, 1100, 5000, *gen.MORE_SIZES) + ((40000,) if tier == "thorough" else ()):
            body = "".join("<mi>%s</mi>" % "abαcd"[i % 5] for i in range(n))
            deep = "<mrow>" * min(n, 90) + "<mi>x</mi>" + "</mrow>" * min(n, 90)
            for x in ("<math>" + body + "%s</math>", "<math>" + deep + "%s</math>", "<math><mrow>" + body + "</mrow>%s<mi>y</mi></math>", "<math><mi>" + "x" * n * 12 + "</mi>%s</math>", "<math><mi a>x</mi>" + body + "%s</math>",
                      "<div>" + "<math><mi>x</mi></math>" * n + "%s</div>", "<math>" + "\n" * n * 12 + "%s</math>", "<math><!--" + "x" * n * 12 + "-->%s</math>", "<mml:math>" + body.replace("<m", "<mml:m").replace("</m", "</mml:m") + "%s</mml:math>",
                      "<math>" + "<mi a=1 b>x</mi>" * n + "%s</math>"):
                if n >= 5000 and "a=1 b" in x:
                    continue
                for k, b in enumerate(BAD_TEXT + ["</mi>", "</mrow>", "</math>", "<mi>", "</div>", "<mi a='1' a='2'/>", "<mi a='<'/>", "<mi a=\"1\"b=\"2\"/>", "<MI></mi>", "<mrow><mi></mrow></mi>"]):
                    if (k + len(x)) % (3 if n < 5000 else 7) == 0:
                        yield {"bad": x % b}
                yield {"bad": (x % "") + "</math>"}
                yield {"bad": (x % "")[:-1]}
                yield {"bad": (x % "")[:-9]}
                yield {"bad": (x % "") + "<math/>"}
        n = 4000 if tier == "quick" else 20000
        for piece in ("<a \"", "<!--", "<a b", "<a b=c ", "<![CDATA[", "<a b=\"", "<a b='\"", "<a ", "<", "&", ">", "\"", "<mml:", "mml:", " mml:", "<?", "<!", "</a ", "<a b=", "a=", "='",
                      "<a b=c>", "<a b>", "<math>", "<mi x>", "&#", "&a;", "<a/>", "]]>", "<!DOCTYPE a [", "<!ENTITY"):
            yield {"soup": piece * n}
            yield {"soup": "<math>" + piece * n + "</math>"}
        for pre, mid, post in (("<a b", " ", ">"), ("<a b", " ", "c>"), ("<a b=", " ", ">"), ("<a", " b", ""), ("<a", " b", ">"), ("<a ", "=", ">"), ("<a b", "/", ">"), ("<a", " b=\"", ">"),
                               ("<a b=\"", "x", ">"), ("<a b='", "\"", ">"), ("<a", " b='c'", " d"), ("<a", " b='c'", " d>"), ("<a", "\n", ">"), ("<a b", "\n=", ">"), ("<a", " b=c", "<"),
                               ("<a", " b=\"c\"d", ">"), ("<a b=\"c\"", " ", "="), ("<a", " b = c", ">"), ("<math><mi a", " \t", "</mi></math>"), ("", "\n", ""), ("<a", "b", ""), ("<a", "b", ">")):
            yield {"soup": pre + mid * (n * 2) + post}

    def harvested(self, tier):
        docs = ["<math><mi>%s</mi></math>", "<math><mrow title=\"%s\"><mi>x</mi></mrow></math>", "<div><math><mi a>x</mi></math><p>%s</p></div>", "<!-- c --><math><mo>%s</mo></math>", "<mml:math><mml:mi>%s</mml:mi></mml:math>"]
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            e = gen.esc_attr(s)
            for j, d in enumerate(docs):
                if not new and (i + j) % 5:
                    continue
                x = d.replace("%s", e)
                for k in range(len(x)) if new and len(x) < 120 else (len(x) - 1, len(x) - 3):
                    yield {"bad": x[:k]}
                for b in (s + x, x + s, " " + s + " " + x, x + " " + s + " ", x + s + x) if not re.search(r"^<[!?]", s) else ():
                    if not well_formed(re.sub(r"[\n\r]", " ", b).strip()) and "<" not in s:
                        yield {"bad": b}
                for b in BAD_TEXT:
                    if "%s<" in d and (new or (i + len(b)) % 13 == 0):
                        yield {"bad": d.replace("%s", e + b)}
                        if not (b.endswith(("&", "&#", "lt", "amp")) and ";" in e):  # may become a reference
                            yield {"bad": d.replace("%s", b + e)}
                if harvest.name(s):
                    y = d.replace("%s", "x")
                    for b in (y.replace("</", "<%s></" % s, 1), y.replace("</", "</%s></" % s, 1), y.replace("</", "<%s a='1' a='2'/></" % s, 1), y.replace("</", "<q:%s/></" % s, 1), y.replace("</", "<%s></%sx></" % (s, s), 1),
                              y.replace("</", "<%s a='<'/></" % s, 1), y.replace("<math", "<math %s='<'" % s, 1), y.replace("<math", "<math %s='1' %s='2'" % (s, s), 1), y.replace(">x<", ">&%s;<" % s, 1) if ">x<" in y and s not in ("lt", "gt", "amp", "quot", "apos") else y + "<",
                              y + "<%s/>" % s, "<%s/>" % s + y, "<%s>" % s + y, y + "</%s>" % s, "<!DOCTYPE %s" % s + y):
                        if b != y:
                            yield {"bad": b}
                    if s.lower() != "mml":
                        yield {"bad": y.replace("</", "<%s:p/></" % s, 1)}
                        yield {"bad": y.replace("math", "math %s:a='1'" % s, 1)}
            if "<" not in s:
                yield {"bad": s}
                yield {"bad": s * 3}
            for f in ("%s", "<math>%s</math>", "<math><mi>%s</mi></math>", "<%s", "<%s>", "<math %s>", "<math %s/>", "<a %s='1'>", "&%s;", "<!--%s", "<!%s>", "<?%s?>", "%s%s%s", "<%s><math/></%s>", "<mi %s", "<math><%s", "<math a=%s/>", "<math a='%s></math>"):
                yield {"soup": f.replace("%s", s)}
            if new:
                for n in (300, 4000):
                    for f in ("%s", "<math>%s</math>", "<a %s>", "<a b='%s'", "<!-- %s", "<%s"):
                        yield {"soup": f.replace("%s", s * n)}
                        yield {"soup": f.replace("%s", (s + " ") * n)}

    def gen(self, src, tier):
        kind = src.weighted([(25, "cut"), (35, "corrupt"), (25, "soup"), (15, "bytes")])
        if kind == "soup":
            return {"soup": "".join(src.choice(SOUP) for _ in range(src.between(1, 25)))}
        if kind == "bytes":
            return {"soup": "".join(src.choice("<>/&;=\"' mia-!?[]x1\n:") for _ in range(src.between(1, 30)))}
        m = some_tree(src, tier, src.choice([0, 10]), 2)
        st = surface.Style(src, plain=kind == "corrupt" or src.chance(50))
        st.broken = src.choice([0, 0, 30])
        if kind == "cut":
            st.prefix = src.choice([0, 0, 100])
            x = surface.document(src, [m], st, epilog=False).strip()
            return {"bad": x[:src.below(len(x))]}
        x = gen.xml(m) if not src.chance(30) else surface.document(src, [m], st, epilog=False)
        return {"bad": corrupt(src, x)}

    def check(self, case):
        if "bad" in case:
            rejected(case["bad"])
            return True, ["malformed"]
        x = case["soup"]
        out = call(x)
        if out.ok:
            if not isinstance(out.value, str):
                raise Violation("gives %r, not a string\n  input: %s" % (out.value, short(x)))
        elif not {"ExpatError", "InvalidNumberOfChildrenError", "RecursionError"} & set(out.mro) or ("RecursionError" in out.mro and x.count("<") < 150):
            raise Violation("neither converts nor raises the parse error but %r\n  input: %s" % (out, short(x)))
        label = "soup accepted" if out.ok else "soup rejected"
        if "mml:" not in x and not re.search(r"<[^<>]*\s", x):
            # nothing to repair: what the parser says is final
            ok = well_formed(re.sub(r"[\n\r]", " ", x).strip())
            got = "ExpatError" not in out.mro
            if ok != got:
                raise Violation("a string the XML parser %s is %s: %r\n  input: %s" % ("accepts" if ok else "rejects", "accepted" if got else "rejected", out, short(x)))
            label += " (decided)"
        return True, [label]

    def show(self, case):
        return repr(short(case.get("bad", case.get("soup"))))


SOUP = ["<math>", "</math>", "<math/>", "<mi>", "</mi>", "<mn>", "</mn>", "<mrow>", "</mrow>", "<msup>", "</msup>", "x", "+", "&", "&amp;", "&#65;", "&a;", "<", ">", "\"", "'", "=", " ", " a",
        " a=b", " a=\"b\"", "<mi a", "<mi a=", "<mi a=\"", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "mml:", "<mml:mi>", "</mml:mi>", "<!DOCTYPE math>", "\n", "é",
        "<mi>x</mi>", "<mo>+</mo>", "<mfrac><mi>a</mi><mi>b</mi></mfrac>", "<mtable>", "</mtable>"]


def well_formed(x):
    from xml.parsers import expat

    p = expat.ParserCreate(namespace_separator=" ")
    try:
        p.Parse(x, True)
        return True
    except expat.ExpatError:
        return False


def closings(x):
    """Corruptions of the closing tags and roots of a plain document."""
    for c in re.finditer(r"</(\w+)>", x):
        a, b, t = c.start(), c.end(), c.group(1)
        yield x[:a] + x[b:]
        yield x[:b] + c.group() + x[b:]
        yield x[:a] + "</%sx>" % t + x[b:]
        yield x[:a] + "</%s>" % t.swapcase() + x[b:]
        yield x[:a] + "<%s>" % t + x[b:]
        yield x[:b - 1] + x[b:]
        yield x[:a] + x[a + 1:]
        yield x[:a] + "</ %s>" % t + x[b:]
    for c in re.finditer(r"</(\w+)></(\w+)>", x):
        if c.group(1) != c.group(2):
            yield x[:c.start()] + "</%s></%s>" % (c.group(2), c.group(1)) + x[c.end():]
    yield x + x
    yield x + " x"
    yield "x " + x
    yield x + "<mi>y</mi>"
    yield x + "</math>"
    yield "<mrow>" + x
    yield x + "<mrow>"
    yield x + "&amp;"


def corrupt(src, x):
    """One malformed text out of a document without closing tags in comments."""
    k = src.weighted([(30, "text"), (40, "closing"), (15, "attr"), (15, "quote")])
    # a ">" in a text or an attribute value could end what the corruption opens
    plain = "<!" not in x and "<?" not in x and re.fullmatch(r"[^<>]*(?:<[^<>]*>[^<>]*)*", x)
    if k == "closing" and plain and "</" in x:
        cs = list(closings(x)) if len(x) < 4000 else [x + x]
        return src.choice(cs)
    # and a quote in a text what it opens
    strict = plain and "'" not in x and re.fullmatch(r"""(?:[^<>"]|<[\w:.-]+(?:\s+[\w:.-]+="[^"<>]*")*\s*/?>|</[^<>"]*>)*""", x)
    if k == "attr" and strict and re.search(r"<\w+", x):
        h = src.choice([h.end() for h in re.finditer(r"<[\w:.-]+(?=[\s/>])", x)])
        return x[:h] + src.choice([" q=\"1\" q=\"2\"", " q=\"<\"", " q='&undefined;'", " q='&'", "\"", " q=\"1\"\"", " q=\"", " q='", " ='1'", " 1q=\"1\"", " q=\"1\"r=\"2\"", "<"]) + x[h:]
    if k == "quote" and strict and "\"" in x:
        # all quotes of the text delimit attribute values: one of them is left alone
        q = src.choice([h.start() for h in re.finditer("\"", x)])
        return x[:q] + x[q + 1:]
    if plain:
        spots = [h.start() for h in re.finditer("<", x)][1:]
        if spots:
            p = src.choice(spots)
            return x[:p] + src.choice(BAD_TEXT) + x[p:]
    return src.choice(["junk " + x, x + "junk", x + x, x + "<math/>", x + "</math>", "<mrow>" + x])


# ------------------------------------------------------------------ C21

HOSTS = ["div", "p", "html", "body", "span", "article", "Math", "mathx", "maths", "mrow", "mi", "semantics", "annotation-xml", "mtext", "formula", "m"]
HTML = """a abbr address area article aside audio base blockquote body br button canvas caption center code col dd del details dialog dl dt em embed figcaption figure footer form frame h1 h6 head header
hr html i iframe img input ins kbd label legend li link main mark menu meta nav noembed noframes noscript object ol option param pre q ruby s samp script section select small source span strike
strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul var video wbr xmp svg g foreignObject desc metadata defs symbol use comment ignore hidden example
document root xml doc chapter para equation inlineequation informalequation formula disp-formula inline-formula alternatives tex-math mml inlinemediaobject textobject phrase item choice prompt feedback
w:p w:r m:oMath m:oMathPara""".split()
HTML = [h for h in HTML if ":" not in h] + "mjx-container mjx-assistive-mml mjx-math math-renderer math-field katex inline-math display-math tex-math-alternative accessible-math noprint".split()
CLASSES = """mjx-assistive-mathml MJX_Assistive_MathML mjx-chtml katex katex-mathml katex-html katex-display MathJax MathJax_Preview MathJax_Display mwe-math-element mwe-math-mathml-inline
mwe-math-mathml-a11y mwe-math-fallback-image-inline sr-only visually-hidden screen-reader-text tex2jax_ignore tex2jax_process mathjax_ignore asciimath2jax_ignore notranslate nomathml hidden d-none
invisible ltx_Math ltx_equation equation inline-formula display-formula comment ignored no-math template draft preview source math mathml tex MathEquation accessibility alternate duplicate copy""".split()
HOST_ATTRIBUTES = {
    "class": CLASSES + ["%s %s" % (a, b) for a, b in zip(CLASSES[::3], CLASSES[1::3])], "id": ["math", "MathJax-Element-1-Frame", "preview", "x"], "hidden": ["", "hidden", "true"],
    "style": ["display:none", "display: none;", "visibility:hidden", "position:absolute;clip:rect(1px,1px,1px,1px)", "opacity:0", "font-size:0"], "role": ["presentation", "math", "none", "img"],
    "aria-hidden": ["true", "false"], "data-mathml": ["<math/>", "x"], "translate": ["no"], "lang": ["en", "ar"], "dir": ["rtl"], "contenteditable": ["false"], "data-type": ["math"], "type": ["math/mml", "math/tex", "text/html"],
    "xmlns": ["http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML", ""], "inert": [""], "media": ["print"], "specific-use": ["x"], "content-type": ["math"], "rend": ["inline"],
    "notation": ["tex", "box"], "alt": ["x"], "encoding": ["application/x-tex"], "display": ["none", "block"], "tabindex": ["-1"], "data-latex": ["x"], "selected": [""], "disabled": ["disabled"], "mathvariant": ["bold"], "open": ["", "["]}


def adorned(tier):
    """Hosts with attributes of HTML around formulas that have them too: each value alone, and many at once."""
    from random import Random

    r = Random(17)
    head = lambda h, a: h + "".join(" %s=\"%s\"" % (k, gen.esc_attr(v)) for k, v in a.items())
    f, g = [T("mi", "x")], [["mfrac", {}, [T("mi", "a"), T("mi", "b")]]]
    hosts = sorted(set(HOSTS + HTML))
    for k, vs in HOST_ATTRIBUTES.items():
        for v in vs:
            for h in ("span", "div", "p", "script" if r.random() < 0.5 else "mjx-container"):
                inner = [head(h, {k: v}), [["math", {}, f]]]
                yield {"host": inner}
                yield {"host": ["div", ["t", ["math", {}, g], inner, [head(h, {k: v}), [["math", {}, g], "u"]], ["math", {k: v}, f], ["p", [inner, ["math", {k: v}, g]]]]]}
    pool = {**gen.VOCABULARY, **HOST_ATTRIBUTES}
    names = [n for n in sorted(pool) if not n.startswith("xml:")]
    for i in range(2500 if tier == "quick" else 20000):
        def some():
            out = {n: r.choice(pool[n]) for n in names if r.random() < 0.4}
            return out
        a, b, c = r.choice(hosts), r.choice(hosts), r.choice(hosts)
        m, n = ["math", some() if i % 2 else {}, f], ["math", some() if i % 3 == 0 else {}, g]
        yield {"host": [head(a, some()), [[head(b, some()), [m, "t"]], n, [c, [[head(a, some()), [m]]]]]]}


JUNK = ["text", "x = 1", "math", "<math>", "α", "\\frac{1}{2}", " ", "\n", "&", "1", "mml:math"]


class C21(Prop):
    id = "C21"
    rule = """Random host documents with 0 to 12 math elements at any depth, text and MathML elements outside of math around them, equal formulas,
    empty formulas, math elements nested in others to depth 4, and math as the root; the result must be the non-empty conversions
    of the outermost ones (each also converted alone) joined by one space.  All documents of 0 to 6 formulas in five host shapes are
    enumerated.  Non-trivial: no or at least two formulas, or a nested one."""
    quick = 20000
    thorough = 120000

    def enumerate(self, tier):
        fs = [["math", {}, [T("mi", "x")]], ["math", {}, []], ["math", {}, [T("mi", "x"), T("mo", "+"), T("mn", "1")]], ["math", {}, [["mfrac", {}, [T("mi", "a"), T("mi", "b")]]]],
              ["math", {}, [T("mphantom", []), T("mi", "")]], ["math", {}, [T("mi", "x"), ["math", {}, [T("mi", "y")]]]], ["math", {}, [["math", {}, [["math", {}, [T("mi", "z")]]]]]]]
        for n in range(0, 7):
            for s in range(len(fs)):
                for step in (0, 1, 2):
                    ms = [fs[(s + i * step) % len(fs)] for i in range(n)]
                    yield {"host": ["div", ms]}
                    yield {"host": ["div", ["t"] + sum(([m, " and "] for m in ms), [])]}
                    yield {"host": ["html", [["body", [["p", [m]] for m in ms]]]]}
                    h = ["p", ["end"]]
                    for m in reversed(ms):
                        h = ["div", [m, "between", h]]
                    yield {"host": h}
                    h = ["p", ["start"]]
                    for m in ms:
                        h = ["div", [h, m]]
                    yield {"host": h}
        for a in fs:
            yield {"host": a}
            for t in ("mrow", "msqrt", "mtd", "mphantom", "custom", "merror", "mfenced", "menclose"):
                yield {"host": ["math", {}, [T("mi", "l"), [t, {}, [a, T("mi", "m"), a]], T("mi", "r")]]}
            for b in fs:
                for t in ("mfrac", "msup", "mover", "mroot"):
                    yield {"host": ["math", {}, [[t, {}, [a, b]]]]}
                    yield {"host": ["div", [["math", {}, [[t, {}, [a, b]]]], b, "x", a]]}
        # equal formulas of all sizes, side by side and apart
        long = [["math", {}, [T("mi", "x"), T("mo", "+")] * k + [["mfrac", {}, [T("mi", "a"), T("mn", str(k))]]]] for k in (0, 1, 2, 3, 5, 8, 13, 30, 80, 200, 600)]
        long += [["math", {}, [["mfrac", {}, [T("mi", "a"), T("mi", "b")]], T("mo", "+"), ["mfrac", {}, [T("mi", "c"), T("mi", "d")]]]], ["math", {"display": "block", "id": "m1"}, [["msqrt", {}, [T("mi", "x"), ["msup", {}, [T("mi", "y"), T("mn", "2")]]]]]],
                 ["math", {}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [T("mi", "a")]], ["mtd", {}, [T("mi", "b")]]]]] * 3]]], ["math", {}, [T("mtext", "a long text of many words " * 3)]]] + fs
        for i, f in enumerate(long):
            g = long[(i + 3) % len(long)]
            for ks in ([f, f], [f, f, f], [f, f, g], [g, f, f], [f, g, f], [f, "t", f], [f, ["p", [f]]], [["p", [f]], f], [["p", [f]], ["p", [f]]], [["p", [f, f]], "t", g, f, g, f], [f, g, f, g], [f] * 7,
                       [["math", {"id": "2"}, f[2]], f], [["math", {}, [f]], f], [["math", {}, [f, f]], f, ["math", {}, [f, f]]], [["math", {}, f[2] + [T("mi", "q")]], f], [f, ["math", {}, f[2] + [T("mi", "q")]]]):
                yield {"host": ["div", ks]}
                yield {"host": ["html", ["t", ["body", ks]]]}
        for n in (9, 17, 33, 50, 65, 129, 257, 300, 1025, 3000, *gen.MORE_SIZES):
            ms = [["math", {}, [T("mn", str(i))]] for i in range(n)]
            yield {"host": ["div", ms]}
            yield {"host": ["div", [["math", {}, [T("mi", "x")]] for i in range(n)]]}
            yield {"host": ["div", [fs[(i * 3 + 1) % len(fs)] for i in range(n)]]}
            yield {"host": ["div", ["t" * n * 20, ms[0], "u" * n * 20, ms[1]]]}
            yield {"host": ["div", [["p", []] for _ in range(n)] + [ms[0], fs[5]] + [["p", ["t"]] for _ in range(n)] + [ms[1]]]}
            yield {"host": ["math", {}, [T("mi", "l")] + ms[:200] + [T("mi", "r")]]}
            yield {"host": ["div", [["math", {}, [m, T("mi", "r")]] for m in ms]]}
        for d in (2, 5, 9, 13, 17, 25, 33, 49, 65, 85, *[n for n in gen.MORE_SIZES if n < 85]):
            for leaf in (["math", {}, [T("mi", "z")]], ["math", {}, []]):
                for t in ("math", "mrow", "custom", "msqrt"):
                    x = leaf
                    for i in range(d):
                        x = [t, {}, [x] if i % 2 or t == "math" and d % 2 else [T("mi", "abc"[i % 3]), x]]
                    yield {"host": ["math", {}, [x]]}
                    yield {"host": ["div", [["math", {}, [x]], "and", ["math", {}, [x, T("mi", "q"), x]], leaf]]}
                h = ["p", [leaf]]
                for i in range(d):
                    h = [HOSTS[i % len(HOSTS)], [h] if i % 3 else ["t", h, fs[i % 4]]]
                yield {"host": h}
                yield {"host": ["div", [fs[0], h, fs[3], h]]}
        yield from adorned(tier)
        # elements of other vocabularies that are named like formulas, with formulas inside and beside
        for pre in ("x", "m", "svg", "mathml", "ml", "MML"):
            for name in ("math", "mi", "Math", "mrow", "semantics"):
                h = pre + ":" + name + " xmlns:" + pre + "=\"u:v\""
                for ks in (["t"], [], [["mi", ["x"]]], ["t", fs[0]], [["p", [fs[2], ["mi", ["x"]]]]], [[pre + ":math", ["x", fs[3]]]], [fs[5], "t", fs[1], fs[0]]):
                    yield {"host": [h, ks]}
                    yield {"host": ["div", [fs[2], [h, ks], [h, ks], fs[0]]]}
                    yield {"host": ["math", {}, [T("mi", "l"), [h.split()[0], {"xmlns:" + pre: "u:v"}, [T("mi", "x"), T("mn", "1")]], T("mi", "r")]]}
        for h in ("div xmlns:math=\"u\"", "div math=\"x\"", "div class=\"math\"", "mathml", "math.x", "math-x", "math_x", "inlinemath", "x-math", "MATH", "mAth", "maTH", "matha", "amath", "mat", "ath", "mrow class=\"math\""):
            for ks in (["t"], [["mi", ["x"]]], ["t", fs[0], fs[3]], [["p", [fs[2]]]]):
                yield {"host": [h, ks]}
                yield {"host": ["div", [[h, ks], fs[0], [h, ks]]]}
        for i, h in enumerate(sorted(set(HOSTS + HTML + gen.REAL_NAMES + gen.UNKNOWN + sorted(gen.KNOWN - {"math"})))):
            for ks in ([fs[0]], ["t", fs[2], ["mi", ["x"]], fs[5]], [["p", [fs[3]]], "u"], [fs[1]]):
                yield {"host": [h, ks]}
                yield {"host": ["div", [fs[2], [h, ks], [HTML[i % len(HTML)], [[h, ks], fs[0]]], fs[3]]]}
                yield {"host": [h, [[h, [[h, ks]]], fs[6]]]}
        for j in JUNK + ["", None]:
            for h in HOSTS:
                yield {"host": [h, [j] if j is not None else []]}
                yield {"host": [h, [["mi", ["x"]], ["mrow", [["mo", ["+"]]]], fs[0], ["mi", ["x"]]]]}

    def harvested(self, tier):
        a, b, e = ["math", {}, [T("mi", "x")]], ["math", {}, [["mfrac", {}, [T("mi", "a"), T("mi", "b")]]]], ["math", {}, []]
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            hosts = ["div class=\"%s\"" % gen.esc_attr(s), "p id=\"%s\" title=\"x\"" % gen.esc_attr(s)]
            if harvest.name(s):
                hosts += [s, s + " a=\"b\"", "div %s=\"true\"" % s, "div %s=\"\"" % s, "x:%s xmlns:x=\"u\"" % s, "div xmlns:%s=\"u\"" % s]
            m = ["math", {"class": s}, [T("mi", "x")]]
            ms = [m, ["math", {"display": s, "title": s, "alttext": s}, [T("mi", "y")]], ["math", {}, [T("mi", s)]], ["math", {}, [T("mtext", s), ["math", {"id": s}, [T("mi", "z")]]]]]
            if harvest.name(s):
                ms += [["math", {s: "true"}, [T("mi", "x")]], ["math", {s: s}, []], ["math", {}, [[s, {}, [T("mi", "x")]], ["math", {s: ""}, [[s, {}, [["math", {}, [T("mi", "q")]]]]]]]]]
            for j, h in enumerate(hosts):
                if new or (i + j) % 3 == 0:
                    for ks in ([], ["t"], [a], ["t", b, ["mi", ["x"]], e, a], [["p", [a]], s, b], [["i", [s]], a, s], ms, [["p", ["t", ms[i % len(ms)]]], a]):
                        yield {"host": [h, ks]}
                        yield {"host": ["div", [b, [h, ks], a, [h, ks]]]}
                        yield {"host": ["html", [["body", [[h, [[h, ks], b]]]]]]}
            for x in ms if new else ms[i % len(ms):][:1]:
                yield {"host": x}
                for y in (a, b, e):
                    yield {"host": ["div", [y, x, y, s, x]]}
                    yield {"host": ["div", [s, x, y, ["p", [x, s, y]]]]}
                    yield {"host": ["math", {}, [T("mi", "l"), x, ["mrow", {}, [y, x]]]]}
        for i, m in enumerate(harvest.trees(None, None, tier, most=3000)):
            yield {"host": ["div", [a, "t", m, b]]}

    def gen(self, src, tier):
        budget = [src.between(0, 12)]

        def formula():
            if src.chance(8):
                return src.choice([["math", {}, []], ["math", {}, [T("mi", "")]], ["math", {}, [T("mphantom", [])]]])
            p = Profile(depth=src.below(3), boost={"math": src.choice([0, 6, 25])}, wide=5, token=dup_token if src.chance(30) else None)
            m = gen.math(src, p, 0, 3)
            if src.chance(15):
                m = ["math", {}, [T("mi", "o"), m]]
            return m

        def host(d):
            ks = []
            for _ in range(src.between(0, 5)):
                k = src.weighted([(40, "math"), (30, "text"), (30, "host")])
                if k == "math" and budget[0] > 0:
                    budget[0] -= 1
                    ks.append(formula())
                elif k == "host" and d > 0:
                    ks.append(host(d - 1))
                else:
                    ks.append(src.choice(JUNK))
            return [src.choice(HOSTS), ks]

        return {"host": formula() if src.chance(15) else host(src.between(0, 4))}

    def check(self, case):
        h = case["host"]
        roots = []
        xml = write_host(h, roots)
        exp = expect(roots)
        out = call(xml)
        must_be(out, exp, xml)
        if exp[0] == "ok":
            alone = [call(gen.xml(m)) for m in roots]
            if not all(a.ok for a in alone) or out.value != " ".join(a.value for a in alone if a.value):
                raise Violation("the result is not that of the formulas one by one\n  input: %s\n  alone: %r\n  got:   %r" % (xml, alone, out))
        nested = any(n[0] == "math" and n is not m for m in roots for n in gen.walk(m))
        return len(roots) != 1 or nested, ["formulas %s" % (len(roots) if len(roots) < 4 else ">3")] + (["nested"] if nested else [])

    def show(self, case):
        return write_host(case["host"], [])


def write_host(h, roots):
    """[tag, [content]] is host markup (text, host or formula), [tag, {attrs}, content] a formula."""
    if isinstance(h, str):
        return gen.esc_text(h)
    if len(h) == 3:
        roots.append(h)
        return gen.xml(h)
    return "<%s>%s</%s>" % (h[0], "".join(write_host(k, roots) for k in h[1]), h[0].split()[0])


# ------------------------------------------------------------------ C22

WS = [" ", "  ", "\n", "\t", "\r\n", "\u00a0", "\u2003", "\u2009", "\u202f", "\u3000", "\u2028", "\u2029", "\u0085", "\u1680", "\u205f", "&#10;", "&#9;", "&#13;", "&#32;", "&#xA0;", "\u2000\u200a", "\n\n\n",
      " \u00a0 ", "&#x2003;"]
HOLE = "\ue0ff"  # stands for white space in texts and values until it is written


class C22(Prop):
    id = "C22"
    rule = """Random trees over all elements with white space (24 kinds: blanks, tabs, line breaks, references to them, non-breaking and other
    Unicode spaces) put between elements, around and inside token texts, inside tags and in fence and separator values, and with
    empty elements, tables and fenced tables that bring their own line breaks; the output must be free of white space other than
    single inner blanks, and equal to the reference rendering.  All kinds of white space at all places of every shape are enumerated.
    Non-trivial: white space other than single blanks in the input, or a table."""
    quick = 24000
    thorough = 150000

    def enumerate(self, tier):
        for m in every_shape(("mi", "text", "empty", "mo")):
            x = gen.xml(m)
            yield {"roots": [m], "xml": x}
            for w in WS:
                if w.isspace() or w.startswith("&"):
                    plain = w if w.strip(" \t\r\n") == "" else None
                    if plain:
                        yield {"roots": [m], "xml": plain + x.replace("><", ">%s<" % w) + plain}
                        yield {"roots": [m], "xml": re.sub(r"(<\w+)(?=[ />])", r"\g<1>" + plain, x)}
                    else:
                        yield {"roots": [m], "xml": x.replace("><", ">%s<" % w)}
                    yield {"roots": [m], "xml": re.sub(r">([^<>]+)<", lambda g: ">%s%s%s<" % (w, g.group(1), w), x)}
                    yield {"roots": [m], "xml": re.sub(r">([^<>]+)<", lambda g: ">%s%s<" % (g.group(1).replace(" ", w), w), x)}
        for w in WS:
            r = unescape(w)
            for tag in model.TOKENS + ("mrow", "custom"):
                for t in (r, r + "a" + r, "a" + r + "b", "a" + r + r + "b" + r, r + "+", "1" + r + "2", "α" + r + "β", "a" + r + "α"):
                    if tag in model.TOKENS:
                        for a in ({}, {"mathvariant": "bold"}, {"mathvariant": "monospace"}):
                            yield {"roots": [["math", {}, [[tag, a, t]]]], "xml": gen.xml(["math", {}, [[tag, a, HOLE]]]).replace(HOLE, t.replace(r, w))}
                            yield {"roots": [["math", {}, [T("mi", "x"), [tag, a, t], T("mi", "y")]]],
                                   "xml": gen.xml(["math", {}, [T("mi", "x"), [tag, a, HOLE], T("mi", "y")]]).replace(HOLE, t.replace(r, w))}
            for k in ("open", "close", "separators"):
                for v in (r, r + "[" + r, "[" + r, r + ")", ";" + r + ","):
                    el = ["mfenced", {k: HOLE}, [T("mi", "a"), T("mi", "b"), T("mi", "c")]]
                    wr = w if w not in ("\n", "\t", "\r\n", "\n\n\n") else " "
                    for mk in (lambda e: [e], lambda e: [T("mi", "l"), e, T("mi", "r")]):
                        yield {"roots": [["math", {}, mk(["mfenced", {k: v if wr == w else v.replace(r, " ")}, el[2]])]],
                               "xml": gen.xml(["math", {}, mk(el)]).replace(HOLE, v.replace(r, wr))}
        for n in (9, 33, 129, 513, 2049, *gen.MORE_SIZES):
            for w in (" ", "\n", "\t", "\u00a0", "\u2003 ", "\r\n", "&#10;", "\u3000\u2028"):
                r = unescape(w)
                for tag in model.TOKENS:
                    for t in (r * n + "a", "a" + r * n, "a" + r * n + "b", ("a" + r) * n + "c", r + "a" * n + r + "b", ("α" + r) * min(n, 513) + "b"):
                        yield {"roots": [["math", {}, [T(tag, t), T("mi", "y")]]], "xml": "<math><%s>%s</%s>%s<mi>y</mi></math>" % (tag, t.replace(r, w), tag, w * (n if r.isspace() else 0))}
                xs = [T("mi", "x") if i % 3 else T("mrow", []) for i in range(n)]
                yield {"roots": [["math", {}, xs]], "xml": "<math>" + w.join(map(gen.xml, xs)) + "</math>"}
        # one thing with white space in it as the whole formula, which has attributes
        from random import Random
        r = Random(29)
        spaced = [[t, {}, f.replace("_", w)] for t in model.TOKENS for w in ("  ", "\n", "\t ", "\u00a0\u00a0", "\u2003") for f in ("a_b", "_a", "a_", "α_b_1")]
        spaced += [["mtable", {}, [["mtr", {}, [["mtd", {}, []], ["mtd", {}, [T("mi", "a")]], ["mtd", {}, []]]]] * n] for n in (1, 2, 3)]
        spaced += [[t, {}, [T("mrow", []), T("mtext", " a \n b "), T("mrow", [])]] for t in ("mrow", "mstyle", "msqrt", "mfenced", "menclose", "merror", "custom", "mtr", "semantics", "maction")]
        spaced += [["mfenced", {"open": "[", "close": "]"}, [["mtable", {}, [["mtr", {}, [["mtd", {}, []], ["mtd", {}, []]]]] * 2]]], ["msup", {}, [T("mtext", "a  b"), T("mrow", [])]]]
        for i in range(24 if tier == "quick" else 200):
            for n in spaced:
                a = {k: r.choice(gen.VOCABULARY[k]) for k in gen.VOCABULARY_NAMES if r.random() < 0.5}
                yield {"roots": [["math", a, [n]]]}
        # several formulas, any of which may come out empty
        full = [T("mi", "a")], [["mtable", {}, [["mtr", {}, [["mtd", {}, []], ["mtd", {}, []]]]] * 2]], [T("mtext", " b ")]
        void = [], [T("mphantom", [T("mi", "x")])], [T("mi", " ")], [T("mo", "\u2062")]
        for n in range(1, 6):
            for bits in range(2 ** n):
                for k in range(3):
                    yield {"roots": [["math", {}, (full[(i + k) % 3] if bits >> i & 1 else void[(i + k) % 4])] for i in range(n)]}
        for n in (17, 64, 300, *gen.MORE_SIZES):
            yield {"roots": [["math", {}, full[i % 3] if i % n in (0, n - 1) else void[i % 4]] for i in range(n)]}
            yield {"roots": [["math", {}, void[i % 4]] for i in range(n)]}
        for m in nested_matrices():
            yield {"roots": [m]}
        for m in big(("mrow1", "mrow2", "table", "pmatrix", "matrix", "phantom", "mfenced3", "multi2"), ("mrow", "mtable", "mphantom", "custom"), (17, 129)):
            yield {"roots": [m]}
        for e in ([], [T("mrow", [])], [T("mi", "")], [T("mi", " ")], [T("mphantom", [])], [T("mtext", " ")], [["mrow", {}, [T("mo", "\u2062"), T("mi", "")]]], [T("mi", ""), T("mi", "")],
                  [["mtable", {}, []]], [["mtr", {}, []]], [T("mspace", []), T("mspace", [])], [T("mo", "\u2061")]):
            for n in (1, 2, 3):
                yield {"roots": [["math", {}, e * n]]}
                yield {"roots": [["math", {}, [T("mi", "a")] + e * n + [T("mi", "b")]]]}
                yield {"roots": [["math", {}, e * n + [T("mi", "b")]]]}
                yield {"roots": [["math", {}, [T("mi", "a")] + e * n]]}
                yield {"roots": [["math", {}, [["msqrt", {}, e * n], ["mfrac", {}, [["mrow", {}, e * n], ["mrow", {}, e]]]]]]}

    def harvested(self, tier):
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            e = gen.esc_text(s)
            for j, w in enumerate(WS):
                r = unescape(w)
                for k, tag in enumerate(model.TOKENS):
                    if new or (i + j + k) % 23 == 0:
                        for t, v in ((r + s, w + e), (s + r, e + w), (s + r + s, e + w + e), (s + r + r + "a", e + w + w + "a"), ("1" + r + s + r, "1" + w + e + w)):
                            yield {"roots": [["math", {}, [T(tag, t), T("mi", "y")]]], "xml": "<math><%s>%s</%s><mi>y</mi></math>" % (tag, v, tag)}
                if w.strip(" \t\r\n") == "" and (new or (i + j) % 5 == 0):
                    for n in harvest.nodes(s):
                        x = gen.xml(n)
                        yield {"roots": [["math", {}, [n, n, T("mi", "z")]]], "xml": w + "<math>" + w + x.replace("><", ">" + w + "<") + w + x + "<mi>z</mi>" + w + "</math>" + w}
        for m in harvest.trees(None, None, tier, most=6000):
            yield {"roots": [m]}

    def gen(self, src, tier):
        p = Profile(depth=src.between(0, DEPTH[tier] - 1), wide=8, boost={"mtable": 10, "mfenced": 10, "unknown": 6})
        m = gen.math(src, p, 0, 4)
        ws = [src.choice(WS) for _ in range(src.between(1, 3))]
        wide = [w for w in ws if w.strip(" \t\r\n") == ""] or [" "]
        out = []

        def go(n):
            out.append("<" + n[0])
            for k, v in n[1].items():
                out.append((src.choice(wide) if src.chance(20) else " ") + "%s=\"%s\"" % (k, gen.esc_attr(v)))
            out.append((src.choice(wide) if src.chance(20) else "") + ">")
            if isinstance(n[2], str):
                t = gen.esc_text(n[2])
                real = n[2]
                if src.chance(40):
                    a, b = src.choice(ws + [""]), src.choice(ws)
                    t, real = a + t + b, unescape(a) + real + unescape(b)
                if len(n[2]) > 1 and n[2].isalnum() and src.chance(20):
                    i, w = src.between(1, len(n[2]) - 1), src.choice(ws)
                    t, real = n[2][:i] + w + n[2][i:], n[2][:i] + unescape(w) + n[2][i:]
                n[2] = real
                out.append(t)
            elif n[2]:
                for k in n[2]:
                    if src.chance(30):
                        out.append(src.choice(ws))
                    go(k)
                if src.chance(30):
                    out.append(src.choice(ws))
            elif src.chance(30):
                out.append(src.choice(ws))
            out.append("</" + n[0] + ">")

        if src.chance(20):
            out.append(src.choice(wide))
        go(m)
        if src.chance(20):
            out.append(src.choice(wide))
        return {"roots": [m], "xml": "".join(out)}

    def check(self, case):
        xml = case.get("xml") or canonical(case["roots"])
        exp = expect(case["roots"])
        out = call(xml)
        if out.ok and (out.value != " ".join(out.value.split()) or any(c.isspace() and c != " " for c in out.value)):
            raise Violation("the output is not one trimmed line with single spaces\n  input:  %s\n  output: %r" % (xml, out.value))
        must_be(out, exp, xml)
        odd = bool(re.search(r"\s\s|[^\S ]|&#", xml)) or "<mtable" in xml
        return odd, ["empty output"] if exp[1] == "" else []


def unescape(w):
    return re.sub(r"&#(x?)([0-9A-Fa-f]+);", lambda g: chr(int(g.group(2), 16 if g.group(1) else 10)), w)
