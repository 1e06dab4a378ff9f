"""C15, C20, C23: failures, histories and size."""
import json
import os
import re
import subprocess
import sys
import threading
import time

from . import common, fresh, gen, harvest, model, surface
from .common import Violation, call
from .gen import Profile
from .prop import EXPRESSIONS, LEAVES, REAL, SHAPES, Prop, T, atoms, check_roots, dressed, expect, expressions, filled, hollow, must_be, packed, strayed
from .p_struct import DEPTH, NAMES, copy, dup_token

# ------------------------------------------------------------------ C15

TAGS = ["math", "mi", "mo", "mn", "mtext", "mrow", "mpadded", "mstyle", "msub", "msup", "msubsup", "mfrac", "mroot", "msqrt", "mover", "munder", "munderover",
        "mmultiscripts", "mfenced", "menclose", "merror", "maction", "mphantom", "mtable", "mtr", "mtd", "mlabeledtr", "mprescripts", "none", "semantics",
        "annotation", "annotation-xml", "mspace", "mglyph", "ms", "maligngroup", "malignmark", "custom", "div", "mstack", "msline", "apply", "MSUP", "mfraction"]


def kid(i):
    return [T("mi", "abcdefgh"[i % 8]), T("mn", str(i)), ["mrow", {}, [T("mi", "p"), T("mo", "+")]], T("mi", ""), T("none", []), T("mtext", "t u")][i % 6]


class C15(Prop):
    id = "C15"
    rule = """Trees (depth to 4, thorough 6) in which the children of 0 to 3 elements are removed, doubled or replaced, wrong counts at any position
    (also in phantoms, later alternatives of actions and content of tokens, which are not rendered), empty elements, unknown elements, text
    instead of children; the outcome must be an InvalidNumberOfChildrenError that names an offending rendered tag and its two numbers of children exactly when the tree has
    one, and the reference rendering otherwise.  Every element with 0 to 6 children of 6 kinds, alone and in every hole of every shape, is
    enumerated.  Non-trivial: a wrong count somewhere in the tree, rendered or not, or an unknown or empty element."""
    quick = 24000
    thorough = 160000

    def enumerate(self, tier):
        acts = [{}, {"actiontype": "toggle"}, {"actiontype": "tooltip"}, {"actiontype": ""}, {"actiontype": "actiontype"}]
        for t in TAGS:
            for a in acts if t == "maction" else [{}]:
                for n in range(0, 7):
                    for s in range(6):
                        ks = [kid(i + s) for i in range(n)]
                        if t in model.TOKENS:
                            ks = "x"
                        yield {"roots": [["math", {}, [[t, dict(a), ks]]]]}
                        if s == 0:
                            yield {"roots": [["math", {}, [T("mi", "l"), [t, dict(a), ks], T("mi", "r")]]]}
                            if t == "mmultiscripts" and n:
                                for j in range(n + 1):
                                    k2 = ks[:j] + [T("mprescripts", [])] + ks[j:]
                                    if j:
                                        yield {"roots": [["math", {}, [[t, {}, k2]]]]}
                if t not in model.TOKENS:
                    for x in ("text", " ", "2"):
                        yield {"roots": [["math", {}, [[t, dict(a), x]]]]}
        for b in (["mfrac", {}, []], ["msup", {}, [T("mi", "q")]], T("mi", "q")):
            for ks in ([T("mi", "a"), T("mi", "b"), T("mi", "c")], [T("mi", "a")], [T("mi", "a"), T("mi", "b")]):
                for tail in ([], [T("mn", "1")], [T("mn", "1"), T("mprescripts", []), T("mn", "2")], [T("mn", "1"), ["mprescripts", {}, [b]], T("mn", "2")]):
                    yield {"roots": [["math", {}, [["mmultiscripts", {}, ks + [["mprescripts", {}, [b]]] + tail], T("mi", "z")]]]}
        # text between the arguments, which is none
        for t in TAGS:
            for n in range(0, 5):
                ks = [kid(i) for i in range(n)]
                if t not in model.TOKENS:
                    for m in strayed([[t, dict(a), ks] for a in (acts if t == "maction" else [{}])]):
                        yield {"roots": [["math", {}, [m]]]}
        for m in hollow():
            yield {"roots": [["math", {}, [m, T("mi", "x")]]]}
        for n in dressed([n for t in TAGS if t not in model.TOKENS for c in range(5) for n in [[t, {}, [kid(i) for i in range(c)]]]], 8):
            yield {"roots": [["math", {}, [n]]]}
        # many children, right and wrong numbers
        for n in list(range(7, 40)) + [50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 500, 999, 1000, 1001, 1024, 1025]:
            for t in TAGS:
                if t in model.TOKENS:
                    continue
                for a in ({}, {"actiontype": "tooltip"}) if t == "maction" else [{}]:
                    ks = [kid(i + n) for i in range(n)]
                    yield {"roots": [["math", {}, [[t, dict(a), ks]]]]}
                    if t == "mmultiscripts":
                        for at in (1, 2, 3, n // 2, n // 2 + 1, n - 1):
                            yield {"roots": [["math", {}, [[t, {}, ks[:at] + [T("mprescripts", [])] + ks[at:]]]]]}
        bad = [["mfrac", {}, [T("mi", "a")]], ["msup", {}, [T("mi", "a"), T("mi", "b"), T("mi", "c")]], ["msubsup", {}, [T("mi", "a"), T("mi", "b")]], ["munderover", {}, []],
               ["mroot", {}, [T("mi", "a")]], ["mover", {}, [T("mi", "a")]], ["munder", {}, [T("mi", "a")]], ["msub", {}, []], ["mmultiscripts", {}, [T("mi", "a"), T("mi", "b")]],
               ["maction", {"actiontype": "tooltip"}, []]]
        for b in bad:
            for s in sorted(SHAPES):
                for k in range(SHAPES[s][0]):
                    for leaf in ("mi", "empty"):
                        yield {"roots": [["math", {}, [filled(s, k, b, leaf)]]]}
                    yield {"roots": [["math", {}, [["mphantom", {}, [filled(s, k, b)]]]]]}
                    yield {"roots": [["math", {}, [["maction", {"actiontype": "statusline"}, [T("mi", "s"), filled(s, k, b)]]]]]}
                    for c in bad[:: 3]:
                        yield {"roots": [["math", {}, [filled(s, k, b), c]]]}
            yield {"roots": [["math", {}, [T("mi", "x")]], ["math", {}, [b]]]}
            yield {"roots": [["math", {}, [b]], ["math", {}, [T("mi", "x")]]]}
        yield {"roots": [["math", {}, []]]}

    def harvested(self, tier):
        bad = [["mfrac", {}, [T("mi", "a")]], ["msup", {}, [T("mi", "a"), T("mi", "b"), T("mi", "c")]], ["munderover", {}, []], ["mmultiscripts", {}, [T("mi", "a"), T("mi", "b")]], ["maction", {"actiontype": "tooltip"}, []], ["mroot", {}, "t"]]
        for m in harvest.trees(None, None, tier):
            yield {"roots": [m]}
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            for j, n in enumerate(harvest.nodes(s)):
                for k, t in enumerate(sorted(model.ARITY) + ["mmultiscripts", "maction", "mphantom", "mtable", "mprescripts"]):
                    if new and harvest.fits(s, n[0]) or (i + j + k) % 31 == 0 and harvest.fits(s, n[0]):
                        for c in range(5):
                            yield {"roots": [["math", {}, [[t, {}, [n] * c], T("mi", "z")]]]}
                            yield {"roots": [["math", {}, [[t, {}, [n] + [kid(q) for q in range(c)]]]]]}
                        yield {"roots": [["math", {}, [[t, {"class": s}, [T("mi", "a")]]]]]}
            for j, b in enumerate(bad):
                b = [b[0], dict(b[1]), b[2]]
                if harvest.name(s) and s not in gen.EFFECTIVE:
                    yield {"roots": [["math", {}, [T("mi", "a"), [s, {}, [b]]]]]}
                    yield {"roots": [["math", {}, [[b[0], dict(b[1], **{s: "true"}), b[2]], [s, {}, []]]]]}
                    yield {"roots": [["math", {s: "1"}, [["mrow", {s: s}, [b]]]]]}
                for a in ("class", "title", "style", "encoding"):
                    yield {"roots": [["math", {}, [[b[0], dict(b[1], **{a: s}), b[2]]]]]}
                    yield {"roots": [["math", {}, [["custom", {a: s}, [["mrow", {a: s}, [b]]]]]]]}
                for t in model.TOKENS:
                    if harvest.fits(s, t) and (new or (i + j) % 7 == 0):
                        yield {"roots": [["math", {}, [T(t, s), b, T(t, s)]]]}
                        yield {"roots": [["math", {}, [[b[0], b[1], [T(t, s) for _ in b[2]] if isinstance(b[2], list) else s]]]]}
                        yield {"roots": [["math", {}, [["maction", {"actiontype": s}, [T(t, s), b]]]]]}
                        yield {"roots": [["math", {}, [["mphantom", {"class": s}, [b]], T(t, s)]]]}
        for n in gen.MORE_SIZES:
            for t in TAGS:
                if t not in model.TOKENS and n <= 2000:
                    yield {"roots": [["math", {}, [[t, {}, [kid(i + n) for i in range(n)]]]]]}

    def gen(self, src, tier):
        p = Profile(depth=src.between(1, DEPTH[tier]), wide=8, boost={"maction": 6, "mphantom": 5, "unknown": 8})
        m = gen.math(src, p, 0, 3)
        for _ in range(src.weighted([(45, 1), (25, 0), (20, 2), (10, 3)])):
            ns = [n for n in gen.walk(m) if n[0] not in model.TOKENS]
            fs = [n for n in ns if n[0] in model.ARITY or n[0] in ("mmultiscripts", "maction")]
            n = src.choice(fs) if fs and not src.chance(25) else src.choice(ns)
            op = src.choice(["drop", "add", "empty", "text", "double"])
            ks = model.kids(n)
            if op == "drop" and ks:
                del ks[src.below(len(ks))]
            elif op == "add" and isinstance(n[2], list):
                ks.insert(src.below(len(ks) + 1), gen.tree(src, p, src.below(2)))
            elif op == "empty":
                n[2] = []
            elif op == "text" and n[0] != "math":
                n[2] = src.choice(["t", "1", " ", "x y"])
            elif op == "double" and isinstance(n[2], list):
                n[2] = ks + [copy(k) for k in ks]
        for n in gen.walk(m):
            # what stands before the base of multiscripts has no meaning
            if n[0] == "mmultiscripts" and model.kids(n) and n[2][0][0] == "mprescripts":
                n[2][0] = ["mi", {}, "q"]
        return {"roots": [m]}

    def check(self, case):
        xml = case.get("xml") or (gen.xml(case["roots"][0]) if len(case["roots"]) == 1 else "<div>" + "".join(map(gen.xml, case["roots"])) + "</div>")
        exp = expect(case["roots"])
        out = call(xml)
        must_be(out, exp, xml)
        if not out.ok:
            bad = {f for r in case["roots"] for f in model.misfits(r)}
            said = set(re.findall(r"\d+", out.message))
            if not any(tag in out.message and {str(want), str(have)} <= said for tag, want, have in bad):
                raise Violation("the error does not say how many children are wanted and how many there are: %r\n  faults (tag, wanted, found): %s\n  input: %s"
                                % (out, sorted(bad)[:9], xml))
        ns = [n for r in case["roots"] for n in gen.walk(r)]
        wrong = any(n[0] in model.ARITY and len(model.kids(n)) != model.ARITY[n[0]] or n[0] == "mmultiscripts" and len(model.kids(n)) < 3 or
                    n[0] == "maction" and not model.kids(n) for n in ns)
        labels = ["rejected " + "/".join(exp[1]) if len(exp[1]) == 1 else "rejected several"] if exp[0] == "arity" else (
            ["unrendered fault accepted"] if wrong else ["accepted"])
        return wrong or any(n[2] == [] or n[0] not in TAGS[:30] for n in ns), labels


# ------------------------------------------------------------------ C20

BROKEN = ["", "<math>", "<math><mi>x</math>", "x", "<math><mi>x</mi></math><math/>", "<math a=\"<\"/>", "&", "<math>&foo;</math>", "<math><mi a", "<math></mi></math>"]
TRICKY = ["<math><mi display>x</mi></math>", "<math a=1><mi b>y</mi></math>", "<mml:math><mml:mi>x</mml:mi></mml:math>", "<math><mfrac><mi>a</mi></mfrac></math>",
          "<math><mfenced open=\"[\" close=\"]\"><mtable><mtr><mtd><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mtd></mtr></mtable></mfenced></math>",
          "<math><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></math>", "<math><mfenced separators=\";,.\"><mi>a</mi><mi>b</mi><mi>c</mi></mfenced></math>",
          "<math><mfenced><mi>a</mi><mi>b</mi><mi>c</mi></mfenced></math>", "<math><mi mathvariant=\"bold\">x</mi></math>", "<math><mi>x</mi></math>", "<math><mi mathvariant>x</mi></math>",
          "<math><mtext mathvariant=\"bold\">x</mtext><mtext>x</mtext></math>", "<math><maction><mi>a</mi><mi>b</mi></maction></math>", "<math><menclose><mi>a</mi></menclose></math>",
          "<math><maction actiontype=\"tooltip\"><mi>a</mi><mi>b</mi></maction></math>", "<math><menclose notation=\"box\"><mi>a</mi></menclose></math>", "<div/>", "<math/>"]


class C20(Prop):
    id = "C20"
    rule = """Histories of 2 to 40 conversions over a pool of 1 to 6 documents (random trees, near-copies of each other that differ in one token,
    attribute or child, documents with repairs, wrong child counts and malformed ones), repeated and in random order: every conversion must
    give what the same document gives in a process that has converted nothing before (a fork of one that only imported the code); histories with two or three
    threads switched at random traced lines by the check, threads running freely, runs of thousands of conversions, and the same documents in
    processes with other hash seeds, locales, encodings, optimisation and recursion limits are part of it.
    Non-trivial: some document is converted more than once with another one between."""
    quick = 3200
    thorough = 30000

    def enumerate(self, tier):
        pool = TRICKY + BROKEN
        for a in pool:
            for b in pool:
                yield {"docs": [a, b], "order": [0, 1, 0, 1, 1, 0]}
        yield {"docs": pool, "order": list(range(len(pool))) * 40}
        yield {"docs": pool, "order": [i for i in range(len(pool)) for _ in range(6)] + [5, 9, 0, 1, 2] * 8}
        for d in pool:
            yield {"docs": [d], "order": [0] * 12}
        yield {"docs": ["<math><mi>x%d</mi></math>" % i for i in range(1500)], "order": list(range(1500)) * 2}
        yield {"docs": ["<math><msup><mi mathvariant='bold'>x</mi><mn>%d</mn></msup></math>" % i for i in range(300)] + BROKEN, "order": list(range(310)) * 4}
        for i in range(0, len(pool), 2):
            for j in range(1, 6):
                yield {"docs": pool, "threads": [[i, (i + j) % len(pool)], [(i + j) % len(pool), i]], "switch": [j * 7, 11, 3 + i, 29, 2, 5, 50, 1]}
        # the same attributes on all elements, in documents that nest one shape in another and such that do not
        names = sorted(SHAPES)
        at = [(a, n) for a, n in sorted(atoms().items()) if n[0] != "mprescripts"]
        for extra in ({"class": "t"}, {}, {"id": "a", "mathvariant": "bold", "open": "[", "notation": "box"}):
            def doc(n):
                m = ["math", {}, [copy(n)]]
                for k in gen.walk(m):
                    k[1].update({a: v for a, v in extra.items() if a not in k[1]})
                return gen.xml(m)

            alone = [doc(SHAPES[s][1](*[LEAVES["mi"](j) for j in range(SHAPES[s][0])])) for s in names]
            for i, s in enumerate(names):
                nested = [doc(filled(t, k, SHAPES[s][1](*[LEAVES["mi"](j) for j in range(SHAPES[s][0])]))) for t in names for k in range(SHAPES[t][0])]
                yield {"docs": alone[i:i + 1] + nested, "order": [0] + [j for k in range(1, len(nested) + 1) for j in (k, 0)]}
                # all at once and then all again, so that what a rare shape left behind is seen by every other
                yield {"docs": nested + alone, "order": list(range(len(nested) + len(alone))) + list(range(len(nested) + len(alone)))[::-1]}
            docs = [doc(n) for _, n in at]
            for step in (1, 7, 31, 101):
                ix = [i * step % len(docs) for i in range(len(docs))]
                yield {"docs": docs, "order": ix + ix[::-1] + ix}
                yield {"docs": docs, "order": ix, "shared": True}
            two = [doc(["mrow", {}, [n, at[(i * 13 + 5) % len(at)][1]]]) for i, (_, n) in enumerate(at)]
            yield {"docs": docs + two, "order": list(range(len(docs) + len(two))) + list(range(len(docs) + len(two)))[::-1]}
        yield {"docs": pool, "order": list(range(len(pool))) * 3, "shared": True}
        # the same symbol as another kind of token, in another variant and inside others
        for cs in (gen.MI_SYMBOLS, gen.MO_SYMBOLS, gen.FALLBACK_SYMBOLS, gen.MN_SYMBOLS, ["x", "0", "%", "", "sin", "a b"]):
            docs = ["<math>%s</math>" % gen.xml([t, dict(a), c]) for c in cs for t, a in (("mi", {}), ("mo", {}), ("mn", {}), ("mtext", {}), ("mi", {"mathvariant": "bold"}), ("mtext", {"mathvariant": "bold"}))]
            if cs is not gen.MO_SYMBOLS or tier == "thorough":
                yield {"docs": docs, "order": list(range(len(docs))) + list(range(len(docs)))[::-1]}
            else:
                for j in range(3):
                    yield {"docs": docs[j * 600:][:600] or docs[:600], "order": list(range(min(600, len(docs[j * 600:]) or 600))) + list(range(min(600, len(docs[j * 600:]) or 600)))[::-1]}
        # large documents with the same fault at the same place, and ones that begin or end alike
        for n in (40, 400, 2000):
            body = "".join("<mi>%s</mi>" % "abcdefgh"[i % 8] for i in range(n))
            other = "".join("<mi>%s</mi>" % "hgfedcba"[i % 8] for i in range(n))
            docs = ["<math><mi %s>%s</mi>%s</math>" % (a, c, b) for a in ("a", "b", "a=1", "c='1'", "") for c in "xy" for b in (body, other)]
            docs += ["<math>%s<mi>%s</mi></math>" % (body, c) for c in "xy"] + ["<math>%s<mi>x</mi%s></math>" % (body, c) for c in ("", "/", "x")] + ["<math><mi>%s</mi>&foo;</math>" % (c * n) for c in "xy"]
            docs += ["<math><%s>%s%s</%s></math>" % (t, "x" * n, c, t) for t in ("mi", "mtext", "mn", "mo") for c in ("", "y", "z")]
            yield {"docs": docs, "order": list(range(len(docs))) + list(range(len(docs)))[::-1] + [i * 7 % len(docs) for i in range(len(docs))]}
        # long ones that differ in a single place only, or in the order
        for n in (5, 20, 60, 180, 600, 1800) + ((6000,) if tier == "thorough" else ()):
            body = ["abcdefgh"[i % 8] for i in range(n)]
            bodies = [body, body[::-1], body[1:] + body[:1]]
            for p in (0, 1, n // 4, n // 2, n * 3 // 4, n - 2, n - 1):
                for c in ("y", "z"):
                    bodies.append(body[:p] + [c] + body[p + 1:])
            if n > 1000:
                bodies = bodies[:3] + bodies[7:12]
            for f in ("<math><mrow>%s</mrow></math>", "<math><mi>%s</mi></math>", "<math><mtext>%s</mtext></math>", "<math><mi>q</mi><!--%s--><mi>r</mi></math>", "<math><mfenced separators='%s'><mi>q</mi><mi>r</mi><mi>s</mi></mfenced></math>"):
                docs = [f % "".join("<mi>%s</mi>" % c for c in b) if "mrow" in f else f % "".join(b) for b in bodies]
                yield {"docs": docs, "order": list(range(len(docs))) + list(range(len(docs)))[::-1]}
        for k in range(1 if tier == "quick" else 8):
            yield {"docs": pool, "free": 6, "rounds": 60 + k}

    def harvested(self, tier):
        docs = []
        for m in harvest.trees(None, ("mrow2", "msup", "mfrac", "mfenced3", "pmatrix"), tier, most=1500):
            docs.append(gen.xml(m))
        for s in harvest.flat():
            docs.append("<math><mi>%s</mi></math>" % gen.esc_text(s))
            docs.append("<math><mi a>%s</math>" % gen.esc_text(s))
        docs = list(dict.fromkeys(docs))
        for i in range(0, len(docs), 150):
            part = docs[i:i + 150] + TRICKY[:6] + BROKEN[:3]
            ix = list(range(len(part)))
            yield {"docs": part, "order": ix + ix[::-1]}
            if i % 450 == 0:
                yield {"docs": part, "order": ix[::3], "shared": True}
        for n in harvest.numbers():
            if 1 < n <= 20000:
                few = ["<math><mi>x</mi></math>", TRICKY[5], "<math><mi a>y</mi></math>", "<math>", "<math><msup><mi>x</mi></msup></math>"]
                yield {"docs": few, "order": [0] * (n + 2) + [1, 2, 3, 4] * 3 + [0]}
                yield {"docs": few, "order": [3] * (n + 2) + [4] * (n + 2) + [0, 1, 2, 3, 4]}
                many = ["<math><mi>x%d</mi></math>" % i for i in range(min(n, 6000) + 2)]
                yield {"docs": many, "order": list(range(len(many))) + list(range(len(many)))}

    def gen(self, src, tier):
        docs = []
        p = Profile(depth=src.between(0, 3), wide=6, token=dup_token if src.chance(40) else None)
        for _ in range(src.between(1, 4)):
            m = gen.math(src, p, 1, 2)
            docs.append(gen.xml(m))
            if src.chance(60):  # a near-copy
                c = copy(m)
                n = src.choice(list(gen.walk(c)))
                if isinstance(n[2], str):
                    n[2] = src.choice(["x", "y", "", "α", "+"])
                elif src.chance(40) and n[2]:
                    n[2].pop()
                elif n[0] in ("mfenced", "menclose", "maction", "mfrac", "mi", "mtext"):
                    n[1][src.choice(["open", "close", "separators", "notation", "actiontype", "bevelled", "mathvariant"])] = src.choice(["[", "bold", "box", "true", "toggle", "x", ";"])
                else:
                    n[0] = src.choice(["mrow", "mstyle", "msqrt", "mfenced", "merror"])
                docs.append(gen.xml(c))
            if src.chance(15):
                st = surface.Style(src, plain=True)
                st.broken = 40
                docs.append(surface.document(src, [m], st))
        while src.chance(40):
            docs.append(src.choice(TRICKY + BROKEN))
        kind = src.weighted([(75, "order"), (25, "threads")])
        ix = lambda: src.below(len(docs))
        if kind == "order":
            return {"docs": docs, "order": [ix() for _ in range(src.between(2, 40))]}
        return {"docs": docs, "threads": [[ix() for _ in range(src.between(1, 4))] for _ in range(src.between(2, 3))],
                "switch": [src.choice([1, 2, 3, 5, 8, 20, 60, 200]) for _ in range(src.between(1, 12))]}

    def check(self, case):
        docs = case["docs"]
        if "shared" in case:
            return shared(docs, case["order"]), ["shared objects"]
        if "order" in case:
            labels = ["history<=%d" % next(b for b in (5, 20, 100, 10 ** 9) if len(case["order"]) <= b)]
            want = alone(docs)
            last = None
            for step, i in enumerate(case["order"]):
                k = call(docs[i]).key()
                if k != want[i]:
                    raise Violation("conversion %d of the history gives %r, in a process of its own the document gives %r\n  document: %s\n  before it: %s" % (
                        step, k, want[i], docs[i], docs[last] if last is not None else ""))
                last = i
            return len(set(case["order"])) > 1 and len(case["order"]) > len(set(case["order"])), labels
        want = alone(docs)
        if "free" in case:
            bad = []

            def work(k):
                for r in range(case["rounds"]):
                    i = (k * 7 + r * (k + 1)) % len(docs)
                    got = call(docs[i]).key()
                    if got != want[i]:
                        bad.append((docs[i], want[i], got))

            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(case["free"])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(120)
            finally:
                sys.setswitchinterval(old)
            if bad:
                raise Violation("a conversion in one of several threads gives %r instead of %r\n  document: %s" % (bad[0][2], bad[0][1], bad[0][0]))
            return True, ["free threads"]
        res = interleaved(docs, case["threads"], case["switch"])
        if res is None:
            return False, ["threads inconclusive"]
        for t, order in enumerate(case["threads"]):
            for i, got in zip(order, res[0][t]):
                if got != want[i]:
                    raise Violation("a conversion interleaved with another thread gives %r instead of %r\n  document: %s\n  other threads: %r" % (
                        got, want[i], docs[i], [[docs[j] for j in o] for o in case["threads"]]))
        after = {i: call(d).key() for i, d in enumerate(docs)}
        if after != want:
            raise Violation("conversions in several threads change the results of later ones\n  documents: %r" % docs)
        return res[1] > 0, ["threads switched" if res[1] else "threads not switched"]

    def show(self, case):
        return json.dumps(case, ensure_ascii=False)[:600]

    def finish(self, tier, seed):
        """The same documents in processes that differ in everything that must not matter."""
        from random import Random

        class R(common.Src):
            def __init__(self):
                self.r = Random(seed * 77 + 5)

            def below(self, n):
                return self.r.randrange(n) if n > 1 else 0

        src = R()
        docs = list(TRICKY + BROKEN)
        for _ in range(300 if tier == "quick" else 3000):
            docs.append(gen.xml(gen.math(src, Profile(depth=src.between(1, 4)), 1, 3)))
        # what is alike comes one after the other: words in their order, the tokens of real documents, all sorts of elements
        letters = "abcdefghijklmnopqrstuvwxyz"
        ordered = sorted({a + b for a in letters for b in ("",) + tuple(letters)} | {w for w in EXPRESSIONS.split() if w.isalpha()} | {a.upper() for a in letters})
        nodes = [T("mi", w) for w in ordered] + [T("mn", str(i)) for i in range(130)] + [copy(n) for n in REAL]
        docs += [gen.xml(m) for m in packed(nodes + list(expressions()) + [n for _, n in sorted(atoms().items()) if n[0] != "mprescripts"])]
        want = [list(call(d).key()) for d in docs]
        labels = []
        # words of the code as environment variables
        words = {s: "1" for s in (*gen.EXTRA, *harvest.flat()) if re.fullmatch(r"[A-Za-z_]\w*", s) and not s.upper().startswith(("PYTHON", "LC_", "LANG", "LD_", "PATH", "HOME", "TMP", "MALLOC", "ORDER"))}
        for name, args, env in (("hash seed 1", [], {"PYTHONHASHSEED": "1"}), ("hash seed 4242", [], {"PYTHONHASHSEED": "4242"}),
                                ("C locale", [], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}),
                                ("Turkish", [], {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}), ("optimised", ["-O"], {}), ("no docstrings", ["-OO"], {}),
                                ("ISO-8859-1", [], {"LC_ALL": "en_US.ISO-8859-1", "PYTHONIOENCODING": "latin-1"}), ("reversed", ["-X", "utf8=0"], {"ORDER": "reversed"}),
                                ("isolated", ["-I"], {}), ("one process each way", [], {"ORDER": "shuffled"}), ("words as variables", [], words),
                                ("other clock", [], {"ORDER": "clock"}), ("many threads", [], {"ORDER": "threads", "MALLOC_ARENA_MAX": "1"}), ("debugging", ["-X", "dev"], {"ORDER": "debugging"}),
                                ("deep in the stack", [], {"ORDER": "deep"})):
            e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
            e.update(env)
            r = subprocess.run([sys.executable, "-B"] + args + [os.path.join(common.VERIF, "pbt", "child.py"), os.path.join(common.REPO, "src"), env.get("ORDER", "")],
                               input=json.dumps(docs).encode("ascii"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=600)
            if r.returncode:
                raise RuntimeError("child process (%s) failed: %s" % (name, r.stderr.decode(errors="replace")[-800:]))
            got = json.loads(r.stdout.decode("ascii"))
            for d, a, b in zip(docs, want, got):
                if a != b:
                    v = Violation("another process (%s) gives %r instead of %r\n  document: %s" % (name, b, a, d))
                    v.case = {"docs": [d], "order": [0, 0], "process": name}
                    raise v
            labels.append("process: " + name)
        return labels


def shared(docs, order):
    """The same converter objects used for one document after the other."""
    import mathml_to_latex.converter as c

    obj = c.MathMLToLaTeX()
    want = alone(docs)
    for i in list(order) + list(order)[::-1]:
        got = call(docs[i], obj.convert).key()
        if got != want[i]:
            raise Violation("a converter object that was used before gives %r instead of %r\n  document: %s" % (got, want[i], docs[i]))
    make, adapter = getattr(c, "make_xml_to_mathml_adapter", None), getattr(c, "MathMLElementToLatexConverterAdapter", None)
    try:
        els = make().convert("<math><mi>x</mi></math>")
        if len(els) != 1 or adapter().to_latex_converter(els[0]).convert() != "x":
            return True
    except Exception:  # the parts are made differently: only the public object can be shared
        return True
    reader, writer = make(), adapter()

    def by_parts(xml):
        # every converter object is asked twice, and every element converted by two of them
        twice = []
        for el in reader.convert(xml):
            a = writer.to_latex_converter(el)
            b = writer.to_latex_converter(el)
            twice.append([a.convert(), b.convert(), a.convert(), writer.to_latex_converter(el).convert()])
            if len(set(twice[-1])) > 1:
                raise Violation("the same element gives %r\n  document: %s" % (twice[-1], xml))
        return " ".join(t[0] for t in twice if t[0])

    for i in list(order) + list(order)[::-1]:
        got = call(docs[i], by_parts)
        if got.exc == "Violation":
            raise Violation(got.message)
        if got.key() != want[i]:
            raise Violation("converter objects that were used before give %r instead of %r\n  document: %s" % (got, want[i], docs[i]))
    return True


def alone(docs):
    """The outcome of each document converted alone in a process that has converted nothing before."""
    return dict(enumerate(fresh.outcomes(docs)))


def interleaved(docs, orders, switch):
    """Runs one thread per list of documents, one at a time, and hands over to the next after
    switch[0], switch[1], ... traced lines of the code under test.  Returns (results, switches),
    or None when the threads do not come to an end under this schedule (blocked on a lock)."""
    n = len(orders)
    gate = [threading.Semaphore(0) for _ in range(n)]
    done = [False] * n
    results = [[] for _ in range(n)]
    state = {"left": switch[0], "pos": 0, "switches": 0, "free": False}
    src = os.path.realpath(os.path.join(common.REPO, "src"))

    def hand_over(me):
        for k in range(1, n):
            j = (me + k) % n
            if not done[j]:
                state["switches"] += 1
                gate[j].release()
                return True
        return False

    def tick(me):
        if state["free"]:
            return
        state["left"] -= 1
        if state["left"] <= 0:
            state["pos"] += 1
            state["left"] = switch[state["pos"] % len(switch)]
            if state["pos"] < 400 and hand_over(me):
                if not gate[me].acquire(timeout=5):
                    state["free"] = True  # the other thread waits for something this one holds

    def work(me):
        def local(frame, event, arg):
            if event == "line":
                tick(me)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(src) else None

        gate[me].acquire()
        sys.settrace(tracer)
        try:
            for i in orders[me]:
                results[me].append(call(docs[i]).key())
        finally:
            sys.settrace(None)
            done[me] = True
            if not hand_over(me):
                pass

    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    for t in ts:
        t.start()
    gate[0].release()
    for t in ts:
        t.join(60)
        if t.is_alive():
            return None
    if state["free"]:
        return None
    return results, state["switches"]


# ------------------------------------------------------------------ C23

def chain(steps, leaf):
    """steps: [(shape, hole)] from the inside out."""
    n = leaf
    for s, k in steps:
        if s.startswith("node "):  # an element in the notation of JSON, its first child being the hole
            e = json.loads(s[5:])
            n = [e[0], e[1], [n] + e[2][1:]]
        else:
            n = filled(s, k, n) if s in SHAPES else _put(ATOMS[s], HOLES_OF[s][k], n)
    return ["math", {}, [n]]


def _put(node, path, new):
    if not path:
        return new
    return [node[0], node[1], [_put(c, path[1:], new) if i == path[0] else c for i, c in enumerate(node[2])]]


def _paths(node, path=()):
    """Where another node can stand inside this one."""
    for i, c in enumerate(node[2] if isinstance(node[2], list) else []):
        if c[0] not in ("mtr", "mtd", "none", "mprescripts"):
            yield path + (i,)
        yield from _paths(c, path + (i,))


ATOMS = {"atom " + a: n for a, n in atoms().items() if a not in SHAPES}
for _v in sorted(set(model.MI_VARIANTS) | set(model.TEXT_VARIANTS)):
    ATOMS["mstyle " + _v] = ["mstyle", {"mathvariant": _v}, [T("mi", "x")]]
HOLES_OF = {a: list(_paths(n)) for a, n in ATOMS.items()}
HOLES = [(s, k) for s in sorted(SHAPES) for k in range(SHAPES[s][0])]
ODD = [(a, k) for a in sorted(ATOMS) for k in range(len(HOLES_OF[a]))]


class Budget(BaseException):
    pass


def work_of(xml, limit):
    """Function calls made by one conversion, or None when it is over the limit."""
    count = [0]

    def prof(frame, event, arg):
        if event in ("call", "c_call"):
            count[0] += 1
            if count[0] > limit:
                raise Budget

    sys.setprofile(prof)
    try:
        out = call(xml)
    except Budget:
        return None, None
    finally:
        sys.setprofile(None)
    return count[0], out


WIDE = ("math", "mrow", "mfenced", "msqrt", "merror", "menclose", "maction", "custom", "rows", "cells", "pre", "post", "formulas", "mtext", "comments", "broken", "prefixed", "seps",
        "lines", "entities", "tokens", "nested tables", "attributes", "mixed")
LONG = ("mi", "mn", "mo", "mtext", "mtext words", "mtext symbols", "attr", "open", "separators", "comment", "name", "cdata", "blank", "between", "specials", "tag blanks", "refs")


def seconds(xml):
    """CPU time of one conversion."""
    t = time.process_time()
    out = call(xml)
    t = time.process_time() - t
    if not out.ok:
        raise Violation("a large document fails: %r" % out)
    return t


class C23(Prop):
    id = "C23"
    rule = """Chains of 100 nested elements through every hole of every shape and through random mixtures of them, at the default recursion limit,
    and of up to 500 at a larger one;
    rows, tables, lists, scripts, alternatives and formulas with up to 5000 parts; tokens, attribute values, comments, names and texts of up
    to 200000 characters; output compared with the reference rendering.  Eight times as many parts or characters may take at most a hundred
    times the CPU time (three measurements).  For chains the function calls of a conversion at depth 12 and 24
    are counted: four times the depth-dependent work is allowed for twice the depth (an exponential blow-up multiplies it by 2 to the 12).
    Non-trivial: at least 50 nested levels, 500 parts or 2000 characters, or a growth measurement."""
    quick = 320
    thorough = 8000

    def enumerate(self, tier):
        for s, k in HOLES:
            yield {"chain": [[s, k]], "levels": 100}
            yield {"chain": [[s, k]], "levels": 400, "stack": "large"}
            yield {"growth": [[s, k]]}
        for i, (s, k) in enumerate(HOLES):
            for d in (1, 5, 11, 17) if tier == "quick" else range(len(HOLES)):
                yield {"growth": [[s, k], list(HOLES[(i + d) % len(HOLES)])]}
            t = HOLES[(i * 7 + 3) % len(HOLES)]
            yield {"chain": [[s, k], list(t)], "levels": 100}
        for i, (a, k) in enumerate(ODD):
            yield {"growth": [[a, k]]}
            yield {"chain": [[a, k]], "levels": 100}
            yield {"growth": [[a, k], list(HOLES[i % len(HOLES)])]}
        sizes = (300, 3000) if tier == "quick" else (300, 1000, 3000, 5000, 20000)
        for w in WIDE:
            for n in sizes:
                yield {"wide": w, "n": n}
            yield {"time": "wide", "what": w, "n": 32000}
        for w in LONG:
            for n in (2000, 66000) if tier == "quick" else (2000, 66000, 200000, 400000):
                yield {"long": w, "n": n}
            yield {"time": "long", "what": w, "n": 240000}

    def harvested(self, tier):
        x, y = T("mi", "x"), T("mi", "y")
        for i, s in enumerate(harvest.flat()):
            new = s in gen.EXTRA
            els = [[t, {a: s}, [x, y]] for t in ("mrow", "mstyle", "custom", "msup", "mfrac", "mfenced", "menclose", "maction", "munder") for a in ("class", "mathvariant", "open", "notation", "actiontype", "bevelled")]
            els += [["mrow", {}, [x, T(t, s)]] for t in model.TOKENS if harvest.fits(s, t)] + [["msup", {}, [x, T(t, s)]] for t in model.TOKENS if harvest.fits(s, t)]
            if harvest.name(s):
                els += [[s, {}, [x]], [s, {}, [x, y]], ["mrow", {s: "true"}, [x, y]], ["msub", {s: s}, [x, y]], ["mfenced", {s: "1"}, [x]]]
            for j, e in enumerate(els):
                if e[0] in gen.KNOWN and e[0] != "mfenced" and any(e[0] in gen.EFFECTIVE.get(a, ()) and a != "notation" and a != "actiontype" for a in e[1]):
                    continue
                if new and (j % 5 == i % 5 or j > len(els) - 14) or (i + j * 7) % 97 == 0:
                    step = ["node " + json.dumps(e), 0]
                    yield {"growth": [step]}
                    yield {"chain": [step], "levels": 100}
                    yield {"growth": [step, list(HOLES[(i + j) % len(HOLES)])]}
        for n in harvest.numbers():
            for m in (n - 1, n, n + 1):
                if 2 < m <= 20000:
                    for w in WIDE:
                        yield {"wide": w, "n": m}
                if 2 < m <= 200000:
                    for w in LONG:
                        if m >= 8:
                            yield {"long": w, "n": m}
                if 2 < m <= 100:
                    for k, h in enumerate(HOLES):
                        if m == n or k % 3 == 0:
                            yield {"chain": [list(h)], "levels": m}

    def gen(self, src, tier):
        steps = [list(src.choice(ODD if src.chance(30) else HOLES)) for _ in range(src.between(1, 8))]
        if src.chance(40):
            return {"growth": steps[:4]}
        case = {"chain": steps, "levels": 100, "leaf": src.choice(["mi", "greek", "text", "empty", "mo"])}
        if src.chance(20):
            case.update(levels=src.between(100, 500), stack="large")
        return case

    def check(self, case):
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(20000)
        try:
            return self._check(case, limit)
        finally:
            sys.setrecursionlimit(limit)

    def _check(self, case, limit):
        if "growth" in case:
            steps = [tuple(s) for s in case["growth"]]
            leaf = T("mi", "x")
            a, b = chain(steps * -(-12 // len(steps)), leaf), chain(steps * -(-24 // len(steps)), leaf)
            xa, xb = gen.xml(a), gen.xml(b)
            ca, _ = work_of(xa, 5 * 10 ** 6)
            if ca is None:
                raise Violation("more than five million calls for a document of %d nested elements\n  input: %s" % (gen.depth(a), xa))
            cb, out = work_of(xb, 12 * ca + 20000)
            if cb is None:
                raise Violation("the work explodes with depth: %d calls at depth %d, more than %d at depth %d\n  input: %s" % (
                    ca, gen.depth(a), 12 * ca + 20000, gen.depth(b), xb))
            must_be(out, expect([b]), xb)
            return True, ["growth<=%d" % next(g for g in (2, 3, 4, 6, 13) if cb <= g * ca)]
        if "chain" in case:
            leaf = LEAVES[case.get("leaf", "mi")](0)
            steps = [tuple(s) for s in case["chain"]]
            unit = gen.depth(chain(steps, leaf)) - gen.depth(chain([], leaf))
            m = chain(steps * -(-case["levels"] // unit), leaf)
            xml = gen.xml(m)
            exp = expect([m])
            # the code under test gets the default limit, ten stack frames for each level
            sys.setrecursionlimit((20000 if "stack" in case else 1000) + depth_now())
            must_be(call(xml), exp, xml if len(xml) < 4000 else xml[:2000] + " ...")
            return gen.depth(m) > 50, ["chain, large stack" if "stack" in case else "chain"]
        if "time" in case:
            # the square of eight with a margin; below two seconds nobody waits
            f = wide if case["time"] == "wide" else long
            small, large = (f(case["what"], n)[0] for n in (case["n"] // 8, case["n"]))
            worst = None
            for _ in range(3):
                b = seconds(large)
                if b < 2:
                    return True, ["time under two seconds"]
                a = min(seconds(small) for _ in range(3))
                worst = min(worst or 10 ** 9, b / max(a, 0.01))
                if worst < 100:
                    return True, ["time in proportion"]
            raise Violation("the time explodes with size: eight times %s takes %.0f times as long (%.1f s)" % (case["what"], worst, b))
        xml, exp = (wide if "wide" in case else long)(case.get("wide") or case.get("long"), case["n"])
        out = call(xml)
        if not out.ok or out.value != exp:
            where = next((i for i, (p, q) in enumerate(zip(out.value, exp)) if p != q), min(len(out.value), len(exp))) if out.ok else 0
            raise Violation("a large document (%r) converts wrongly: %s" % (case, "%r instead of %r at %d (lengths %d and %d)" % (
                out.value[where:where + 60], exp[where:where + 60], where, len(out.value), len(exp)) if out.ok else repr(out)))
        return True, ["wide" if "wide" in case else "long"]


def depth_now():
    f, n = sys._getframe(), 0
    while f:
        f, n = f.f_back, n + 1
    return n


def wide(w, n):
    xs = [T("mi", "abcdefghijklmnopqrstuvwxyz"[i % 26]) if i % 3 else T("mn", str(i)) for i in range(n)]
    m = None
    if w in ("mrow", "mfenced", "msqrt", "merror", "menclose", "maction", "custom"):
        m = [w, {}, xs]
    elif w == "rows":
        m = ["mfenced", {"open": "[", "close": "]"}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [x]]]] for x in xs]]]]
    elif w == "cells":
        m = ["mfenced", {"open": "[", "close": "]"}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [x]] for x in xs]]]]]]
    elif w == "post":
        m = ["mmultiscripts", {}, [T("mi", "X")] + xs]
    elif w == "pre":
        m = ["mmultiscripts", {}, [T("mi", "X"), T("mn", "0"), T("mn", "1"), T("mprescripts", [])] + xs]
    elif w == "seps":
        m = ["mfenced", {"separators": "".join(",;|:."[i % 5] for i in range(n - 1))}, xs]
    elif w == "mtext":
        m = ["mrow", {}, [T("mtext", "t%d" % i) for i in range(n)]]
    elif w == "nested tables":
        m = ["mfenced", {"open": "(", "close": ")"}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [["mtable", {}, [["mtr", {}, [["mtd", {}, [x]]]]]]]]]] for x in xs]]]]
    elif w == "mixed":
        m = ["mrow", {}, [[["msup", "msub", "mfrac", "mover", "mroot"][i % 5], {}, [x, T("mn", "2")]] for i, x in enumerate(xs)]]
    elif w == "attributes":
        m = ["mrow", {"a%d" % i: str(i) for i in range(n)}, [T("mi", "x"), T("mi", "y")]]
    if m is not None:
        m = ["math", {}, [m]]
        return gen.xml(m), model.expected([m])
    flat = ["math", {}, xs]
    exp = model.expected([flat])
    if w == "math":
        return gen.xml(flat), exp
    if w == "formulas":
        return "<div>" + "".join(gen.xml(["math", {}, [x]]) for x in xs) + "</div>", exp
    body = [gen.xml(x) for x in xs]
    if w == "comments":
        return "<math>" + "".join("<!-- c%d -->%s<?p %d?>" % (i, b, i) for i, b in enumerate(body)) + "</math>", exp
    if w == "broken":
        return "<math>" + "".join(b.replace(">", " a b=%d c>" % i, 1) for i, b in enumerate(body)) + "</math>", exp
    if w == "prefixed":
        return "<mml:math>" + "".join(b.replace("<m", "<mml:m").replace("</m", "</mml:m") for b in body) + "</mml:math>", exp
    if w == "lines":
        return "<math>\r\n" + "\r\n\r\n\t".join(body) + "\n</math>\n", exp
    if w == "entities":
        return "<math>" + "".join("<%s>%s</%s>" % (x[0], "".join("&#%d;" % ord(c) for c in x[2]), x[0]) for x in xs) + "</math>", exp
    m = ["math", {}, [T("mi", "α" * (i % 3) or "β") for i in range(n)]]
    return gen.xml(m), model.expected([m])


def long(w, n):
    word = ("abcdefghijklmnopqrstuvwxyz0123456789" * (n // 36 + 1))[:n]
    def one(node, xml=None):
        m = ["math", {}, [node, T("mi", "z")]]
        return xml or gen.xml(m), model.expected([m])
    if w in model.TOKENS:
        return one(T(w, word))
    if w == "mtext words":
        return one(T("mtext", " ".join(word[i:i + 7] for i in range(0, n, 7))))
    if w == "mtext symbols":
        return one(T("mtext", ("a α." * (n // 4))[: min(n, 60000)]))
    if w == "specials":
        return one(T("mn", "1%_" * (n // 3)))
    if w == "attr":
        return one(["mi", {"title": word}, "x"])
    if w == "open":
        return one(["mfenced", {"open": "[" * n}, [T("mi", "x")]])
    if w == "separators":
        return one(["mfenced", {"separators": ";," * (n // 2)}, [T("mi", "x"), T("mi", "y"), T("mi", "z")]])
    if w == "comment":
        return one(T("mi", "x"), "<math><!--" + word + "--><mi>x</mi><mi>z</mi></math>")
    if w == "name":
        return one([("x" + word)[:30000], {}, [T("mi", "x")]])
    if w == "cdata":
        return one(T("mi", word), "<math><mi><![CDATA[" + word + "]]></mi><mi>z</mi></math>")
    if w == "blank":
        return one(T("mi", "x"), "<math><mi>" + " \n" * (n // 2) + "x" + "\t" * n + "</mi><mi>z</mi></math>")
    if w == "between":
        return one(T("mi", "x"), "\n" * n + "<math>" + " \n" * (n // 2) + "<mi>x</mi>" + "\t" * n + "<mi>z</mi></math>" + " " * n)
    if w == "tag blanks":
        return one(["mi", {"mathvariant": "bold"}, "x"], "<math><mi" + " " * n + "mathvariant='bold'" + "\n" * n + ">x</mi" + " " * n + "><mi>z</mi></math>")
    return one(T("mi", word[:20000]), "<math><mi>" + "".join("&#%d;" % ord(c) for c in word[:20000]) + "</mi><mi>z</mi></math>")
