"""A structural checker of LaTeX formulas: groups, fences, environments, alignment marks."""
import re

_TOKEN = re.compile(r"\\[a-zA-Z]+|\\.|.", re.S)
_DELIM_WORDS = {"\\langle", "\\rangle", "\\lceil", "\\rceil", "\\lfloor", "\\rfloor", "\\{", "\\}", "\\|"}


def problems(s):
    """Structural faults of formula `s`, [] when it is sound."""
    t = _TOKEN.findall(s)
    out, stack = [], []
    i, n = 0, len(t)

    def name(j):
        # the {name} that must follow \begin or \end at t[j]
        if j < n and t[j] == "{":
            k = j + 1
            while k < n and t[k] not in "{}":
                k += 1
            if k < n and t[k] == "}":
                return "".join(t[j + 1:k]), k + 1
        return None, j

    while i < n:
        c = t[i]
        i += 1
        if c == "{":
            stack.append("{")
        elif c == "}":
            if not stack or stack.pop() != "{":
                return out + ["unmatched } before %r" % "".join(t[i:i + 12])]
        elif c == "\\left" or c == "\\right":
            if i >= n or t[i].isspace() or t[i] in ("{", "}", "&", "\\\\") or (
                    len(t[i]) > 1 and t[i] not in _DELIM_WORDS):
                return out + ["%s without a delimiter before %r" % (c, "".join(t[i:i + 12]))]
            i += 1
            if c == "\\left":
                stack.append("\\left")
            elif not stack or stack.pop() != "\\left":
                return out + ["unmatched \\right before %r" % "".join(t[i:i + 12])]
        elif c == "\\begin":
            nm, i = name(i)
            if nm is None:
                return out + ["\\begin without a name"]
            stack.append("env " + nm)
        elif c == "\\end":
            nm, i = name(i)
            if nm is None or not stack or stack.pop() != "env " + nm:
                return out + ["unmatched \\end{%s}" % nm]
        elif c == "\\sqrt" and i < n and t[i] == "[":
            stack.append("[")
            i += 1
        elif c == "]" and stack and stack[-1] == "[":
            stack.pop()
            if i >= n or t[i] != "{":
                out.append("the index of a root is not followed by its radicand")
        elif c in ("&", "\\\\"):
            if not stack or not stack[-1].startswith("env "):
                out.append("%s outside of an environment" % c)
        elif c in ("%", "#", "$"):
            out.append("bare %s" % c)
    if stack:
        out.append("left open: " + " ".join(stack))
    return out


def words(s):
    """The control words of `s`."""
    return [w for w in _TOKEN.findall(s) if len(w) > 1 and w[1].isalpha() and w[1].isascii()]


def matrices(s):
    """Parses the environments of `s` into trees (name, rows) with rows = lists of cell
    strings, in the order in which they open; inner environments are replaced by their
    position in that order as \\x00<n>\\x00."""
    t = _TOKEN.findall(s)
    done = {}
    order = []
    stack = [["", [[""]]]]
    i = 0
    while i < len(t):
        c = t[i]
        i += 1
        if c in ("\\begin", "\\end") and i < len(t) and t[i] == "{":
            j = t.index("}", i)
            nm = "".join(t[i + 1:j])
            i = j + 1
            if c == "\\begin":
                order.append(None)
                stack.append([nm, [[""]], len(order) - 1])
            else:
                e = stack.pop()
                done[e[2]] = (e[0], [[x.strip() for x in r] for r in e[1]])
                stack[-1][1][-1][-1] += "\x00%d\x00" % e[2]
        elif c == "&":
            stack[-1][1][-1].append("")
        elif c == "\\\\":
            stack[-1][1].append([""])
        else:
            stack[-1][1][-1][-1] += c
    return [done[k] for k in sorted(done)], [[x.strip() for x in r] for r in stack[0][1]]
