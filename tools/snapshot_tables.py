"""Regenerates pbt/tables.json from /repo's dictionaries (run by hand only, never by a check).

The snapshot freezes the symbol renderings the oracle expects; it was reviewed by
hand and against the Unicode-derived expectations of C13 when it was taken."""
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo/src")
import mathml_to_latex.syntax as s

def merged(*tables):
    out = {}
    for t in reversed(tables):
        out.update({k: v for k, v in t.items() if v})
    return out

fallback = {}
for c, f in s.special_font_chars.items():
    fallback[c] = "\\%s{%s}" % (f.font_cmd, f.letter)
for c, a in s.vowels_with_accents.items():
    cmd = s.accent_to_ltx_cmd.get(a.accent)
    if cmd:
        fallback[c] = "\\%s{%s}" % (cmd, a.char)
    else:
        fallback.pop(c, None)
num = {k: v for k, v in s.math_number_by_glyph.items() if v}
json.dump({
    "mi": merged(s.all_math_symbols_by_char, s.all_math_symbols_by_glyph, num),
    "mo": merged(s.all_math_operators_by_char, s.all_math_operators_by_glyph, num),
    "mn": num,
    "fallback": fallback,
}, open("/verif/pbt/tables.json", "w"), ensure_ascii=False, indent=0, sort_keys=True)
