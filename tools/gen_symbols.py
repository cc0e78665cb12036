"""One-time generator of spec/symbols.json from the tables of the library.

The result is committed and is part of the specification: it is NOT regenerated
by any check (a check compares the code with the committed tables)."""
import json, re, sys
sys.path.insert(0, "/repo/src")
from mathml_to_latex import syntax as s

def toks(v):
    out = []
    for p in re.split(r"(\s)", v):
        if p:
            out.append(" " if p.isspace() else p)
    return out

def acc(a):
    cmd = s.accent_to_ltx_cmd.get(a.accent)
    return f"\\{cmd}{{{a.char}}}" if cmd else None

d = {
    "whitespace": [chr(c) for c in range(0x110000) if chr(c).isspace()],
    "asciiword": list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"),
    "ascii": [chr(c) for c in range(32, 127)],
    "linebreaks": ["\n", "\r"],
    "nbsp": "\u00a0",
    "symbols_named": {k: toks(v) for k, v in s.all_math_symbols_by_char.items()},
    "symbols_glyph": {k: toks(v) for k, v in s.all_math_symbols_by_glyph.items()},
    "operators_named": {k: toks(v) for k, v in s.all_math_operators_by_char.items()},
    "operators_glyph": {k: toks(v) for k, v in s.all_math_operators_by_glyph.items()},
    "numbers": {k: toks(v) for k, v in s.math_number_by_glyph.items()},
    "accented": {k: toks(acc(v)) for k, v in s.vowels_with_accents.items() if acc(v)},
    "fonts": {k: toks(f"\\{v.font_cmd}{{{v.letter}}}") for k, v in s.special_font_chars.items()},
}
json.dump(d, open("/verif/spec/symbols.json", "w"), ensure_ascii=False, indent=0)
