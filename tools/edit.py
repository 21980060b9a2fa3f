"""Replace a block of source text, reading over comment and blank lines between its lines."""
import re


def replace(s, old, new):
    """(new text, number of matches)"""
    n = s.count(old)
    if n == 1:
        return s.replace(old, new), 1
    if n > 1:
        return s, n
    ls = [l for l in old.split('\n')]
    pat = r'\n(?:[ \t]*(?://[^\n]*)?\n)*'.join(re.escape(l) for l in ls)
    ms = list(re.finditer(pat, s))
    if len(ms) != 1:
        return s, len(ms)
    m = ms[0]
    return s[:m.start()] + new + s[m.end():], 1
