"""Replaces text in a source file of /repo and keeps each line's own line ending."""
import difflib, sys
def replace(path, old, new, n=1):
    raw = open(path, "rb").read(); ol = raw.split(b"\n")
    txt = raw.replace(b"\r", b"").decode("utf-8", "surrogateescape")
    if txt.count(old) < 1: raise SystemExit("%s: pattern not found: %r" % (path, old[:80]))
    if n == 1 and txt.count(old) > 1: raise SystemExit("%s: pattern found %d times: %r" % (path, txt.count(old), old[:80]))
    nl = [x.encode("utf-8", "surrogateescape") for x in txt.replace(old, new).split("\n")]
    out = []
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, [x.rstrip(b"\r") for x in ol], nl, autojunk=False).get_opcodes():
        if tag == "equal": out += ol[i1:i2]
        else:
            ref = ol[i1] if tag == "replace" else ol[i1 - 1] if i1 else ol[0]
            out += [x + (b"\r" if ref.endswith(b"\r") else b"") for x in nl[j1:j2]]
    open(path, "wb").write(b"\n".join(out))
