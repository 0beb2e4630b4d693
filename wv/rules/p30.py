"""P30: nothing in the workspace is outside of what the compiler checks."""
from .common import *


def run(P, rep):
    rep.rules += ["unchecked: no block, function or implementation of the workspace is marked as not checked by the compiler, and no foreign functions are declared"]
    rep.assumptions += ["what the macros of other crates expand to, and the code of other crates and of the standard library, is theirs",
                        "tests and the helpers made for them are not part of the analysed program"]
    bodies = 0
    for unit, l in sorted(P.unchecked.items()):
        bodies += l[0]
        for what, file, line, at in l[1:]:
            if "test_utils" in at.split("::") or "tests" in at.split("::"):
                continue
            rep.bad("unchecked", "%s|%s|%s" % (unit, what, at), "%s: %s not checked by the compiler (line %d)" % (at, {"block": "a block", "function": "a function", "implementation": "an implementation"}.get(what, what), line), file)
    for f in P.fns.values():
        if f.span[0].startswith("wrus"):
            rep.fns.add(f.name)
    rep.ok("unchecked", "%d bodies of %d crates" % (bodies, len(P.unchecked)), n=max(bodies, 1))
    rep.floor("bodies", bodies, 100)
    rep.floor("crates", len(P.unchecked), 4)
