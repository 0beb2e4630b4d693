"""P29: the library leaves the process it runs in, and the files around it, alone."""
import re
from .common import *
from . import server

FILES = re.compile(r"^std::fs::(write|remove_\w+|rename|copy|hard_link|soft_link|create_dir\w*|set_permissions|DirBuilder::\w+|File::(create\w*|set_\w+|options)|OpenOptions::(write|append|create|create_new|truncate))$"
                   r"|^std::os::\w+::fs::(symlink|chown|lchown|fchown|chroot|symlink_file|symlink_dir|mkfifo)$|^rustls::(key_log_file::)?KeyLogFile::|KeyLogFile::new$")
FILEW = re.compile(r"^<&?(mut )?std::fs::File as std::io::Write>::")
PROGRAM = re.compile(r"^std::process::(Command::\w+|Child::\w+)$|CommandExt::")
PROCESS = re.compile(r"^std::env::(set_var|remove_var|set_current_dir)$|^std::panic::(set_hook|take_hook|update_hook)$|^(libc|nix|signal_hook|ctrlc)::")
END = re.compile(r"^std::process::(exit|abort)$|^(std|core)::intrinsics::abort$")
KINDS = [(FILES, "a file or directory is written, made, changed or removed"), (PROGRAM, "a program is started"), (PROCESS, "the environment, the directory or the hooks of the process are changed")]


def named(x, out):
    """every function named in a piece of MIR, called or passed on"""
    if isinstance(x, dict):
        fn = x.get("fn")
        if isinstance(fn, dict):
            out.append(fn)
        for k, y in x.items():
            if k != "fn":
                named(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            named(y, out)
    return out


def mentioned(P, f):
    out = []
    for b in f.blocks:
        named(b, out)
    # function items passed as values carry their name in their type
    for l in f.locals:
        t = P.types[l if isinstance(l, int) else l[0]]
        if t["k"] == "fndef" and isinstance(t.get("f"), dict):
            out.append(t["f"])
    return out


def run(P, rep):
    rep.rules += ["files: no function of the workspace names an operation that writes, makes, changes or removes a file or directory, or that opens one for writing;",
                  "programs, process: none starts a program or changes the environment, the directory, the panic hook or the signals of the process;",
                  "end: no function of the libraries, and no action of the programs, ends the process"]
    rep.assumptions += ["effects inside other crates are not followed, except those named in the rule; tests and the helpers made for them are not part of the analysed program"]
    local = [f for f in sorted(P.fns.values(), key=lambda f: f.key) if f.span[0].startswith("wrus") and not f.name.startswith("wruster::test_utils::")]
    reach = {}
    for f in local:
        reach[f.key] = mentioned(P, f)
        rep.fns.add(f.name)
    n = 0
    for f in local:
        me = server.bare(f.name)
        for fn in reach[f.key]:
            n += 1
            for pat, what in KINDS:
                hit = pat.search(fn["def"]) or pat.search(fn["name"])
                if not hit and pat is FILES:
                    hit = FILEW.search(fn["name"])
                if hit:
                    rep.bad("effects", me + "|" + fn["def"], "%s: %s (%s)" % (me, what, fn["def"]), f.span[0])
            if END.search(fn["def"]) and "wruster" in f.unit:
                rep.bad("end", me + "|" + fn["def"], "%s: the library ends the process it runs in (%s)" % (me, fn["def"]), f.span[0])
    # the actions of the programs
    acts = 0
    for f in local:
        if f.poly or not any(re.match(r"&('\w+ )?mut wruster::http::Request$", P.types[l if isinstance(l, int) else l[0]]["s"]) for l in f.locals[1:f.argc + 1]):
            continue
        acts += 1
        seen, todo = {}, [(f, server.bare(f.name))]
        while todo:
            g, path = todo.pop()
            if g.key in seen:
                continue
            seen[g.key] = path
            for fn in reach.get(g.key) or mentioned(P, g):
                if END.search(fn["def"]):
                    rep.bad("end", server.bare(f.name) + "|" + fn["def"], "an action ends the process (%s -> %s)" % (path, fn["def"]), f.span[0])
                h = P.fns.get(fn.get("key") or "")
                if h is not None and h.span[0].startswith("wrus"):
                    todo.append((h, path + " -> " + server.bare(h.name)))
    rep.ok("effects", "%d functions named in %d functions" % (n, len(local)), n=max(n, 1))
    rep.floor("functions of the workspace", len(local), 100)
    rep.floor("actions", acts, 1)
