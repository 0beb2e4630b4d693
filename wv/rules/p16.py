"""P16: a job given to a worker pool is run exactly once or handed back; it is never lost, dropped or duplicated."""
from .common import *
from . import pool


def run(P, rep):
    rep.rules += ["typestate of the submitted job over every path of the three submit functions: on success the job was moved to exactly "
                  "one worker, on failure to none and the error owns it; it is dropped on no path",
                  "typestate of each job inside the worker threads' bodies: received (or given at the start) => called exactly once before the "
                  "next receive and before the thread ends; dropped on no path, also when the called job panics",
                  "the queue of a worker holds nothing and a job is offered without waiting: a job is taken only by a worker that is free",
                  "a worker that may end while its queue is open has a queue that holds nothing (a job is given only to a worker that waits for it)"]
    rep.assumptions += ["std::sync::mpsc: a successful send transfers the value to the receiver, a failed one gives it back"]
    R = pool.roots(P, rep)
    subs = pool.submit_runs(P, rep, R)
    for k, f, e in subs:
        okn = errn = 0
        for n in e.ends:
            if n.kind != "return":
                continue
            h, d = n.st.mon[0]
            r = result_var(n.val)
            w = f.span[0] + ":" + str(f.span[1])
            if r == 0:
                okn += 1
                rep.check("submit-ok", h == 1 and d == 0, "%s:h%d,d%d" % (k, h, d),
                          "%s reports success with the job handed to %s worker(s) and dropped %d time(s)" % (short_name(f), h, d), w, short(e.path_to(n)))
            elif r == 1:
                errn += 1
                rep.check("submit-err", h == 0 and d == 0 and pool.holds(e, n.st, n.val, pool.JOB), "%s:h%d,d%d" % (k, h, d),
                          "%s reports failure but the job was handed to %d worker(s), dropped %d time(s) or is not in the error" % (short_name(f), h, d),
                          w, short(e.path_to(n)))
            else:
                rep.bad("submit-result", k, "%s returns a value that is neither success nor failure: %s" % (short_name(f), show(n.val)), w)
        rep.floor("successful submissions of " + k, okn, 1)
        rep.floor("refused submissions of " + k, errn, 1)
        sends = [x for x in e.all_events() if x.kind == "call" and x.name in pool.SEND and len(x.args) > 1 and x.args[1] is pool.JOB]
        rep.check("submit-waits", all(x.name.endswith("::try_send") for x in sends), k, "%s waits until a worker is free to take the job" % short_name(f),
                  next((x.where() for x in sends if not x.name.endswith("::try_send")), ""))
    ws = pool.workers(P, rep, R, subs)
    rep.floor("worker thread bodies", len({w[1].key for w in ws}), 2)
    for k, wf, v, st, byref, ev, e0 in ws:
        first = [x for x in pool.jobs_in(e0, st, v) if pool.JOB is x]
        for unw in (False, True):
            e = Engine(P, monitors=[pool.Worker(first, None)], poison=False,
                       unwinds=(lambda c, x: x.kind == "invoke" and x.name in pool.CALL and len(x.args) > 0) if unw else None)
            run_closure(e, v, st, wf, byref)
            rep.engine(e, wf)
            calls = len({(x.ctx, x.block) for x in e.all_events() if x.kind == "invoke" and x.name in pool.CALL})
            rep.floor("job calls in " + k, calls, 1)
            seen = set()
            for n in e.nodes:
                ms = n.st.mon[0] if n.st.mon else ()
                for x in ms:
                    if x.k == "s" and x.a[0] not in ("quits", "queue") and x not in seen:
                        seen.add(x)
                        rep.bad("worker-job", k + ":" + x.a[0], "worker started by %s: %s" % (k, x.a[0][5:]), ev.where(), short(e.path_to(n)))
                if n in e.ends and n.kind in ("return", "unwound") and any(x.k != "s" for x in ms):
                    rep.bad("worker-job", k + ":leftover", "worker started by %s ends with a received job that was not run" % k, ev.where(), short(e.path_to(n)))
                if any(x.k == "s" and x.a[0] == "queue" for x in ms) and "queue" not in seen:
                    seen.add("queue")
                    rep.bad("worker-queue", k + ":holds", "worker started by %s: its queue takes jobs while it runs another one, so an accepted job may wait behind "
                            "it" % k, ev.where(), short(e.path_to(n)))
                if n in e.ends and n.kind in ("return", "unwound") and any(x.k == "s" and x.a[0] == "quits" for x in ms):
                    rep.bad("worker-queue", k + ":quits", "worker started by %s ends because it waited long enough, while its queue may hold a job that was "
                            "accepted" % k, ev.where(), short(e.path_to(n)))
            if not seen:
                rep.ok("worker-job", k)


def short_name(f):
    return f.name.split("::<")[0]
