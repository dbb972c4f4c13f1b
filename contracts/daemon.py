"""The daemon (C21)."""
from .base import *
from .removal import forbid, FS
from pyvc.interp import BreakEx, ContinueEx, Infeasible, PyRaise
import ast

DM = "zielen.daemon.Daemon."
PR = "zielen.profile.Profile."


def adjust():
    S = [None]

    class State:
        pass

    def now(I):
        s = S[0]
        t = I.fresh("now", REAL)
        if s.times:
            I.assume(s.times[-1] <= t)
        s.times.append(t)
        s.trace.append("time")
        return Sym(t)

    def last_adjust(I, a):
        s = S[0]
        if "value" in a:
            s.trace.append("set")
            s.value = term(a["value"], REAL)
            return None
        return Sym(s.value)

    def half_life(I, a):
        return Sym(Const("half_life", INT))

    def note(name):
        def h(I, a):
            s = S[0]
            s.trace.append(name)
            s.args[name] = a
            if name == "read":
                # whatever a sync has written meanwhile
                s.value = Const("stored_last_adjust", REAL)
            I.maybe_raise(name, OSError)
            s.trace.append(name + "!")
        return h

    con = base_contracts()
    con[PR + "last_adjust"] = last_adjust
    con[PR + "priority_half_life"] = half_life
    con[PR + "read"], con[PR + "write"], con[PD + "adjust_all"] = note("read"), note("write"), note("adjust_all")

    def body(I, f):
        w = world(I)
        S[0] = s = State()
        s.trace, s.args, s.times = [], {}, []
        s.value = start = Const("last_adjust", REAL)
        I.hooks["time"] = now
        forbid(I, *FS)
        half = Const("half_life", INT)
        I.assume(half > 0)
        pw = Function("pow", REAL, REAL, REAL)
        x, y = const("x", REAL), const("y", REAL)
        I.assume(ForAll([x], pw(RealVal("0.5"), x) == pw(RealVal(2), -x), patterns=[pw(RealVal("0.5"), x), pw(RealVal(2), -x)]))
        daemon = ObjV(I.loader.func("zielen.daemon.Daemon"), {"profile": w.profile, "profile_input": Sym(Const("profile_input", P))})
        iv = term(I.getattr(daemon, "ADJUST_INTERVAL"), REAL)
        kind, v = outcome(I, f, [daemon])
        changes = [t for t in s.trace if t in ("set", "write", "adjust_all")]
        if not s.times:
            I.oblige("looks at the clock", FF)
            return kind
        if kind == "raise" and not [t for t in s.trace if t.rstrip("!") in ("read", "write", "adjust_all")]:
            I.oblige("fails only if the profile cannot be read or changed", FF)
        if kind == "raise":
            return kind
        done = s.trace.count("adjust_all!")
        if done:
            I.oblige("adjusts only when the interval has passed", disj([t >= start + iv for t in s.times]))
        else:
            I.oblige("adjusts as soon as the interval has passed", s.times[0] <= start + iv)
            I.oblige("otherwise changes nothing", BoolVal(not changes))
            return kind
        I.oblige("adjusts all priorities once", BoolVal(done == 1))
        c = s.args["adjust_all"]
        factor = [v for k, v in c.items() if k != "self"]
        want = pw(RealVal("0.5"), iv / z3.ToReal(half))
        I.oblige("by the factor that halves them over the half-life", term(factor[0], REAL) == want)
        I.oblige("reads what a sync may have stored before changing it", BoolVal("read!" in s.trace and s.trace.index("read!") < min(
            [s.trace.index(t) for t in changes])))
        I.oblige("notes the time of the adjustment", disj([s.value == t for t in s.times]))
        I.oblige("stores it in the end", BoolVal("write!" in s.trace and "set" in s.trace and max(
            i for i, t in enumerate(s.trace) if t == "write!") > max(i for i, t in enumerate(s.trace) if t in ("set", "adjust_all!"))))
        I.oblige("reads nothing over it", BoolVal("read" not in s.trace[s.trace.index("set"):] if "set" in s.trace else True))
        return kind
    return body, con


EVENT = z3.DeclareSort("Event")
pathname, of_dir, when = Function("event_path", EVENT, P), Function("event_of_directory", EVENT, B), Function("event_time", EVENT, REAL)


def flag(I, v):
    t = I.truth(v)
    return BoolVal(t) if isinstance(t, bool) else t


def slots(env, obj, kind):
    """The variables and attributes that hold a value of this kind: (name, get, set)."""
    out = []
    for d in (env.vars, obj.attrs):
        for k, v in d.items():
            if isinstance(v, kind):
                out.append((d, k))
    return out


class EndOfRound(Exception):
    pass


def named(I, part):
    """The same part, with names for its condition and its paths."""
    if not isinstance(part, Part) or len(part.xs) != 1 or part.xs[0].sort() != EVENT or I.ctx:
        return part
    x = const("x", part.xs[0].sort())

    def name(hint, e):
        if e.num_args() < 2:
            return e
        f = I.fresh_fn(hint, x.sort(), e.sort())
        I.assume(ForAll([x], f(x) == z3.substitute(e, (part.xs[0], x)), patterns=[f(x)]))
        return f(part.xs[0])

    def walk(v):
        if isinstance(v, TupV):
            return TupV([walk(i) for i in v.items])
        return Sym(name("item", v.e)) if isinstance(v, Sym) and v.sort == P else v
    return Part(part.xs, name("picked", part.guard), walk(part.elem), part.keys, part.lt, part.ident, part.order)


def main_loop():
    """Every round of the event loop, from any state that the previous ones may have left."""
    W, S = [None], [None]
    OPER = lambda I: I.loader.modules["sqlite3"].ns["OperationalError"]

    class State:
        pass

    def now(I):
        t = I.fresh("now", REAL)
        S[0].times.append(t)
        return Sym(t)

    def incremented(I, a):
        s = S[0]
        I.oblige("increments once in a round", BoolVal(s.inc is None))
        I.oblige("what was adjusted meanwhile is not lost", BoolVal("wrote" not in s.trace))
        vals = [v for k, v in a.items() if k != "self"]
        s.inc = ListV(I.parts_of(vals[0])), vals[1]
        s.trace.append("increment")
        if I.choose("busy"):
            s.busy = True
            I.raise_(s.operational)
        s.trace.append("incremented")

    def adjusting(I, a):
        s = S[0]
        s.trace.append("adjust")
        if "drained" in s.trace:
            s.seen = ListV(s.slot[0][s.slot[1]].parts)
        if I.choose("busy adjusting"):
            s.busy = True
            I.raise_(s.operational)
        I.maybe_raise("adjust", OSError)

    def storing(I, a):
        s = S[0]
        I.maybe_raise("write", OSError)
        s.trace.append("wrote")

    con = base_contracts()
    con[DM + "_adjust"] = adjusting
    con[PD + "increment"] = incremented
    con[PR + "read"] = lambda I, a: I.maybe_raise("read", OSError)
    con[PR + "write"] = storing
    con[PR + "local_path"] = lambda I, a: Sym(L)
    con[PR + "remote_path"] = lambda I, a: Sym(R)
    con["zielen.commandbase.Command.__init__"] = lambda I, a: None
    con["zielen.commandbase.Command.select_profile"] = lambda I, a: W[0].profile

    def body(I, f):
        w = W[0] = world(I)
        S[0] = s = State()
        s.times, s.trace, s.inc, s.busy, s.queue, s.callback, s.watched, s.head, s.put = [], [], None, False, [], None, [], None, []
        s.operational = I.getattr(I.getattr(ModV("d", f.mod.ns), "sqlite3") if hasattr(f.mod, "ns") else None, "OperationalError")
        forbid(I, *FS)
        I.hooks["time"] = now
        I.hooks["queue.Queue"] = lambda I, o, a, k: s.queue.append(o)
        I.hooks["queue.Queue.put"] = I.hooks["queue.Queue.put_nowait"] = lambda I, o, a, k: s.put.append(a[0])
        I.hooks["threading.Thread"] = lambda I, o, a, k: None
        I.hooks["threading.Thread.start"] = lambda I, o, a, k: None
        I.hooks["pyinotify.WatchManager"] = lambda I, o, a, k: None

        def notifier(I, o, a, k):
            s.callback = a[1] if len(a) > 1 else k.get("default_proc_fun")
            I.oblige("the notifier serves the watches", BoolVal(isinstance(a[0], ObjV) and a[0].tag == "external:pyinotify.WatchManager"))
        I.hooks["pyinotify.ThreadedNotifier"] = notifier

        def started(I, o, a, k):
            s.trace.append("notifier")
        I.hooks["pyinotify.ThreadedNotifier.start"] = started

        def watch(I, o, a, k):
            names = ["path", "mask", "proc_fun", "rec", "auto_add"]
            s.watched.append({**dict(zip(names, a)), **k})
        I.hooks["pyinotify.WatchManager.add_watch"] = watch
        x, y, z = (const(n, EVENT) for n in "xyz")
        I.assume(forall([x], conj([when(x) > 0, neg(pathname(x) == NONE)])))
        I.assume(conj([neg(under(L, R)), neg(under(R, L))]))
        in_queue = Function("queued", EVENT, B)
        queued = lambda e: conj([in_queue(e), disj([under(L, pathname(e)), under(R, pathname(e))])])
        pend, npend, C0, V0 = Function("pending", INT, P), Const("pending_count", INT), Function("cooling", P, B), Function("counted_at", P, REAL)
        i, p = const("i", INT), const("p", P)
        I.assume(forall([p], imp(C0(p), V0(p) > 0)))

        def rel(e):
            return z3.If(under(L, pathname(e)), relpath(pathname(e), L), relpath(pathname(e), R))

        def events(I, st, env, always):
            if always:
                if s.head is not None or s.trace.count("round"):
                    return False
                return rounds(I, st, env)
            t = st.test
            if not (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Call)
                    and isinstance(t.operand.func, ast.Attribute) and t.operand.func.attr == "empty"):
                return False
            q = I.ev(t.operand.func.value, env)
            if not (isinstance(q, ObjV) and q.tag == "external:queue.Queue"):
                return False
            if st.orelse or "drained" in s.trace:
                raise Unsupported("reading of the queue")
            s.trace.append("drained")
            e = const("x", EVENT)
            part = Part([e], queued(e), TupV([ObjV(None, {"pathname": Sym(pathname(e)), "dir": Sym(of_dir(e))}, "event"), Sym(when(e))]))
            s.part = part

            def get(I, o, a, k):
                if s.head is None:
                    raise Unsupported("reading of the queue")
                v, s.head = s.head, None
                return v
            I.hooks["queue.Queue.get"] = I.hooks["queue.Queue.get_nowait"] = get

            def one(env2, v):
                s.head = v
                try:
                    I.block(st.body, env2)
                except ContinueEx:
                    pass
                if s.head is not None:
                    raise Unsupported("reading of the queue")
            try:
                I.for_each((part,), env, one)
            except BreakEx:
                raise Unsupported("reading of the queue")
            for d, k in slots(env, s.daemon, ListV):
                d[k] = ListV([named(I, x) for x in d[k].parts])
            I.hooks.pop("queue.Queue.get"), I.hooks.pop("queue.Queue.get_nowait")
            return True
        I.hooks["while"] = events

        def rounds(I, st, env):
            s.trace.append("round")
            # set up
            I.oblige("watches before the first round", BoolVal(s.callback is not None and "notifier" in s.trace))
            dirs = [term(v["path"], P) for v in s.watched]
            for d, n in ((L, "local"), (R, "remote")):
                I.oblige("watches the %s directory and everything in it" % n, disj([
                    conj([t == d, BoolVal(isinstance(v.get("mask"), int) and v["mask"] & 288 == 288), flag(I, v.get("rec", False)), flag(I, v.get("auto_add", False))])
                    for t, v in zip(dirs, s.watched)]))
            ev = ObjV(None, {"pathname": Sym(pathname(Const("e", EVENT))), "dir": Sym(of_dir(Const("e", EVENT)))}, "event")
            n = len(s.times)
            I.call(s.callback, [ev])
            I.oblige("every event is put into the queue with its time", conj([
                BoolVal(len(s.put) == 1 and isinstance(s.put[0], TupV) and len(s.put[0].items) == 2 and s.put[0].items[0] is ev),
                disj([term(s.put[0].items[1], REAL) == t for t in s.times[n:]]) if s.put and isinstance(s.put[0], TupV) and isinstance(s.put[0].items[-1], Sym) else FF]))
            daemon = env.vars["self"] if "self" in env.vars else s.daemon
            lists = slots(env, daemon, ListV)
            pending = [(d, k) for d, k in lists if not d[k].parts]
            maps = slots(env, daemon, (DictV, MapV))
            if len(pending) != 1 or len(maps) != 1 or slots(env, daemon, SetV) or not isinstance(maps[0][0][maps[0][1]], DictV):
                raise Unsupported("state of the event loop")
            (pd, pk), (md, mk) = pending[0], maps[0]
            I.oblige("nothing is cooling down at first", BoolVal(not md[mk].d))
            # any later round
            before = Part([i], conj([i >= 0, i < npend]), Sym(pend(i)))
            pd[pk] = ListV([before])
            md[mk] = MapV(P, lambda c: C0(*c), lambda c: Sym(V0(*c)), None, REAL)
            s.times, s.slot, s.seen = [], (pd, pk), None
            try:
                I.block(st.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                I.oblige("the loop goes on", FF)
                raise Infeasible()
            # what the round did
            I.oblige("every round reads the queue", BoolVal("drained" in s.trace))
            I.oblige("every round looks whether to adjust", BoolVal("adjust" in s.trace))
            if "drained" not in s.trace:
                raise Infeasible()
            left = pd[pk] if s.seen is None else s.seen
            if s.inc is not None:
                left, amount = s.inc
                I.oblige("increments by the constant amount", term(amount, REAL) == term(I.getattr(daemon, "INCREMENT_AMOUNT"), REAL))
            elif not s.busy:
                # nothing is left to increment
                I.oblige("increments what has been counted", conj([forall(p.xs, neg(p.guard)) if isinstance(p, Part) else FF for p in I.parts_of(left)]))
            parts = I.parts_of(left)
            if not parts or parts[0] is not before and not (isinstance(parts[0], Part) and parts[0].ident == before.ident):
                I.oblige("what is pending comes first", FF)
                raise Infeasible()
            if len(parts) != 2 or not isinstance(parts[1], Part) or len(parts[1].xs) != 1 or parts[1].xs[0].sort() != EVENT:
                raise Unsupported("what is counted in the event loop")
            q = parts[1]
            g = lambda e: z3.substitute(q.guard, (q.xs[0], e))
            path = lambda e: z3.substitute(term(q.elem, P), (q.xs[0], e))
            lt = I.lt_of(q)
            before_ = lambda a, b: lt([a], [b])
            sel = lambda e: conj([queued(e), neg(of_dir(e)), w.known(rel(e))])
            COOL = term(I.getattr(daemon, "COOLDOWN_PERIOD"), REAL)
            I.oblige("counts only accesses of known files", forall([x], imp(g(x), sel(x))))
            I.oblige("counts an access for its path", forall([x], imp(g(x), path(x) == rel(x))))
            I.oblige("an access after a counted one counts exactly if the cooldown is over", forall([x, y], imp(
                conj([sel(x), g(y), before_(y, x), rel(x) == rel(y),
                      neg(exists([z], conj([g(z), before_(y, z), before_(z, x), rel(z) == rel(y)])))]),
                g(x) == (when(x) > when(y) + COOL))))
            I.oblige("the first access of a round counts unless its path is cooling down", forall([x], imp(
                conj([sel(x), neg(exists([y], conj([g(y), before_(y, x), rel(y) == rel(x)])))]),
                g(x) == disj([neg(C0(rel(x))), when(x) > V0(rel(x)) + COOL]))))
            m = md[mk]
            if not isinstance(m, MapV):
                raise Unsupported("cooldown of the event loop")
            D, V = (lambda k: m.dom([k])), (lambda k: term(m.val([k]), REAL))
            over = lambda t: disj([t <= n - COOL for n in s.times])
            latest = lambda y: conj([g(y), neg(exists([z], conj([g(z), before_(y, z), rel(z) == rel(y)])))])
            I.oblige("the time of the last counted access is kept while it matters", forall([y], imp(
                latest(y), disj([conj([D(rel(y)), V(rel(y)) == when(y)]), conj([neg(D(rel(y))), over(when(y))])]))))
            none = lambda k: neg(exists([y], conj([g(y), rel(y) == k])))
            I.oblige("other paths go on cooling down", forall([p], imp(none(p), conj([
                imp(D(p), conj([C0(p), V(p) == V0(p)])), imp(conj([C0(p), neg(D(p))]), over(V0(p)))]))))
            # what is left for the next round
            new = I.parts_of(pd[pk])
            if s.busy:
                I.oblige("what could not be stored is kept", BoolVal(len(new) == 2 and all(
                    isinstance(a, Part) and a.ident == b.ident and z3.eq(a.guard, b.guard) for a, b in zip(new, parts))))
            elif s.inc is not None:
                I.oblige("what has been counted is not counted again", BoolVal(not new))
                I.oblige("the increments are stored", BoolVal("incremented" in s.trace and "wrote" in s.trace[s.trace.index("incremented"):]))
            raise EndOfRound()

        kindv = I.loader.func("zielen.daemon.Daemon")
        s.daemon = d = I.call(kindv, [Sym(Const("profile_input", P))])
        I.oblige("events wait in one queue", BoolVal(len(s.queue) == 1))
        try:
            kind, v = outcome(I, f, [d])
        except EndOfRound:
            return "return"
        if kind == "return":
            I.oblige("the daemon goes on until it is ended", FF)
        return kind
    return body, con


def units():
    b, c = adjust()
    m, mc = main_loop()
    return [Unit("_adjust", DM + "_adjust", b, c), Unit("daemon_main", DM + "main", m, mc, lambda I: setattr(I, "successor", True))]
