from vstat import terms as T
from vstat.terms import And, Not, Or, FALSE, TRUE, Term
from vstat.compare import Observe, differing, show_cube
from vstat import passes

TM = "common.topology_models."
KINDS = (("site", TM + "site:Site"), ("sector", TM + "sector:Sector"), ("link", TM + "link:Link"))


def run(ctx):
    for k, cls in KINDS:
        setter = cls + ".status_type.setter"

        def must_raise(I, s, o):
            if s.exit_guard is not FALSE:
                r, c = differing(I, s.exit_guard, FALSE)
                (o.bad if r == "diff" else o.und)(f"a change from or to EXISTING/UNAVAILABLE is accepted when {show_cube(c)}", s.func.module.path + f":{s.func.node.lineno}")
            for e in s.effects:
                if e.kind == "raise" and repr(e.target) != "exc(TopologyException)":
                    o.bad(f"refused with {e.target!r} instead of a TopologyException", e.where())
                elif e.kind in ("setattr", "setitem", "mut", "delitem"):
                    o.bad(f"state changed before the refusal: {e!r}"[:300], e.where())
        ctx.query(f"{k}:frozen", "assignments from/to EXISTING or UNAVAILABLE always raise TopologyException and change nothing", setter, must_raise, assume=f"c01:frozen_{k}")

        def takes_effect(I, s, o, k=k):
            w = [e for e in s.effects if e.kind == "setattr" and e.key == "_status_type"]
            new = Term("sym", s.func.node.args.args[1].arg)
            for e in w:
                if e.value is not new or e.target is not Term("sym", "self") or e.loops:
                    o.bad(f"assigns {e.value!r} to {e.target!r} instead of the requested status", e.where())
            g = FALSE
            for e in w:
                g = Or(g, e.guard)
            r, c = differing(I, And(s.exit_guard, Not(g)), FALSE)
            if r == "diff":
                o.bad(f"returns normally without taking the new status when {show_cube(c)}", s.func.module.path + f":{s.func.node.lineno}")
            elif r == "opaque":
                o.und("condition of the assignment", setter)
        ctx.query(f"{k}:takes-effect", "an accepted assignment stores exactly the requested status", setter, takes_effect)
        ctx.equiv(setter, f"c01:set_{k}", what="every change is accepted or refused exactly as specified")
    passes.only_writers(ctx, "status-writers", "_status_type", {
        TM + "site:Site.__init__", TM + "site:Site.status_type.setter", TM + "sector:Sector.__init__", TM + "sector:Sector.status_type.setter",
        TM + "link:Link.__init__", TM + "link:Link.status_type.setter"})
