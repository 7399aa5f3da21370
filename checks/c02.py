from vstat.terms import Not, FALSE, TRUE, Term, And, Or
from vstat.compare import Observe, differing, show_cube

TM = "common.topology_models."


def run(ctx):
    raises_only = Observe(effects=lambda e: False, ret=False, kept=False)
    ctx.equiv(TM + "sector:Sector.status_type.setter", "c01:set_sector", obs=raises_only, what="assignment refused exactly when the status is incompatible with the site")
    ctx.equiv(TM + "link:Link.status_type.setter", "c01:set_link", obs=raises_only, what="assignment refused exactly when the status is incompatible with the end sites")
    ctx.equiv(TM + "sector:Sector.__init__", "c01:status_rules_sector", obs=raises_only, what="construction refused exactly when the status is incompatible with the site")
    for name, assume, ref in (("sites", "link_structure", "status_rules_link"), ("sites and sectors", "sectors_given", "status_rules_link"), ("sectors", "sites_from_sectors", "status_rules_link_sectors")):
        ctx.equiv(TM + "link:Link.__init__", f"c01:{ref}", obs=raises_only, assume=lambda I, a=assume: ctx.formula(I, "c01:" + a),
                  what=f"construction from {name} refused exactly when the status is incompatible with the end sites")
    for k, cls in (("sector", TM + "sector:Sector"), ("link", TM + "link:Link")):
        def stored(I, s, o):
            # the status stored by the constructor is the one that was checked
            w = [e for e in s.effects if e.kind == "setattr" and e.key == "_status_type"]
            for e in w:
                if e.value is not Term("sym", "status_type") or e.loops:
                    o.bad(f"the constructor stores {e.value!r}, not the checked status", e.where())
            g = FALSE
            for e in w:
                g = Or(g, e.guard)
            r, c = differing(I, And(s.exit_guard, Not(g)), FALSE)
            if r == "diff":
                o.bad(f"constructed without a status when {show_cube(c)}", s.func.qual)
        ctx.query(f"{k}:ctor-status", "the constructor stores exactly the checked status", cls + ".__init__", stored)

    def before(I, s, o):
        # nothing is changed before an assignment is refused
        for e in s.effects:
            if e.kind in ("setattr", "mut", "setitem") and e.key != None:
                r, c = differing(I, And(e.guard, Not(s.exit_guard)), FALSE)
                if r == "diff":
                    o.bad(f"{e.target!r}.{e.key} is changed although the assignment is refused when {show_cube(c)}", e.where())
    for k, cls in (("sector", TM + "sector:Sector"), ("link", TM + "link:Link")):
        ctx.query(f"{k}:refusal-is-atomic", "a refused assignment changes nothing", cls + ".status_type.setter", before)
