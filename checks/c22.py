from checks import areas, con


def run(ctx):
    con.constants(ctx, "DEMAND", "SUPERSOURCE", "DEMAND_SECTOR", "SUPERSOURCE_SECTOR", "IMAGINARY_SECTOR_TYPES", "IMAGINARY_SITE_TYPES")
    areas.ilp(ctx)
    areas.defined_before_use(ctx)
