from checks import areas


def run(ctx):
    areas.ilp(ctx, "create_model", "demand_model", "timeout",
              "c_build", "v_build", "s_skeleton", "s_demand_model", "f_skeleton", "i_skeleton", "i_demand_model", "r_skeleton", "p_model",
              "c_solve", "v_solve", "f_solve", "i_solve", "r_solve", "r_shortage_solve", "p_solve", "solve_demand")
