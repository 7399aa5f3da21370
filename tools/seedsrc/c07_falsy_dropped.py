PROPERTY="C07"
NEEDS="a parameter explicitly set to 0 or false whose default is not (e.g. noise_figure: 0)"
BREAKS="an explicit zero is treated as omitted and replaced by the default"
T="terragraph_planner/common/configuration/configs.py"
EDITS=[(T,"""                else:
                    if value is not None:
                        try:
                            func_arg_val[key] = value""","""                else:
                    if value or isinstance(value, (bool, int)):
                        try:
                            func_arg_val[key] = value""")]
DEMO=PRE+'''
assert SectorParams.from_dict({"noise_figure":0.0}).noise_figure==0.0
'''
