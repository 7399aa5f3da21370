NA = {
    "C29": "Optimality gap, time limit and determinism of a solve are facts about the commercial xpress solver (absent here) on concrete models: no static argument over this repository bounds what the solver returns. What the code itself contributes, the models and the controls it passes, is decided under C16-C18, C21-C23 and C30.",
}
LEVEL = {}
