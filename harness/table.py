"""Which specification, driver and design models decide which property."""


def trace_cfg():
    return "INIT Init\nNEXT Next\nPOSTCONDITION Accepted\n"


PROPS = {}


def add(ids, module, driver, **kw):
    for i in ids:
        d = dict(module=module, driver=driver, cfg=trace_cfg(), design={}, gen={})
        d.update({k: (v[i] if isinstance(v, dict) and i in v else v) for k, v in kw.items()})
        PROPS[i] = d


add(["C01", "C02"], "IrrepTrace", "drv_irrep")


# ------------------------------------------------------------------ sessions
def session_gen(p):
    def cfg(mode, dim, depth, variants, groups="all"):
        return (f'INIT Init\nNEXT Next\nINVARIANT TypeOk\nCONSTANTS\n Mode = "{mode}"\n Focus = "{p}"\n MaxDim = {dim}\n'
                f' Depth = {depth}\n Variants = {variants}\n GroupSel = "{groups}"\n')

    dq = {"C09": 32, "C08": 18, "C14": 24, "C10": 12, "C12": 10}.get(p, 24)
    return {
        "quick": [("cover", "SessionGen", cfg("cover", dq, 0, "{1, 2}"), [])],
        "thorough": [("cover", "SessionGen", cfg("cover", 40, 0, "{1, 2, 3, 4}"), []),
                     ("walk", "SessionGen", cfg("walk", 30, 50, "{1, 2, 3, 4}"), ["-simulate", "num=150", "-depth", "60", "-seed", "$SEED"])],
    }


SESSION = ["C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C29"]
add(SESSION, "SessionTrace", "drv_session", gen={p: session_gen(p) for p in SESSION})

# ---------------------------------------------------------------- couplings
add(["C03", "C04", "C05"], "CGTrace", "drv_cg")
PROPS["C14"]["more"] = [dict(module="CGTrace", driver="drv_cg", cfg=trace_cfg(), shards={"quick": 1})]
add(["C15", "C16", "C30"], "HomTrace", "drv_hom")
add(["C17", "C18"], "RtpTrace", "drv_rtp")
add(["C06"], "LabelTrace", "drv_label")
PROPS["C29"]["more"] = [dict(module="LabelTrace", driver="drv_label", cfg=trace_cfg(), shards={"quick": 1})]
add(["C20"], "PermTrace", "drv_perm")
add(["C21"], "RatTrace", "drv_rat")
add(["C22"], "LinTrace", "drv_lin")
add(["C23"], "AlgTrace", "drv_alg")
add(["C24"], "FinTrace", "drv_fin")
add(["C25"], "RootTrace", "drv_root")
add(["C26"], "GTTrace", "drv_gt")
add(["C28"], "ArrTrace", "drv_arr")
add(["C19"], "ExpTrace", "drv_exp")


def purity_gen():
    def cfg(mode, dim, depth, variants):
        return (f'INIT PInit\nNEXT PNext\nCONSTANTS\n Mode = "{mode}"\n Focus = "C27"\n MaxDim = {dim}\n'
                f' Depth = {depth}\n Variants = {variants}\n GroupSel = "all"\n')

    return {"quick": [("cover", "PurityGen", cfg("pcover", 16, 3, "{1}"), [])],
            "thorough": [("cover", "PurityGen", cfg("pcover", 24, 8, "{1, 2, 3, 4}"), []),
                         ("walk", "PurityGen", cfg("pwalk", 24, 300, "{1, 2, 3, 4, 5, 6}"), [])]}


add(["C27"], "PurityTrace", "drv_purity", gen=purity_gen())
add(["C31"], "RefuseTrace", "drv_refuse")


# ------------------------------------------------------------ design models
def design(ids, name, module, quick, thorough=None, post=None, invs=()):
    def cfg(consts):
        return ("SPECIFICATION Spec\nINVARIANTS " + " ".join(invs) + "\n" + (f"POSTCONDITION {post}\n" if post else "")
                + ("CONSTANTS\n " + "\n ".join(f"{k} = {v}" for k, v in consts.items()) + "\n" if consts else ""))
    for i in ids:
        d = PROPS[i]["design"] = dict(PROPS[i]["design"])
        for tier, c in (("quick", quick), ("thorough", thorough or quick)):
            if c is None:
                continue
            d[tier] = d.get(tier, []) + [(name, module, cfg(c))]


design(["C03", "C05", "C08", "C15", "C30"], "groups", "GroupsDesign", {"Big": "FALSE", "MaxLen": 2}, {"Big": "TRUE", "MaxLen": 3},
       invs=["TypeOk", "Dimension", "Confluent", "Single", "Pair"])
design(["C20"], "perms", "PermsDesign", {"MaxN": 4, "Each": 3}, invs=["TypeOk", "Below", "Ends", "OnlyGroups", "Laws"])
design(["C17", "C18", "C31"], "formulas", "FormulasDesign", {"MaxN": 3, "MaxTerms": 2}, {"MaxN": 3, "MaxTerms": 3},
       invs=["GroupOk", "Burnside", "Empty", "Characters", "Orbits", "Legal"])
design(["C26", "C02"], "patterns", "PatternsDesign", {"Big": "FALSE"}, {"Big": "TRUE"}, post="Reached", invs=["Inside", "Coefficients", "Diagonal", "WeightOk"])
design(["C25"], "roots", "RootsDesign", {"MaxRank": 4}, {"MaxRank": 6}, post="AllRoots", invs=["Closed", "Integral", "Halves", "Simple", "Cartan", "Dims"])
design(["C06", "C29"], "labels", "LabelDesign", {"Window": 4}, {"Window": 5}, invs=["Admits", "Sharp", "Ends", "Ordered", "Readable"])
design(["C21"], "rationals", "RatDesign", {"MaxD": 4, "MaxBound": 4}, {"MaxD": 8, "MaxBound": 7}, invs=["Farey", "Best_", "Big"])
design(["C22"], "subspaces", "LinDesign", {"MaxSteps": 1}, {"MaxSteps": 3}, invs=["Ranks", "Accepts", "Sharp"])
design(["C23"], "algebras", "AlgDesign", {"Dim_": 2, "MaxSteps": 1, "MaxUnits": 3}, {"Dim_": 2, "MaxSteps": 2, "MaxUnits": 4}, invs=["Inverses", "Closing", "Accepts", "Sharp"])
design(["C24", "C16"], "sn", "SnDesign", {"MaxN": 4, "SignedDim": 2, "SignedN": "{3, 4}"}, {"MaxN": 6, "SignedDim": 3, "SignedN": "{3, 4, 5}"}, invs=["WellDefined", "Traces", "Exact"])
design(["C28"], "arrays", "ArrDesign", {"Shapes": '{"v3", "m22", "t221", "s", "e"}', "Vals": "{0, 1, 2}"},
       {"Shapes": '{"v3", "v4", "m22", "m23", "m32", "t122", "t221", "t212", "s", "e"}', "Vals": "{0, 1, 2, 3}"}, invs=["Index", "Slices", "Products", "Classes"])
design(["C19"], "exponential", "ExpDesign", {"MaxK": 2, "MaxT": 4}, {"MaxK": 5, "MaxT": 8}, invs=["Powers", "Series", "Sharp"])
design(["C17", "C18", "C31"], "formulas4", "FormulasDesign", None, {"MaxN": 4, "MaxTerms": 1},
       invs=["GroupOk", "Burnside", "Empty", "Characters", "Orbits", "Legal"])
design(["C07", "C09", "C10", "C11", "C12", "C13", "C14", "C29"], "session", "SessionDesign", {"MaxDim": 6, "Depth": 1}, {"MaxDim": 6, "Depth": 3},
       invs=["IsRep", "Described", "Allowed", "Sharp", "Laws"])
