"""DESIGN.md from tools/DESIGN.in.md: tables of the properties, design models and planted bugs."""
import glob
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from table import PROPS  # noqa: E402

T = {  # oracle in the specification | what is explored by the quick check | thorough
    "C01": ("brackets, antisymmetry, Jacobi and discrete relations computed in `IrrepTrace` on the logged matrices; constants compared with those of the group's first irrep", "all labels of all 12 tables in boxes up to dimension ~60 (SU(N), N<=5)", "larger boxes"),
    "C02": ("weights by Gelfand-Tsetlin branching (`Groups`); Casimir, cubic and reality tests per group separate all labels", "as C01", "larger boxes"),
    "C03": ("content of the product by peeling highest weights of the product bag (`Groups`)", "all pairs of boxes of every table and products of tables", "larger boxes"),
    "C04": ("equivariance residual of every solution, continuous and discrete", "every triple of every pair with dimension product bounded; generic representations in random bases", "larger pairs"),
    "C05": ("number = `HomDim`/`Hom3` of the contents; Gram matrix of the solutions; norm of complex-type irreps", "as C04", "as C04"),
    "C06": ("order axioms and exhaustive enumeration as a machine of iterators (several alive at once); rendering defined in `LabelTrace`", "64-110 steps of each iterator, interleaved; order on all small boxes; >500 texts", "more, larger boxes"),
    "C07": ("`RepOps.TpOk`: Kronecker sums / products entry by entry", "all pairs of the base store (9 forms) of 16 groups, 2 variants", "4 variants, random walks of 50 operations"),
    "C08": ("bag of the operands multiplied in `Groups`; the listing with the stored Q regenerates the matrices (`PartsOk`)", "as C07 with powers", "as C07"),
    "C09": ("`RepOps.TpowOk`", "exponents 0..9 on the base store", "as C07"),
    "C10": ("block diagonal of the logged parts, conjugated by the given Q", "all sums, multiples 0..4, reduced sums of 1..3 parts, four kinds of Q", "as C07"),
    "C11": ("R Q = Q Y for the logged matrices; pairs compared with the joint change", "four kinds of Q (real, complex, orthogonal, integer) on the base store", "as C07"),
    "C12": ("X' and A' from Q (`CaX`, `CaA`)", "as C11, acting on the algebra", "as C07"),
    "C13": ("entrywise conjugation; hermiticity at two resolutions", "base store; deviations 0, 1e-15 .. 1", "as C07"),
    "C14": ("`GpOk` (two and three factors); coupling coefficients of products as products (`CGTrace`)", "all pairs / triples of base stores; products of tables", "as C07"),
    "C15": ("number of maps from the contents (`Hom`), commutation, Gram matrix", "10 pairs and 8 single representations of each of 20 groups, random bases", "40 and 30"),
    "C16": ("content of the input; parts irreducible by counting; generators reproduced", "14 representations of each group, dimension <= 9", "60, dimension <= 12"),
    "C17": ("contraction of transformed inputs = transformed output", "14 groups x all formulas of <=2 indices and samples of 3, 4; lists; full symmetry; random signed generators", "all formulas, 8 rounds"),
    "C18": ("`Formulas`: signed group closed by products, weights of the invariant tensors by orbit counting; ranks by Gram matrices", "as C17", "as C17"),
    "C19": ("`Exponential`: Taylor series at t/16, then squaring along the logged chain; powers of the logged H", "~300 events over 15 groups, negative powers, JAX", "5x"),
    "C20": ("`Perms`: definitions of the symmetric group; closures", "all permutations n <= 5, rows of the full product table n <= 5, all generating sets n <= 3", "n <= 6, samples to 9"),
    "C21": ("`BigNum`: exact big integers; Stern-Brocot neighbour as certificate that no better fraction exists; exhaustive comparison for small bounds", "~1100 batches, bounds 1..15 and up to 10^6", "bounds to 40, 10x"),
    "C22": ("`Modular` ranks over F_p of the exact integer input; Gram matrices and residuals of the output", "all 2x2 matrices over {-1,0,1} and {0,1,i,-i}, sizes to 12x6, lists, subspace pairs", "2x3 too, 4x"),
    "C23": ("closure decided over F_p from exact Gaussian integers; residuals", "14 families in three bases, micro perturbations, random sets", "4x"),
    "C24": ("`SymmetricGroup`: Coxeter relations, natural = standard + trivial; regular representations from tables", "n <= 12; 12 tables, relabelled", "n <= 24"),
    "C25": ("`RootSystems`: root systems as sets of integer vectors, closed and reduced by definition; dimension via Weyl over F_p and `BigNum`", "ranks 2..7, boxes of highest weights", "ranks to 11"),
    "C26": ("`Patterns`: interleaving patterns enumerated, Gelfand-Tsetlin coefficients squared as exact rationals", "weights of SU(2..5) in boxes", "larger boxes"),
    "C27": ("`PurityTrace`: digests of all values, outcome of the first call; the history is replayed backwards in a fresh process", "48 kinds of calls, ~8700 events", "four variants and random histories of 300 calls"),
    "C28": ("`ArrTrace`: arrays as (shape, data), every output entry by its index formula", "~1050 calls", "6x"),
    "C29": ("zero/unit matrices, neutrality on both sides, the group's labels", "base stores of 16 groups; all labels of the boxes", "as C07"),
    "C30": ("reality indicator of the label; the real form is real, satisfies the same constants, equivalent by a logged certificate", "families of 12 groups in 3-5 bases", "9-17 bases, dimension <= 20"),
    "C31": ("compatibility decided on the logged constants; legality of formulas (`Formulas`), labels", "~7500 calls", "8x"),
}
TIMES = {}
for l in open(os.path.join(V, "tools", "times.txt")) if os.path.exists(os.path.join(V, "tools", "times.txt")) else []:
    a = l.split()
    TIMES[a[0]] = a[1:]

rows = ["| property | oracle | quick | thorough | s (quick / thorough) |", "|---|---|---|---|---|"]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    o, q, t = T[i]
    rows.append(f"| **{i}** {p['title']} | {o} | {q} | {t} | {' / '.join(TIMES.get(i, ['?']))} |")

used = {}
for i, s in PROPS.items():
    for tier, ds in s["design"].items():
        for name, module, cfg in ds:
            used.setdefault(module, {}).setdefault(tier, {})[cfg] = 1
            used[module].setdefault("props", set()).add(i)
D = ["| module | invariants | bounds quick | bounds thorough | run by |", "|---|---|---|---|---|"]


def consts(c):
    return ", ".join(x.strip() for x in c.split("CONSTANTS")[1].split("\n") if x.strip()) if "CONSTANTS" in c else "-"


for m in sorted(used):
    u = used[m]
    inv = next(iter(u.get("quick", u["thorough"]))).split("INVARIANTS ")[1].split("\n")[0]
    D.append(f"| `{m}` | {inv} | {'; '.join(consts(c) for c in u.get('quick', {}))} | {'; '.join(consts(c) for c in u.get('thorough', {}))} | {', '.join(sorted(u['props']))} |")

res = {}
p = os.path.join(V, "tools", "seeds", "results.txt")
if os.path.exists(p):
    for l in open(p):
        a = l.strip().split(None, 1)
        if len(a) == 2:
            res[a[0]] = a[1]
S = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    S.append(f"| `{n}` | {m['property']} | {m['needs']} | {res.get(n, 'caught by the quick check of ' + m['property'])} |")
nfix = sum(1 for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("fixed:"))
s = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
for k, v in (("@@TABLE@@", "\n".join(rows)), ("@@DESIGN@@", "\n".join(D)), ("@@SEEDS@@", "\n".join(S)), ("@@NFIX@@", str(nfix))):
    s = s.replace(k, v)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
print(len(s), "bytes;", "no time:", [i for i in T if i not in TIMES])
