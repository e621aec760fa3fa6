"""Writes DESIGN.md: the text below plus, per property, what its check module states (rule, bounds, assumptions)."""
import ast, json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(path, name):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and any(getattr(t, "id", None) == name for t in node.targets):
            try:
                return ast.literal_eval(node.value)
            except ValueError:
                return {k.arg: ast.literal_eval(k.value) for k in node.value.keywords}
    return None


# oracle, why the tests cannot settle it, seconds of a quick run
WHY = {
"C01": ("sum over cells of every conserved variable before and after every step, tolerance scaled by the sum of magnitudes",
        "tests sum one or two runs; a flux mismatch at one face shows only if limiting triggers at that face, so all 2^n trouble patterns of small meshes are forced", 14),
"C02": ("the same sums in boxes with walls; momentum sums only along wall-free directions",
        "the tests have no closed box at all; a leak needs a particular wall, degree and limiter", 17),
"C03": ("the initial state itself", "tests use one periodic case; the space here is every assignment of compatible boundary types to the six faces", 18),
"C04": ("the solver itself on the relabelled or mirrored problem (relational)", "tests compare x, y, z runs of one profile; an axis mix-up in a rarely used branch (convex, local, 3D detector) needs that branch in that direction", 31),
"C05": ("the solver itself on the shifted problem, all shifts", "seam defects need the feature to sit exactly on the seam, or a mesh narrower than the ghost zone", 14),
"C06": ("the solver itself with the direction inactive", "tests never compare 1D with embedded 2D and 3D runs across degrees", 9),
"C07": ("a model that computes every ghost cell from face types by index arithmetic, on fields where every cell has a unique value; run twice with poisoned allocations so that uninitialised memory shows",
        "tests cover a few types on one face; the space is every pair of types on every axis, with ghost widths up to and beyond the mesh", 5),
"C08": ("exact rational polynomial averages", "tests check convergence slopes, which a slightly wrong weight in one degree survives", 4),
"C09": ("the exact rate of change of polynomial averages", "convergence tests tolerate constant-factor errors and cover equal degrees only", 30),
"C10": ("Taylor expansion of the exact solution; step-halving ratios; recorded stage times", "tests integrate autonomous problems; wrong stage times are invisible there", 4),
"C11": ("a model of the landing rule: the expected list of visited times from the recorded step sizes", "tests ask for a handful of times; the space is all small sets of output times incl. duplicates, times at the start, past times, numpy and list inputs", 14),
"C12": ("the undisturbed run", "aliasing and shared state show only in particular orders of observation and interleaving: all merge orders of two call sequences are run", 37),
"C13": ("a model of the directory; after every crash point the real reader must return a complete set or raise", "tests save and load once; no test kills the writer", 18),
"C14": ("independently written textbook fluxes and symmetry relations", "tests use few states; wrong branches need sonic, supersonic or vacuum-like pairs in one direction", 17),
"C15": ("ideal-gas law; CFL formula evaluated cell by cell", "tests never place the fastest cell everywhere", 11),
"C16": ("the range property itself, a reference limiter, symmetry relations", "tests use random arrays and one direction", 4),
"C17": ("an independently written criterion", "tests check one pattern; the space is every 3-letter window and every setting", 32),
"C18": ("distance-based weights; blended fluxes recomputed from the unlimited and the fully limited right-hand sides", "tests check three patterns; here all subsets of troubled cells of small meshes", 68),
"C19": ("positivity and the neighbour range of scalars", "needs extreme neighbour combinations at the limiting step: all of them over an alphabet, each brought to the limiting wave speed", 18),
"C20": ("the run without scalars, permuted, renamed, scaled (relational)", "tests have one scalar at most", 46),
"C21": ("independent references for every profile; exact polynomial averages", "tests look at few classes, one mesh", 11),
"C22": ("stage-by-stage trouble flags from a second solver; reference arrays for every artist drawn", "plots and multi-stage records are hardly tested", 72),
"C23": ("dictionary, stopwatch and name-table models", "tests have one sequence each", 5),
"C24": ("documented effect or refusal", "most options are never given an illegal value by a test", 5),
"C25": ("a directly run solver; a model of the directory", "the wrapper has no test", 8),
"C27": ("the same problem in other units, converted back (relational; powers of two, so the conversion is exact)", "tests are posed in units of order one", 30),
"C26": ("the second implementation in the package", "the two are never compared by a test", 4),
}

INTRO = open(os.path.join(root, "tools", "design_intro.md")).read()
OUTRO = open(os.path.join(root, "tools", "design_outro.md")).read()

out = [INTRO.rstrip(), "", "## The properties, one by one", ""]
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    f = os.path.join(root, "mc", "checks", i.lower() + ".py")
    oracle, why, secs = WHY[i]
    b = const(f, "BOUNDS")
    out += [
        f"### {i}. {p['title']}", "",
        f"* Decided by: {const(f, 'TECHNIQUE')}.",
        f"* Space: {const(f, 'RULE')}.",
        f"* Oracle: {oracle}.",
        f"* Bounds, quick: {b['quick']}. Thorough: {b['thorough']}.",
        f"* Assumes: {'; '.join(const(f, 'ASSUMPTIONS'))}.",
        f"* Cost: about {secs} s (quick, 8 cores). Beyond the tests: {why}.", "",
    ]
# which check catches which planted bug: tools/seed_results.json, written by hand from the runs
res = json.load(open(os.path.join(root, "tools", "seed_results.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(root, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not yet run')} |")
OUTRO = OUTRO.replace("SEEDTABLE", "\n".join(rows))
out += [OUTRO.rstrip(), ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
