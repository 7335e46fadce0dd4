"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/permaviss/"
SSC = S + "spectral_sequence/spectral_sequence_class.py"
MVS = S + "spectral_sequence/MV_spectral_seq.py"
LC = S + "spectral_sequence/local_chains_class.py"
PHC = S + "persistence_algebra/PH_classic.py"
IK = S + "persistence_algebra/image_kernel.py"
MPH = S + "persistence_algebra/module_persistence_homology.py"
BB = S + "persistence_algebra/barcode_bases.py"
GA = S + "gauss_mod_p/gauss_mod_p.py"
AR = S + "gauss_mod_p/arithmetic_mod_p.py"
FU = S + "gauss_mod_p/functions.py"
VR = S + "simplicial_complexes/vietoris_rips.py"
FL = S + "simplicial_complexes/flag_complex.py"
DI = S + "simplicial_complexes/differentials.py"
CC = S + "covers/cubical_cover.py"
EX = S + "sample_point_clouds/examples.py"


def P(id, title, statement, over, text, why, files, mech, technique, note,
      state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "over": over,
            "text": text, "why": why, "files": files, "mech": mech,
            "technique": technique, "note": note, "state": state,
            "observe": observe}


PROPS = [
 P("C01", "The spectral sequence returns the persistent homology of the Rips complex",
   "For every point cloud, maximal radius, maximal dimension, prime and cubical cover whose overlap is at least the maximal radius, the barcodes that create_MV_ss returns are, in every dimension below max_dim, exactly the persistent homology barcodes over Z/p of the Vietoris-Rips complex of the whole cloud (simplices of diameter below max_r; classes that never die end at max_r). There is one entry per dimension, no empty bars, and degenerate clouds (one point, coincident points, flat coordinates, integer coordinates) are no exception.",
   ["inputs", "configurations"],
   "all point clouds, radii, dimensions, primes, numbers of divisions and overlaps >= max_r",
   "The tests run a handful of clouds with fixed covers; they never meet a second-page differential, an extension across two columns, torsion-sensitive primes or degenerate covers. The guarantee is for every input.",
   [MVS, SSC, CC, PHC, MPH, IK, BB, GA],
   [("cover, local homology, pages, extension", MVS + ": create_MV_ss"),
    ("differentials and representatives", SSC)],
   "property-based testing, differential against a textbook boundary-matrix reduction of the global complex",
   "generated clouds of up to 18 points in dimension 1 to 4, covers up to 3x3 or 2x2x2, primes 2, 3, 5, 7",
   observe=["create_MV_ss(...).persistent_homology"]),
 P("C02", "Every page is the page of the Mayer-Vietoris double complex",
   "For every cloud and cover, each page k that create_MV_ss computes is the k-th page of the spectral sequence of the Mayer-Vietoris double complex, as a persistence module: at every entry whose differentials stay inside the computed rows, the number of classes that persist from radius r to radius s is the rank of the structure map of that page from r to s. The first page is the direct sum of the local persistent homology groups, and the table of dimensions holds the number of bars of each entry. In the dimensions of the result, the last page that is computed is the limit of the spectral sequence.",
   ["inputs", "configurations"],
   "all clouds, covers, primes; all pages, entries and pairs of radii",
   "The tests compare single intermediate matrices of fixed examples; no test compares a whole page, and none reaches a page that differs from the second one.",
   [SSC, MVS, MPH],
   [("first and higher differentials", SSC + ": first_differential, high_differential, lift_to_page"),
    ("homology of each page", MVS + ": create_MV_ss"),
    ("storage of pages", SSC + ": add_output_first, add_output_higher")],
   "property-based testing, differential against a reduction of the filtered total complex",
   "ranks between up to six drawn radii per case",
   observe=["Hom", "page_dim_matrix"]),
 P("C03", "Representatives of spectral sequence classes are cycles that span their page",
   "Every class of the second or a later page has a representative in the total complex whose components are local chains alive at the birth of the class, and whose total boundary vanishes in all the columns that its components reach. At every radius the representatives of the bars alive there are a basis of that entry of that page. On the last page, the column-zero components of the representatives, read as chains of the whole Rips complex, are cycles, and those whose bars are alive at a radius are linearly independent in its homology.",
   ["inputs", "configurations"],
   "all clouds, covers, primes; all pages, entries, classes and radii",
   "No test looks at representatives in the total complex beyond fixed examples.",
   [SSC, LC],
   [("two page representatives", SSC + ": compute_two_page_representatives"),
    ("higher representatives", SSC + ": compute_higher_representatives"),
    ("vertical lifts", SSC + ": cech_diff_and_lift")],
   "property-based testing, algebraic invariants on decoded representatives",
   "orientation conventions of the code are read off its differentials, everything else is recomputed",
   observe=["Hom_reps", "Hom"]),
 P("C04", "The Cech differential is the signed sum of inclusions and squares to zero",
   "On arbitrary chains, the Cech differential sends a simplex of an intersection to the signed sum of the same simplex in the larger intersections, with the sign of the nerve boundary times (-1)^degree. It squares to zero, anticommutes with the vertical (simplicial) differential, never mixes different chains, and leaves its input alone.",
   ["inputs", "configurations"],
   "all clouds, covers, primes, positions and chains",
   "The tests evaluate it on chains of fixed covers only.",
   [SSC, DI],
   [("local Cech matrices", SSC + ": local_cech_matrix, cech_diff_local, cech_diff")],
   "property-based testing, reference model on simplices of global points, and algebraic identities",
   "random chains on every position of generated covers"),
 P("C05", "Direct persistent homology has the right barcodes",
   "For every filtered simplicial complex whose vertices are there from radius 0, and every prime, the direct persistent homology computation returns in each dimension exactly the barcode of the persistent homology of the filtration over Z/p, with classes that never die ending at max_rad, no empty bars, and bars in standard order (births ascending, then deaths descending). Its inputs are left unchanged.",
   ["inputs"], "all filtered simplicial complexes with vertices born at 0, all primes",
   "The tests use four small complexes and no space with torsion (projective plane, Moore space), where the prime matters.",
   [PHC], [("reduction with preprocessing", PHC + ": persistent_homology")],
   "property-based testing, differential against a textbook column reduction",
   "complexes up to 13 vertices and dimension 3, including torsion"),
 P("C06", "Direct persistent homology: representatives, boundaries and preimages",
   "Every homology representative is a non-zero cycle made of simplices alive at its birth; at every radius the representatives alive there are a basis of homology, and those that have died are boundaries. The boundary generators alive at a radius are a basis of all boundaries at that radius, they live until max_rad, and each one is the boundary of its stored preimage, which is made of simplices alive at the birth of the generator.",
   ["inputs"], "all filtered simplicial complexes with vertices born at 0, all primes, all radii",
   "The tests compare matrices for single examples; lifts in the spectral sequence rely on these relations for every complex.",
   [PHC], [("reduction with preprocessing", PHC + ": persistent_homology")],
   "property-based testing, linear algebra over Z/p at every radius", "as C05"),
 P("C07", "Image and kernel of a persistence morphism",
   "For every morphism between barcode modules, image_kernel returns bases of the image and of the kernel with exactly their barcodes, in standard order. Each image generator alive at a radius is the image of its stored preimage, which only uses generators born in time; each kernel generator maps to zero; generators alive at a radius are independent there, and vanish there once dead. The inputs are left unchanged.",
   ["inputs"], "all pairs of barcode bases, morphisms, primes, radii",
   "The tests contain a few morphisms; the image/kernel algorithm keeps pivots across births and deaths of both modules, so that failures need particular interleavings of bars.",
   [IK, BB], [("box-plus Gaussian elimination by radius", IK + ": image_kernel")],
   "property-based testing, differential against ranks of the structure maps of image and kernel",
   "up to 6 (thorough 9) bars on each side"),
 P("C08", "Homology of complexes of persistence modules, quotients and relative images",
   "For every complex of barcode modules, module_persistence_homology returns in each degree the barcode of the homology (kernel modulo image), with generators that at each radius are a basis of homology while alive and trivial once dead, together with bases of the images and preimages that map to them. quotient returns a basis of a module modulo a submodule, and the relative option of image_kernel a basis of the image of the later generators modulo that of the earlier ones, in the same sense.",
   ["inputs"], "all complexes of barcode modules, all primes, radii",
   "The tests contain three complexes; deaths inside quotients, trivial terms and combinations of bars are not reached.",
   [MPH, IK, BB], [("quotients by relative images", MPH + ": module_persistence_homology, quotient"),
                   ("relative images", IK + ": image_kernel(start_index)")],
   "property-based testing, differential against ranks, and algebraic invariants at every radius",
   "complexes of up to 4 terms obtained from sums of elementary pieces by automorphisms"),
 P("C09", "Gluing bars along extension coefficients",
   "Given bars together with coefficients saying how each generator continues into others when its bar ends, the image computation on the broken basis returns the barcode of the module with those generators and relations, in standard order.",
   ["inputs"], "all finite sets of bars, all extension coefficients into bars alive at the death, all primes",
   "The tests contain one broken basis. Chains of several continuations and cancellations among them are not reached.",
   [IK, BB], [("update of broken differentials", BB + ": update_broken"),
              ("image with broken bases", IK + ": image_kernel")],
   "property-based testing, differential against ranks of the presented module",
   "up to 8 (thorough 11) bars"),
 P("C10", "Gaussian elimination by columns mod p",
   "For every matrix of residues mod a prime, gauss_col returns R and T with A T = R mod p, T upper unitriangular, the non-zero columns of R having pairwise distinct pivots (lowest non-zero entries), and all entries residues; the input is left unchanged. index_pivot returns the position of the last non-zero entry, and -1 for zero.",
   ["inputs"], "all matrices with at least one row, all primes",
   "A few matrices in the tests, primes up to 7.",
   [GA, AR], [("left-to-right column reduction", GA + ": gauss_col")],
   "property-based testing, algebraic invariants", "primes up to 65521"),
 P("C11", "Linear equations and products mod p",
   "solve_mod_p and solve_matrix_mod_p return a solution in residues whenever there is one and raise ValueError otherwise, for vectors and for several right-hand sides given as rows; multiply_mod_p returns the product in residues. Inputs are left unchanged.",
   ["inputs"], "all matrices, right-hand sides and primes",
   "A few systems in the tests, unsolvable ones hardly.",
   [FU, GA], [("solving through elimination of [A|b]", FU + ": solve_mod_p, solve_matrix_mod_p")],
   "property-based testing, against rank computations", "primes up to 65521"),
 P("C12", "Arithmetic mod c and inverses mod p",
   "inv_mod_p returns the residue m with a m = 1 mod p for every integer a prime to p, negative or large ones included, and raises ValueError when there is none. add_mod_c and add_arrays_mod_c return sums in residues 0..c-1 and leave their arguments unchanged.",
   ["inputs"], "all integers, moduli, arrays of equal shape",
   "The tests take three numbers.",
   [AR], [("extended Euclid", AR + ": inv_mod_p")],
   "property-based testing, against modular identities", "primes up to 2^61-1"),
 P("C13", "The Vietoris-Rips complex and its filtration",
   "For every symmetric distance matrix, vietoris_rips returns exactly the simplices up to max_dim all of whose pairwise distances are strictly below max_r, each once, with ascending vertices, each with its diameter as birth radius (vertices 0), ordered by birth radius in each dimension. The matrix is left unchanged, and the empty cloud gives the empty complex.",
   ["inputs"], "all symmetric distance matrices, radii and dimensions",
   "Two clouds in the tests; ties, coincident points and the radius itself being a distance are not reached.",
   [VR, FL], [("lower neighbours", VR + ": vietoris_rips"), ("cliques", FL + ": flag_complex")],
   "property-based testing, against brute-force enumeration of cliques", "up to 9 points"),
 P("C14", "Differentials of a simplicial complex",
   "For every simplicial complex and prime, complex_differentials returns matrices of residues that send each simplex to the alternating sum of its faces (up to one common sign per dimension), so that consecutive ones compose to zero, with one row per face and one column per simplex in the given order; empty dimensions included.",
   ["inputs"], "all simplicial complexes, simplices listed in any order, all primes",
   "Two complexes in the tests.",
   [DI], [("face search", DI + ": complex_differentials")],
   "property-based testing, against the definition", "up to 13 vertices, dimension 3"),
 P("C15", "Flag complexes and the nerve of a grid of hypercubes",
   "flag_complex returns exactly the cliques of the graph up to the given dimension, each once with ascending vertices, and raises ValueError for a negative dimension. nerve_hypercube_cover returns all sets of hypercubes of the grid that pairwise touch (corners included), numbered in the order in which next_hypercube visits them.",
   ["inputs"], "all graphs, dimensions, grids",
   "A few graphs and grids in the tests.",
   [FL, CC], [("lower neighbours", FL + ": flag_complex"),
              ("grid walk", CC + ": next_hypercube, nerve_hypercube_cover")],
   "property-based testing, against brute-force enumeration of cliques", "up to 8 vertices; grids in dimension up to 4"),
 P("C16", "The cubical cover resolves the point cloud",
   "For every point cloud and division, generate_cover puts every point in some cover element, any points of diameter at most the overlap in a common element, and the elements holding them span an acyclic part of the nerve. The region of a nerve simplex holds exactly the points common to its cover elements, with matching coordinates and identification numbers, and no cover element is wider than a cube plus the overlap. Cover elements are closed: a point on the boundary of one belongs to it. Flat coordinates, coincident points and integer coordinates are no exception, and the cloud is left unchanged.",
   ["inputs", "configurations"], "all clouds, numbers of divisions, overlaps",
   "Three clouds in the tests. The correctness of the spectral sequence rests on this for every cloud.",
   [CC], [("hypercubes with overlap", CC + ": generate_cover, intersection_covers, corners_hypercube")],
   "property-based testing, geometric invariants and homology of parts of the nerve", "up to 12 points, dimension up to 3"),
 P("C17", "Barcode bases keep bars, coordinates and broken differentials together",
   "Building a barcode basis drops exactly the bars whose birth is not below their death, together with their coordinates, and rejects inconsistent data with ValueError. After any sequence of sorts the basis is in standard order and bars, coordinates and broken differentials have been permuted alike, by the permutation that is returned. The queries for bars active, born or dying at a radius, the list of radii of change, and the update of coordinates by broken differentials at a radius return what their definitions say.",
   ["inputs", "histories"], "all bars, coordinates, broken differentials, sequences of operations",
   "The class is tested through others on a few examples.",
   [BB], [("barcode_basis", BB)],
   "model-based property testing over sequences of operations", "up to 8 bars and 5 operations"),
 P("C18", "Chains in local format behave as vectors",
   "Sums, negatives, combinations and copies of local chains are those of the underlying vectors mod p, also when their references differ or are empty; references stay ascending with one coordinate row each. Results share no storage with their operands, constructor arguments are copied, and malformed input is rejected with ValueError.",
   ["inputs", "histories"], "all chains with ascending references, sequences of operations",
   "The tests add two fixed chains.",
   [LC], [("local_chains", LC)],
   "model-based property testing over sequences of operations", "up to 5 generators, 4 places, 6 operations"),
 P("C19", "Sample point clouds are what they claim to be",
   "Each sampling function returns the requested number of points on (or in) the shape with the given size and centre: equally spaced on circle, within the annulus for random_circle, inside the ball or cube, on the sphere or torus, exactly the centred nodes for the grids. take_sample returns distinct given points, each of them farthest from those taken before, starting anywhere. The same seed gives the same sample, and impossible tori are rejected.",
   ["inputs", "configurations"], "all sizes, radii, centres, dimensions, seeds",
   "There are no tests of this module.",
   [EX], [("sampling", EX)],
   "property-based testing, geometric identities and greedy farthest-point oracle", "up to 400 points"),
 P("C20", "Results do not depend on schedules, history or other computations",
   "create_MV_ss gives the same barcodes, pages, extension coefficients and representatives whatever the order in which worker processes evaluate and return their items, however often it is run, whatever ran before, and whatever other computation (with another prime, say) runs interleaved with it. It changes neither the point cloud it is given nor the results of earlier computations.",
   ["schedules", "histories", "inputs"],
   "all schedules of the worker pools, all interleavings at pool calls, all histories",
   "The tests run one computation at a time on one schedule.",
   [MVS, SSC, LC], [("worker pools", MVS + ", " + SSC + ": Pool().map"), ("prime of local chains", LC + ": p")],
   "property-based testing with drawn schedules, interleaved computations and some real worker processes",
   "interleaving at the boundaries of pool calls only"),
 P("C21", "The barcode depends on the metric space only",
   "The barcodes of create_MV_ss do not change when points are reordered, translated, reflected, their axes exchanged or a constant coordinate is added, when the cover is changed to another one with overlap at least max_r, or when max_dim is lowered (in the dimensions that remain). Scaling points and radii by a power of two scales them; lowering max_r cuts bars off there; in dimension 0 the prime does not matter.",
   ["inputs", "configurations"], "all clouds, permutations, motions, covers, radii",
   "The tests never compare two presentations of one cloud.",
   [MVS, SSC, CC, VR], [("pipeline", MVS + ": create_MV_ss")],
   "property-based testing, metamorphic relations", "as C01"),
 P("C22", "Lifting through matrices whose columns and rows live on intervals",
   "Given generators and columns with birth radii, gauss_col_rad expresses each column by generators born no later, or raises an error when it cannot be expressed; given rows and columns with bars, gauss_barcodes does the same at the birth of each column, using only generators alive there and looking only at rows alive there. The coefficients are residues, and the input is left unchanged.",
   ["inputs"], "all matrices, radii, bars and primes, generators with distinct pivots for gauss_col_rad",
   "A few matrices in the tests.",
   [GA], [("gauss_col_rad, gauss_barcodes", GA)],
   "property-based testing, algebraic invariants and solvability by ranks", "up to 14 rows and 20 columns"),
 P("C23", "Extension coefficients relate representatives when a class dies",
   "At the radius where a class of the last page dies in its entry, its representative is homologous in the whole Rips complex to the combination of classes of the entries further down the diagonal given by the extension coefficients. Those classes are alive at that radius, and classes that never die have no coefficients.",
   ["inputs", "configurations"], "all clouds, covers with overlap >= max_r, primes, classes",
   "The tests look at barcodes of a few clouds; an extension across two columns or with a prime above 2 does not occur.",
   [SSC, MVS], [("extension", SSC + ": extension"), ("extension matrix", MVS + ": create_MV_ss")],
   "property-based testing, homology of the global complex at each death", "as C01",
   observe=["extensions", "Hom_reps", "Hom"]),
 P("C24", "Lifting local cycles to the first page",
   "For local cycles with radii, first_page_lift returns coefficients and a chain such that each cycle is the combination of local homology representatives with those coefficients plus the boundary of the chain; cech_diff_and_lift does the same for the Cech differential of the cycles, with the opposite sign of the chain. Only classes and simplices born no later than the radius of the cycle are used, and the input is left unchanged.",
   ["inputs", "configurations"], "all clouds, covers, primes, positions, cycles and radii",
   "The tests evaluate fixed examples.",
   [SSC], [("local lifts", SSC + ": first_page_local_lift, first_page_lift, cech_diff_and_lift_local")],
   "property-based testing, algebraic identity on decoded chains", "random cycles on three positions of each generated cover"),
 P("C25", "Differentials of the pages and lifts of classes to a page",
   "first_differential and high_differential give, for each class of a page, coefficients such that the boundary of its representative in the column where the differential ends is, in that page and at the birth of the class, the combination of the classes there with those coefficients; only classes alive at that radius are used, and asking again gives the same. lift_to_page recovers the coefficients of any combination of classes of the target page and images of the differential before it from its first-page coordinates. Coefficients are residues.",
   ["inputs", "configurations"], "all clouds, covers with overlap >= max_r, primes, pages, positions, classes and combinations",
   "The tests look at the differentials of two or three fixed clouds.",
   [SSC, MVS], [("differentials", SSC + ": first_differential, high_differential"), ("lift", SSC + ": lift_to_page"), ("linear algebra", GA + ": gauss_barcodes")],
   "property-based testing, boundary of decoded representatives in the total complex; round trip of random combinations", "as C01; later pages at up to 4 radii per case",
   observe=["first_differential", "high_differential", "lift_to_page"]),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in PROPS:
            assert len(q["title"]) <= 80, q["title"]
            d = {"id": q["id"], "title": q["title"],
                 "statement": q["statement"],
                 "quantifier": {"over": q["over"], "text": q["text"]},
                 "why_tests_cant": q["why"],
                 "anchors": {"files": q["files"],
                             "mechanism": [{"name": a, "where": b}
                                           for a, b in q["mech"]],
                             "hook_needed": None}}
            if q["observe"]:
                d["anchors"]["observe_at"] = list(q["observe"])
            f.write(json.dumps(d) + "\n")
    checks = []
    for q in PROPS:
        cmd = "/opt/venv/bin/python check.py " + q["id"]
        checks.append({
            "property": q["id"], "quick_cmd": cmd + " --tier quick",
            "thorough_cmd": cmd + " --tier thorough",
            "technique": q["technique"], "level": "exploration",
            "level_note": q["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
                   "not_applicable": []}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
