"""Property texts.  `python3 lib/props.py` regenerates properties.jsonl and MANIFEST.json from this table and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
P = []
HOW = {}   # how the check decides the property: specification, oracle, what reaches beyond the tests
def how(id, text): HOW[id] = text
def p(id, title, statement, over, quant, why, files, mechanism, note=None, na=None): P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism, note=note, na=na))
I = "include/"
p("C01", "Field arithmetic obeys the field axioms and agrees with integer arithmetic mod p", "For every prime modulus, ModP arithmetic (sums, differences, products, quotients, negation, compound assignment, comparison and conversion with arbitrary ints) equals integer arithmetic reduced mod p with results in [0,p), and every non-zero element times its inverse is one. Rational arithmetic equals exact fraction arithmetic as long as nothing overflows. Division by zero is refused.",
  ["inputs"], "all elements and all int operands (negative and out of range ones included) for each prime in the bounds", "the field tests try a few small non-negative operands; negative and out-of-range conversions were wrong and untested", [I + "linalg/field.hpp"], "ModP / ModP<2> specialisation / Rational operators and the precomputed inverse")
p("C02", "Sparse vectors behave as the dense vectors they represent", "Every sparse vector operation (axpy in all forms, swaps, scaling, dot and kron products, permutation and its inverse, insertion and erasure of indices, block reads and writes, row operations, lookup and search) gives exactly what the same operation gives on the dense vector, and leaves the indices strictly increasing, in range and without stored zeros. No operation reads or writes outside the vector's storage.",
  ["inputs"], "all supports, values, coefficients, permutations and index ranges up to the length bound over F2, F3 (F5)", "tests check a handful of fixed vectors; which branch an operation takes depends on how two supports interleave", [I + "linalg/sparse_vector.hpp", I + "linalg/set_vector.hpp", I + "linalg/abstract_vector.hpp"], "merge loops over sorted index/value pairs with temporary buffers")
p("C03", "Column matrices agree with dense linear algebra and keep their shape invariants", "Products, sums, differences, scalar multiples, transposes, sub-matrices, blocks, permutations of rows and columns, row and column operations, insertion and deletion of rows and columns, and all shape predicates of a column matrix agree with the same operation on the dense matrix. The declared row and column counts always match the stored data and every column stays well formed.",
  ["inputs"], "all matrices, permutations and positions up to the size bound", "tests use a few fixed matrices; several structural edits have no test at all", [I + "linalg/col_matrix.hpp", I + "linalg/abstract_matrix.hpp"], "vector of sparse columns plus declared sizes")
p("C05", "Triangular solves and pivoted factorizations reproduce the matrix", "For every matrix A the factorizations L-E-U-P, P-L-E-U, U-E-L-P, P-U-E-L, L-Q-U and U-Q-L multiply back to A, with triangular invertible, permutation and echelon-pivot factors of the promised shape whose pivot count is the rank of A. Triangular solves and inverses satisfy their defining equation, and the commutation relations that push triangular factors through echelon factors hold.",
  ["inputs"], "all matrices of the bounded shapes over F2, F3, F5", "tests factor a few fixed and random matrices; pivot order and zero rows/columns decide which path runs", [I + "linalg/sparse_fact.hpp", I + "linalg/col_matrix.hpp"], "pivot search and elimination with bookkeeping of the triangular factors")
p("C06", "Every matrix reduction variant produces a reduced R = B U", "For every matrix B each reduction variant (standard, extra, sparsifying, with clearing or compression, with or without the basis) ends with distinct pivots in the non-zero columns of R, the pivot map listing exactly those pivots and equal to the pairing determined by ranks of lower-left blocks. When a basis is kept, R = B U with U upper triangular and invertible, also after post-hoc sparsification or removal of extra cycles.",
  ["inputs"], "all matrices (and all composable pairs of boundary maps for clearing and compression) within the bounds", "tests compare only Betti numbers of a few complexes; matrices with single-entry columns never occur in them", [I + "homology/reduction.hpp"], "left-to-right column elimination driven by a pivot-to-column map")
p("C07", "Homology ranks, generators and bases are right under every algorithm flag", "For every chain complex and every combination of algorithm, optimization and basis flags, the Betti number in each dimension equals dim ker - rank of the next boundary, the generator indices are exactly the unpaired positive cells, and reported generators are cycles independent modulo boundaries. When a basis is kept, boundary times basis equals the reduced matrix in every dimension.",
  ["inputs", "configurations"], "all complexes with the bounded cell counts, all flag combinations", "tests compute Betti numbers of spheres and similar complexes for some flags", [I + "homology/basis.hpp", I + "homology/reduction.hpp", I + "chain/chain_complex.hpp"], "per-dimension reduction with clearing/compression information passed between dimensions")
exec(open(os.path.join(V, "lib", "props_more.py")).read())

def main():
    import checks as C
    lines = []
    for q in P:
        lines.append(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["quant"]), why_tests_cant=q["why"], anchors=dict(files=q["files"], mechanism=q["mechanism"]))))
        assert len(q["title"]) <= 80, q["id"]
        for f in q["files"]: assert os.path.exists("/repo/" + f), f
    open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    checks = []; na = []
    for q in P:
        if q["id"] in C.CHECKS and not q["na"]:
            ck = C.CHECKS[q["id"]]; b = ck["bounds"]
            checks.append(dict(property=q["id"], quick_cmd="python3 lib/check.py %s --tier quick" % q["id"], thorough_cmd="python3 lib/check.py %s --tier thorough" % q["id"],
                technique="symbolic execution of the real headers' LLVM bitcode, z3 decides branches and assertions within bounds", level="model_checking",
                level_note="bounded: " + b[0] + ". thorough: " + b[1] + ("" if not q["note"] else ". " + q["note"])))
        else: na.append(dict(property=q["id"], reason=q["na"] or "no check yet"))
    json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    d = open(os.path.join(V, "DESIGN.md")).read(); a, b = "<!-- table begin -->", "<!-- table end -->"; t = []
    for q in P:
        t.append("**%s %s**  " % (q["id"], q["title"]))
        if q["na"] or q["id"] not in C.CHECKS: t.append("Not applicable: %s\n" % (q["na"] or "no check yet")); continue
        ck = C.CHECKS[q["id"]]
        t.append("%s  \nHarness: %s. Bounds (quick): %s. Thorough: %s. Outside: %s.\n" % (HOW.get(q["id"], ""), ", ".join("`harness/%s.cpp`" % h for h in ck["harness"]), ck["bounds"][0], ck["bounds"][1], ck.get("outside", "larger sizes and values")))
    open(os.path.join(V, "DESIGN.md"), "w").write(d[:d.index(a) + len(a)] + "\n" + "\n".join(t) + d[d.index(b):])
    print(len(checks), "checks", len(na), "not applicable")
if __name__ == "__main__": main()
