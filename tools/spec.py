#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  rewrites both.
A property is listed as soon as harness/checks.py has a check for it."""
import json, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "harness"))
from checks import CHECKS

M = "matslise/matslise"
P = [
 dict(id="C01", title="Eigenvalues by index: right index, right value",
  statement="For every potential, interval, pair of separated boundary conditions and tolerance in scope, a query for the eigenvalues with indices i in [a,b) returns for each index a finite E_i such that exactly the eigenvalues 0..i-1 lie below it: the exact i-th eigenvalue of -y''+Vy=Ey lies within the requested tolerance (relative for |E|>1, times a small constant) of E_i. This includes nearly equal eigenvalues, high indices, jumps in the potential and states bound by a boundary condition.",
  over=["inputs", "configurations"], quant="all potentials of the generated families (12 shapes, with jumps, narrow features, offsets), intervals, boundary conditions (Dirichlet, Neumann, Robin of both signs and any scaling), tolerances 1e-3..1e-12, index ranges up to a few hundred",
  why="The tests compare a handful of classical problems (Mathieu, Coffey-Evans, Marletta, ...) with tabulated eigenvalues at one tolerance; a lost, doubled or misnumbered eigenvalue depends on the spacing of eigenvalues, the matching point and the sectors of other problems.",
  files=[f"{M}/matslise.cpp", f"{M}/sector.cpp", f"{M}/abstract_matslise.cpp", "matslise/util/sectorbuilder.cpp"],
  mech=[("bracketing by the Prüfer index and Newton refinement inside of the bracket", f"{M}/matslise.cpp"), ("Prüfer angle of a sector", f"{M}/sector.cpp"), ("mesh on the tolerance", "matslise/util/sectorbuilder.cpp")]),
 dict(id="C02", title="Index queries are complete, ordered and independent of how they are asked",
  statement="A query for indices [a,b) of a problem with separated boundary conditions (regular, half range or Sturm-Liouville) returns exactly one entry per index, consecutively numbered from a to b-1 and ascending. Splitting or widening the range, asking single indices, asking eigenpairs or using another overload returns the same eigenvalues for the same indices, up to the tolerance; an empty range returns nothing.",
  over=["inputs", "configurations", "histories"], quant="all problems as in C01 on Matslise, MatsliseHalf and SturmLiouville objects; all ranges [a,b), splits, enlargements and overloads",
  why="Tests ask one range per problem and compare values; whether an index is dropped or doubled depends on where a range is cut and how the bisection meets the spectrum.",
  files=[f"{M}/matslise.cpp", f"{M}/halfrange.cpp", f"{M}/abstract_matslise.cpp", "matslise/liouville/sturm_liouville.cpp"],
  mech=[("bisection of [Emin,Emax] on the index, recursion on both halves", f"{M}/matslise.cpp"), ("merging of even and odd eigenvalues", f"{M}/halfrange.cpp")]),
 dict(id="C03", title="Eigenvalues in an energy window: all of them, none outside, true indices",
  statement="A query for the eigenvalues between two energies returns all eigenvalues in that window and none outside of it (up to the tolerance at its ends), each with the index it has in the complete spectrum, consecutively numbered. Cutting a window in two loses nothing, and windows agree with index queries; an empty or reversed window returns nothing.",
  over=["inputs", "configurations"], quant="all problems as in C01 on full and half range objects; window ends below the spectrum, between, at and next to eigenvalues",
  why="Tests use a few windows with generous ends; errors appear for window ends at or next to eigenvalues, next to energies equal to potential values and for clustered eigenvalues.",
  files=[f"{M}/matslise.cpp", f"{M}/halfrange.cpp"],
  mech=[("bisection of the window on the matching error and the index", f"{M}/matslise.cpp")]),
 dict(id="C04", title="Eigenpairs are normalised, orthogonal solutions of the boundary value problem",
  statement="The eigenfunction returned with eigenvalue E_i equals, up to its sign and the accuracy that the tolerance and the distance to the neighbouring eigenvalues allow, the exact eigenfunction with unit L2 norm on the whole domain; its second component is its derivative. It satisfies both boundary conditions, has exactly i zeros in the interior, and is orthogonal to the eigenfunctions with other indices. This holds for the full and for the half range solver, on both sides of the point where solutions are matched.",
  over=["inputs", "configurations"], quant="problems as in C01 with well separated eigenvalues and no barrier higher than the matching can resolve; indices 0..60",
  why="Tests evaluate few eigenfunctions of problems with closed forms, mostly the function value at chosen points; sign, scale or derivative errors in one branch (left or right of the match, mirrored half, odd functions) go unseen.",
  files=[f"{M}/matslise.cpp", f"{M}/halfrange.cpp", f"{M}/sector.cpp"],
  mech=[("scaling of both sides at the matching point", f"{M}/matslise.cpp"), ("norm from the derivative to E", f"{M}/matslise.cpp"), ("reflection with parity", f"{M}/halfrange.cpp")]),
 dict(id="C05", title="An eigenfunction is one function, however it is evaluated",
  statement="Evaluating an eigenfunction object at one point, or at an array of points in any order, with duplicates, empty, on or next to ends of sectors, gives the same value and derivative for the same point, and one row per point; points outside of the domain give zero. The eigenpairs, the eigenvalues and the eigenfunctions of the same problem agree with each other. (The half range solver takes sorted arrays only.)",
  over=["inputs", "histories"], quant="eigenfunctions of full, half range, periodic and Sturm-Liouville problems, on automatic and uniform sectors, for eigenvalues and other energies; arrays of 0..60 points including ends of the domain and of sectors",
  why="Tests evaluate sorted grids once; the array path sorts, walks over sectors and restarts, which only differs from the scalar path on unsorted, repeated or boundary points.",
  files=[f"{M}/matslise.cpp", f"{M}/halfrange.cpp", f"{M}/periodic.cpp", "matslise/liouville/sturm_liouville.cpp", "matslise/util/find_sector.h"],
  mech=[("scalar and array evaluation of MatsliseEigenfunction", f"{M}/matslise.cpp"), ("find_sector", "matslise/util/find_sector.h")]),
 dict(id="C06", title="Propagation is the flow of the Schrödinger equation and of its derivative to E",
  statement="Propagating (y, y') and their derivatives to E from any point of the domain to any other, forwards or backwards and across or inside sectors, gives the solution of y''=(V-E)y with those initial values and its derivative to E, to the tolerance of the mesh. It is linear in the initial values and acts on every column on its own. Points outside of the domain are refused with an exception.",
  over=["inputs", "configurations"], quant="problems as in C01, energies below, in and far above the potential (also equal to a sector's mean, where the formulas degenerate), any pair of points, automatic and uniform sectors, with and without the precomputed full steps",
  why="Tests only see propagation through eigenvalues, where errors that affect both sides cancel; backward and partial steps, degenerate energies and the derivative to E are hardly exercised.",
  files=[f"{M}/sector.cpp", f"{M}/matslise_formulas.cpp", f"{M}/matslise.cpp", "matslise/util/calculateEta.h", "matslise/util/horner.h", "matslise/util/legendre.h", "matslise/util/y.h"],
  mech=[("constant perturbation steps", f"{M}/sector.cpp"), ("inverse steps T / y", "matslise/util/y.h")]),
 dict(id="C07", title="The Prüfer angle and the matching error count and locate eigenvalues",
  statement="The Prüfer angle that propagation returns counts the zeros of the solution passed on the way, in both directions. The index computed for an energy equals the number of eigenvalues below it, never decreases with the energy, and the matching error is the Wronskian of the left and the right solution, with its exact derivative to E; it vanishes exactly at eigenvalues.",
  over=["inputs", "configurations"], quant="problems as in C01, any energy that is not within the tolerance of an eigenvalue, any pair of points",
  why="Tests check the angle on one constant potential and a few eigenvalue indices; miscounts by pi appear only for particular combinations of initial angle, sector direction and energy.",
  files=[f"{M}/sector.cpp", f"{M}/matslise.cpp", "matslise/util/theta.h"],
  mech=[("change of the angle over a sector", f"{M}/sector.cpp"), ("matchingError", f"{M}/matslise.cpp")]),
 dict(id="C08", title="The reported error of an eigenvalue measures its distance to the spectrum",
  statement="For an energy close to an eigenvalue (closer than the gap to its neighbours), the eigenvalue error estimate is about the distance between that energy and the eigenvalue: it is not larger than a small multiple of it plus the tolerance, and not smaller than a fraction of it minus the tolerance. This holds for the full, the half range and the Sturm-Liouville solver.",
  over=["inputs", "configurations"], quant="problems as in C01; computed eigenvalues and energies displaced from them by up to a fraction of the gap",
  why="Tests at most check that the error is small for computed eigenvalues, which an estimate that is always zero also satisfies.",
  files=[f"{M}/matslise.cpp", f"{M}/halfrange.cpp", "matslise/liouville/sturm_liouville.cpp"],
  mech=[("error / derivative of the matching error", f"{M}/matslise.cpp")]),
 dict(id="C09", title="The half range solver agrees with the full one on symmetric problems",
  statement="For a potential that is even around zero with symmetric boundary conditions, the half range solver gives the same indices, eigenvalues and eigenfunctions (up to sign) as the full solver on [-b,b]. Its eigenfunctions with an even index are even and those with an odd index are odd, in value and derivative. The solution starts at zero and runs to b: boundary conditions are those at b, mirrored for -b; it refuses a left side that differs from the right side.",
  over=["inputs", "configurations"], quant="even potentials of all generated families, symmetric boundary conditions of any scaling, index and energy queries, points on both halves and at zero",
  why="Tests compare a few eigenvalues of symmetric classical problems; parity of derivatives, the interleaving of both families and all overloads are not compared.",
  files=[f"{M}/halfrange.cpp"],
  mech=[("even and odd problems on [0,b]", f"{M}/halfrange.cpp")]),
 dict(id="C10", title="Eigenvalues of problems with coupled (periodic) boundary conditions are complete",
  statement="For y(b)=K y(a) with det K=1 (periodic, antiperiodic or general), index and window queries return all asked eigenvalues with the number they have in the spectrum counted with multiplicity, ascending, with the correct multiplicity, and accurate to the tolerance; a double eigenvalue counts for two indices.",
  over=["inputs", "configurations"], quant="problems as in C01 (growth up to e^12) with K=I, -I and random real K of determinant 1; index ranges to 90 and energy windows",
  why="Tests use a few periodic problems with known eigenvalues; nearly closed gaps, general K and windows ending inside a pair are where eigenvalues are lost or merged.",
  files=[f"{M}/periodic.cpp"],
  mech=[("isolation of eigenvalues by gaps, multiplicity from the discriminant", f"{M}/periodic.cpp")]),
 dict(id="C11", title="Periodic eigenfunctions satisfy the coupled boundary conditions",
  statement="Every eigenfunction returned for an eigenvalue of y(b)=K y(a) solves the differential equation on the whole domain, satisfies y(b)=K y(a) for value and derivative, and is not zero; there are as many functions as the multiplicity of the eigenvalue, and they are linearly independent.",
  over=["inputs", "configurations"], quant="problems as in C10 with simple and double eigenvalues",
  why="Tests check eigenvalues, and eigenfunctions only of problems with closed forms where many wrong combinations still satisfy the equation.",
  files=[f"{M}/periodic.cpp"],
  mech=[("kernel of K - T(E)", f"{M}/periodic.cpp")]),
 dict(id="C12", title="Eigenvalues of general Sturm-Liouville problems are complete and accurate",
  statement="For -(p z')'+q z=E w z with positive p and w, separated boundary conditions in (z, z') and any tolerance in scope, an index query returns for every index the eigenvalue with exactly that index, to the requested tolerance.",
  over=["inputs", "configurations"], quant="generated p, w (constant, power, exponential, rational, trigonometric), q of the generated families, regular intervals, Dirichlet, Neumann and Robin conditions, indices to 85",
  why="Tests use one or two Sturm-Liouville problems with w=p or simple coefficients, and two kinds of boundary conditions.",
  files=["matslise/liouville/liouville.cpp", "matslise/liouville/sturm_liouville.cpp"],
  mech=[("Liouville transformation of the equation and the boundary conditions", "matslise/liouville/liouville.cpp")]),
 dict(id="C13", title="The Liouville transformation is an exact change of variables",
  statement="The coordinate maps r->x and x->r are increasing, inverse to each other and map the domains onto each other with dx/dr=sqrt(w/p). The maps of values and derivatives between both formulations are inverse to each other and map solutions of the Sturm-Liouville equation to solutions of the Schrödinger equation with the transformed potential.",
  over=["inputs", "configurations"], quant="coefficients as in C12, all points of the domain including its ends and those next to piece boundaries",
  why="Tests compare eigenvalues only; an error in a derivative or near the ends of a piece may cancel there.",
  files=["matslise/liouville/liouville.cpp", "matslise/liouville.h"],
  mech=[("piecewise polynomial integral of sqrt(w/p) and its inverse by Newton", "matslise/liouville/liouville.cpp"), ("Chebyshev/Legendre pieces of V", "matslise/liouville/liouville.cpp")]),
 dict(id="C14", title="Propagation of coupled systems is the flow of the matrix equation",
  statement="Propagating a matrix solution (Y, Y', and their derivatives to E) of Y''=(V-E)Y with symmetric matrix V between any two points, in either direction and in one or more steps, gives the exact solution to the tolerance of the mesh, linearly in the initial values; propagating columns gives the same columns. Points outside of the domain are refused with an exception.",
  over=["inputs", "configurations"], quant="random symmetric V of dimension 1..5 with jumps, any points, automatic and uniform sectors, 1..2n columns",
  why="Tests only propagate one or two potentials over the whole interval and compare few numbers.",
  files=["matslise/matscs/matscs.cpp", "matslise/matscs/sector.cpp", "matslise/matscs/matscs_formulas.cpp", "matslise/util/y.h"],
  mech=[("constant perturbation steps in the eigenbasis of the mean of V", "matslise/matscs/sector.cpp")]),
 dict(id="C15", title="Psi and the rotation of matrix solutions are transported exactly",
  statement="Transporting Psi=Y Y'^-1 between any two points, in both directions, gives the Psi of the solution there. The angle that propagating a symmetric (Lagrangian) matrix solution returns is the continuous change of the argument of det((Y'+iY)(Y'-iY)^-1) along the way, including all full turns.",
  over=["inputs", "configurations"], quant="problems as in C14, Dirichlet, Neumann and random symmetric initial values, any pair of points",
  why="Tests check a fixed potential and direction; a lost full turn depends on the solution at the end of a sector.",
  files=["matslise/matscs/sector.cpp", "matslise/matscs/matscs.cpp"],
  mech=[("propagatePsi_delta", "matslise/matscs/sector.cpp"), ("angles of a sector", "matslise/matscs/sector.cpp")]),
 dict(id="C16", title="Sturm-Liouville eigenfunctions solve the problem and are normalised",
  statement="The eigenfunction returned for an eigenvalue of -(p z')'+q z=E w z gives (z, z') of the exact eigenfunction up to sign, with unit norm for the weight w, satisfying both boundary conditions as they were given.",
  over=["inputs", "configurations"], quant="problems as in C12 with well separated eigenvalues, points of the whole domain",
  why="Tests evaluate eigenfunctions of a single problem.",
  files=["matslise/liouville/sturm_liouville.cpp", "matslise/liouville/liouville.cpp"],
  mech=[("SturmLiouville eigenfunction through y2z", "matslise/liouville/sturm_liouville.cpp")]),
 dict(id="C17", title="Meshes tile the domain, respect jumps, and start at a sensible matching point",
  statement="Every mesh covers the domain with consecutive sectors of positive length without gaps or overlaps, from its first to its last point; every declared jump of the potential is an end of a sector, and a uniform mesh has exactly the asked number of equal sectors. The number of sectors stays bounded, and the error estimated for a sector stays on the tolerance unless the sector already is very short. The matching point is an inner end of the sector with the lowest mean of the potential, which is also the estimated minimum of the potential, and sectors on both sides face it.",
  over=["inputs", "configurations"], quant="problems as in C01, C12 and C14, automatic and uniform meshes, all tolerances, 0..5 jumps anywhere inside of the domain, also close together",
  why="Tests never look at a mesh; a wrong one shows up as a loss of accuracy for particular potentials only.",
  files=["matslise/util/sectorbuilder.cpp", "matslise/util/sectorbuilder.h"],
  mech=[("AutomaticSectorBuilder, UniformSectorBuilder", "matslise/util/sectorbuilder.cpp")]),
 dict(id="C18", title="Queries are pure and can be made concurrently",
  statement="Queries on a constructed solver do not change it: repeating a query in any order, or from several threads at the same time on one shared object, gives bit for bit the same answers as the first time, without data races.",
  over=["schedules", "histories", "inputs"], quant="random mixes of all public const queries on shared full, half range, periodic, Sturm-Liouville and matrix solvers, by up to 8 threads with random delays, and by one thread in random order",
  why="Tests are single threaded and query once; races and hidden caches need concurrent or repeated use.",
  files=[f"{M}/matslise.cpp", f"{M}/sector.cpp", f"{M}/halfrange.cpp", f"{M}/periodic.cpp", "matslise/liouville/sturm_liouville.cpp", "matslise/matscs/matscs.cpp"],
  mech=[("const queries without mutable state", "matslise/matslise.h")]),
 dict(id="C19", title="No undefined behaviour, leaks or assertion failures on documented use",
  statement="Constructing any solver and using any public operation on valid arguments performs no out of bounds or use-after-free access, no read of uninitialised values, no undefined arithmetic or conversion, no leak and no failing assertion, also when eigenfunctions outlive the query that made them, when ranges are empty, and at the ends of the domain.",
  over=["inputs", "histories", "configurations"], quant="random programs of public calls over all solver kinds in address, undefined behaviour and leak sanitized builds with library assertions on, and uninitialised values under valgrind or memory poisoning",
  why="Tests run without sanitizers on valid, benign inputs; out of bounds reads next to a sector end go unnoticed.",
  files=["matslise"],
  mech=[("index arithmetic over sectors, Eigen blocks, unique ownership of sectors", f"{M}/matslise.cpp")]),
 dict(id="C20", title="Extended precision gives more accurate answers to the same questions",
  statement="The long double and the quadruple precision solvers return the same indices as the double precision one, and eigenvalues and eigenfunctions accurate to their (smaller) tolerance, beyond what double precision can represent.",
  over=["inputs", "configurations"], quant="problems as in C01 with tolerances down to 1e-15 in long double and 1e-20 in quadruple precision",
  why="Tests instantiate the extended types for few problems with tolerances that double precision could reach; a constant or function that silently uses double goes unnoticed.",
  files=[f"{M}", "matslise/util"],
  mech=[("templates over the scalar type", "matslise/util/instantiate.h")]),
 dict(id="C21", title="Eigenvalues follow the symmetries of the equation",
  statement="Adding a constant to the potential shifts all eigenvalues by it; translating or mirroring the problem (with its boundary conditions) leaves them unchanged; scaling the domain by c divides shifted eigenvalues by c^2; multiplying a boundary condition by any nonzero factor changes nothing; raising the potential never lowers an eigenvalue, and Dirichlet eigenvalues on a smaller interval are not smaller. All up to the tolerance, with the same indices; the same relations hold for the eigenfunctions.",
  over=["inputs", "configurations"], quant="pairs of problems of all families related by a random transformation",
  why="Each test looks at one problem on its own; relations between problems are never checked.",
  files=[f"{M}", "matslise/util/sectorbuilder.cpp"],
  mech=[("no dependence on the origin, orientation or scale", f"{M}/matslise.cpp")]),
 dict(id="C22", title="Numerical building blocks are accurate for all arguments",
  statement="The eta functions are accurate for every argument, negative, positive and around zero where they switch between series and recurrence; Legendre coefficients of a polynomial reproduce it and those of a smooth function are accurate; polynomial arithmetic (evaluation, derivatives, integrals) is exact up to rounding.",
  over=["inputs", "configurations"], quant="arguments over the whole range in which results are representable, all orders and scalar types used",
  why="Tests compare a table of arguments; the switch between formulas and the orders used elsewhere are not covered.",
  files=["matslise/util/calculateEta.h", "matslise/util/legendre.h", "matslise/util/polynomial.h", "matslise/util/horner.h"],
  mech=[("series below a threshold, recurrence above", "matslise/util/calculateEta.h")]),
 dict(id="C23", title="The potential is only evaluated where and when it should be, and may fail",
  statement="The potential is evaluated only inside of the domain (for the half range solver only for x>=0, never across a declared jump for a sector) and only while a solver is constructed, never by a query. An exception thrown by the potential at any evaluation leaves the constructor unchanged to the caller, without leaking memory and without disturbing other solvers.",
  over=["fault_sequences", "inputs"], quant="all solver kinds, an exception injected at any evaluation of the potential or coefficient functions",
  why="No test counts evaluations or lets a potential throw.",
  files=["matslise/util/sectorbuilder.cpp", f"{M}/sector.cpp", "matslise/util/legendre.h", "matslise/liouville/liouville.cpp"],
  mech=[("Legendre coefficients computed once per sector", "matslise/util/legendre.h"), ("ownership of sectors while the mesh is built", "matslise/util/sectorbuilder.cpp")]),
]

TECH = {
 "default": ("differential runtime monitoring against an independent reference", "Random problems are run on the real code, every answer is judged by an independent long double reference (Gauss collocation with zero counting). Assurance for the explored inputs; the reference and its generator of problems are trusted."),
}


def technique(p):
    return CHECKS[p["id"]].get("technique", TECH["default"][0]), CHECKS[p["id"]].get("level_note", TECH["default"][1])


def main():
    listed = [p for p in P if p["id"] in CHECKS]
    with open(VERIF / "properties.jsonl", "w") as f:
        for p in listed:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": ["public headers matslise.h, matscs.h, liouville.h"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks = []
    for p in listed:
        t, n = technique(p)
        checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": t, "level": "exploration", "level_note": n})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo are needed: everything observed is public. See DESIGN.md."}
    (VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
    print(len(listed), "properties")


main()
