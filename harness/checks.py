"""What each property runs. cases: (quick, thorough)."""

_PROBLEMS = ("Case k of seed s is drawn from a generator seeded by (s, k): one of 12 families of potentials (trigonometric, "
             "oscillators, double wells, bumps, Coffey-Evans, Morse, constant/linear, radial, sech^2, polynomials, even, with jumps), "
             "interval, tolerance 1e-3..1e-12, boundary conditions. ")
_REF = ["reference: 10 stage Gauss collocation in long double with zero counting"]

CHECKS = {
    "C01": {
        "parts": [{"driver": "c01", "cases": (6000, 30000)}],
        "rule": _PROBLEMS + "Every eigenvalue returned is compared with Sturm counts of an independent long double integrator just "
                            "below and above it. Distinct: problems with a different family, index range, kind of boundary and tolerance decade.",
        "assumptions": _REF,
    },
    "C02": {
        "parts": [{"driver": "c02", "cases": (6000, 120000)}],
        "rule": _PROBLEMS + "On a full range, half range or Sturm-Liouville solver: an index range, the same range split, widened, by "
                            "single indices, as eigenpairs and through other overloads. Distinct: kind of solver, range and tolerance decade.",
        "assumptions": _REF,
    },
    "C03": {
        "parts": [{"driver": "c03", "cases": (6000, 120000)}],
        "rule": _PROBLEMS + "On a full or half range solver: a window with ends at, next to, between or below eigenvalues and a cut in two. "
                            "Distinct: kind of solver, indices, sizes of the windows and tolerance decade.",
        "assumptions": _REF,
    },
    "C04": {
        "parts": [{"driver": "c04", "cases": (4000, 50000)}],
        "rule": _PROBLEMS + "Eigenpairs of consecutive indices are compared on a grid with the reference eigenfunction. Distinct: family, "
                            "kinds of boundary, half or full range, index and tolerance decade of functions that were compared.",
        "assumptions": _REF,
    },
    "C05": {
        "parts": [{"driver": "c05", "cases": (20000, 120000)}],
        "rule": _PROBLEMS + "Eigenfunctions of full, half range, periodic and Sturm-Liouville solvers are evaluated on random arrays and point by "
                            "point. Distinct: kind of solver, indices, number of sectors and family.",
    },
    "C06": {
        "parts": [{"driver": "c06", "cases": (12000, 200000)}],
        "rule": _PROBLEMS + "Six propagations per problem between random points, at random energies. Distinct: family, tolerance decade, number of sectors.",
        "assumptions": _REF,
    },
    "C07": {
        "parts": [{"driver": "c07", "cases": (8000, 120000)}],
        "rule": _PROBLEMS + "Propagation between random points and matching errors and indices at random energies. Distinct: see samples.",
        "assumptions": _REF,
    },
    "C08": {
        "parts": [{"driver": "c08", "cases": (6000, 60000)}],
        "rule": _PROBLEMS + "Full range, half range and Sturm-Liouville solvers: the estimate at a computed eigenvalue and at energies displaced by "
                            "1e-6 to .06 of the distance to the next eigenvalue. Distinct: kind of solver, family, index and tolerance decade.",
        "assumptions": _REF,
    },
    "C09": {
        "parts": [{"driver": "c09", "cases": (20000, 60000)}],
        "rule": "Random even potentials: every query of the half range solver is repeated on a full range solver. Distinct: family, kind of "
                "boundary, index range and tolerance decade.",
    },
    "C10": {
        "parts": [{"driver": "c10", "cases": (6000, 100000)}],
        "rule": _PROBLEMS + "Boundary matrix K: identity, -identity, or a random matrix of determinant 1. Distinct: family, kind of K, range, tolerance decade.",
        "assumptions": ["reference: discriminant and Sturm counts of an independent long double integrator"],
    },
    "C11": {
        "parts": [{"driver": "c11", "cases": (6000, 80000)}],
        "rule": _PROBLEMS + "Boundary matrix K: identity, -identity, or a random matrix of determinant 1. Eigenfunctions of computed eigenvalues "
                            "are compared with reference solutions. Distinct: family, kind of K, multiplicity, tolerance decade.",
        "assumptions": _REF,
    },
    "C12": {
        "parts": [{"driver": "c12", "cases": (6000, 30000)}],
        "rule": "Case k of seed s: coefficients p, w of 6 shapes, q of random terms, interval, tolerance, boundary conditions and an index range. "
                "Distinct: shapes of p and w, number of terms of q, kinds of boundary, first index and tolerance decade.",
        "assumptions": ["reference: independent long double integrator of the Sturm-Liouville equation with zero counting"],
    },
    "C13": {
        "parts": [{"driver": "c13", "cases": (8000, 60000)}],
        "rule": "Case k of seed s: coefficients as in C12; the transformation at 90 points (random, ends of the domain and of pieces and next to them), "
                "and three propagations through the transformed equation. Distinct: shapes of p and w, number of terms of q, number of pieces.",
        "assumptions": ["reference: Gauss quadrature, exact derivatives by automatic differentiation, long double integrator of the Sturm-Liouville equation"],
    },
    "C14": {
        "parts": [{"driver": "c14", "matscs": True, "cases": (3000, 50000)}],
        "rule": "Random symmetric matrix potentials of dimension 1..5 with jumps, three propagations each between random points. "
                "Distinct: dimension, number of sectors, kind of mesh, number of jumps and tolerance decade.",
        "assumptions": ["reference: Gauss collocation of the coupled equations in long double"],
    },
    "C15": {
        "parts": [{"driver": "c15", "matscs": True, "cases": (12000, 200000)}],
        "rule": "Random symmetric matrix potentials of dimension 1..5 with Lagrangian initial values. Distinct: problems.",
        "assumptions": ["reference: Gauss collocation of the coupled equations in long double, continuous lift of the argument in small steps"],
    },
    "C16": {
        "parts": [{"driver": "c16", "cases": (2400, 30000)}],
        "rule": "Problems as in C12: eigenpairs of consecutive indices are compared on a grid with the reference eigenfunction. "
                "Distinct: shapes of p and w, number of terms of q, kinds of boundary, index and tolerance decade of functions that were compared.",
        "assumptions": ["reference: independent long double integrator of the Sturm-Liouville equation with zero counting"],
    },
    "C17": {
        "parts": [{"driver": "c17", "matscs": True, "cases": (32000, 200000)}],
        "rule": _PROBLEMS + "Domains and jumps are varied further, jumps also close together, to the ends and to the middle; meshes of full, half "
                            "range, periodic and matrix solvers. Distinct: family, kind of solver, number of sectors and jumps, matching point.",
    },
    "C18": {
        "parts": [{"driver": "c18", "matscs": True, "cases": (6000, 80000)},
                  {"driver": "c18", "config": "tsan", "matscs": True, "cases": (1600, 20000)}],
        "rule": "Case k of seed s: a random solver of one of seven kinds and a random program of queries. The queries are repeated in other orders, "
                "on a rebuilt object, and by several threads at once in random orders; all answers have to be bit for bit the same. "
                "In the second part ThreadSanitizer watches. Distinct: kind of solver and query.",
    },
    "C19": {
        "parts": [{"driver": "c19", "config": "asan", "matscs": True, "cases": (3000, 50000)},
                  {"driver": "c19", "config": "vg", "matscs": True, "cases": (500, 8000)}],
        "rule": "Case k of seed s: a random solver of one of seven kinds, or the building blocks, and a random program of queries, including points "
                "at the ends, repeated, unordered and absent ones. Address, leak and undefined behaviour sanitizer with the assertions of the library, "
                "of Eigen and of the standard library in the first part, valgrind memcheck in the second. Distinct: kind of solver and query.",
    },
    "C20": {
        "parts": [{"driver": "c20", "config": "quad", "cases": (2400, 30000)}],
        "rule": _PROBLEMS + "Solved in long double and in 128 bit floating point, with tolerances beyond the reach of double. Distinct: see samples.",
        "assumptions": ["reference: 10 stage Gauss collocation in 128 bit floating point with zero counting"],
    },
    "C21": {
        "parts": [{"driver": "c21", "cases": (30000, 200000)}],
        "rule": _PROBLEMS + "Each problem is solved together with one that is related by an exact transformation or an inequality. Distinct: relation, "
                            "family, kinds of boundary, first index and tolerance decade.",
    },
    "C22": {
        "parts": [{"driver": "c22", "config": "quad", "cases": (40000, 1000000)}],
        "rule": "Case k of seed s: eta functions, Legendre coefficients of polynomials, polynomials, vectors with derivatives or the search for a sector, in double, "
                "long double or 128 bits. Distinct: block, scalar type, orders and magnitude of the argument.",
        "assumptions": ["reference: arithmetic in 110 digits"],
    },
    "C23": {
        "parts": [{"driver": "c23", "matscs": True, "cases": (12000, 150000)},
                  {"driver": "c23", "config": "asan", "matscs": True, "cases": (1000, 20000)}],
        "rule": "Case k of seed s: a potential of constant pieces on one of four kinds of solvers, or a random solver whose functions count their evaluations, "
                "throw at random ones and use another solver at random ones. The address and leak sanitizers watch the second part. "
                "Distinct: kind of solver, number of pieces, evaluation that throws.",
    },
}
