"""What each property's check runs. Case counts bound the work; VERIF_SEED selects them."""
def one(src, quick, thorough, rule, **kw):
    st = {"name": "main", "src": src, "variant": "asan", "quick": quick, "thorough": thorough}
    st.update(kw)
    return {"stages": [st], "rule": rule}

def py(src, quick, thorough, rule):
    return {"stages": [{"name": "python", "pyfunc": "pybuild", "src": src, "quick": quick, "thorough": thorough}], "rule": rule,
            "technique": "runtime monitoring of the Python bindings built with ASan+UBSan: online reference oracle over generated workloads"}

R = {
    "C01": "Random spline (basis family, dimension, codomain, intervals, lengths over decades, coefficients, start) evaluated on random batches (sorted, shuffled, repeated, empty, on breakpoints, outside) through both call forms; every value and every reported attribute is compared with a long double piecewise reference. Non-trivial: some reference value is not negligible. Distinct: by hash of the full case description.",
    "C02": "Random spline differentiated along a random split of a random total order (0 to past the dimension), through GSpline, Function and expression interfaces; all values compared with long double derivatives of the exact pieces. Non-trivial: some exact derivative is not negligible. Distinct: by hash of the full case description.",
    "C03": "One basis object receives a random sequence of requests (values, derivatives, tau derivatives, matrices, strided buffers pre-filled with NaN); every entry is compared with the mathematical basis. Non-trivial: dimension above one and some reference value above 1e-3 of its scale. Distinct: by hash of the full case description.",
    "C04": "Random interpolation histories on one interpolator; every defining equation (waypoints, rest, continuity) is evaluated in long double on the returned coefficients, and reuse is compared with a fresh object. Non-trivial: some nonzero waypoint equation judged. Distinct: by hash of the full case description.",
    "C05": "Random histories of sensitivity requests; residual of A dc + dA c = 0 in long double for each returned vector. Non-trivial: the sensitivity returned is not negligible relative to the coefficients. Distinct: by hash of the full case description.",
    "C06": "Random Sobolev costs with random terms and weights, evaluated at sequences of interval lengths; value compared with long double integral of the interpolating spline obtained by an independent solver, gradient with its exact derivative. Non-trivial: some reference value above 1e-3 of its scale was compared. Distinct: by hash of the full case description.",
    "C07": "Random expression trees built with random overloads and value categories; value, domain, dimension at each point against long double evaluation of the same tree. Non-trivial: some reference value above 1e-3 of its scale was compared. Distinct: by hash of the full case description.",
    "C08": "Random expression trees differentiated along random splits of the order; values against long double jets of the tree. Non-trivial: some reference value above 1e-3 of its scale was compared. Distinct: by hash of the full case description.",
    "C09": "Random histories over a pool of functions, splines, bases; bitwise digests of every live object before and after every operation that may not change it, and prediction for those that may. Non-trivial: some digested function takes values above 1e-3. Distinct: by hash of the full case description.",
    "C10": "Random pairs of compatible and incompatible splines through every operator overload; coefficients, values, exceptions and equality against the definition. Non-trivial: an operator, refusal or comparison judged. Distinct: by hash of the full case description.",
    "C11": "Random spline scaled to durations and limits; values, derivatives and sampled limits against the original. Non-trivial: a scaling was judged and, for limits, a component comes within the sampling error of its limit, so that the bound is tight or a fixed duration was checked. Distinct: by hash of the full case description.",
    "C12": "Every node count and random domains and interval lengths; nodes and weights against long double Newton solution and exactness on polynomials. Non-trivial: a rule was judged. Distinct: by hash of the full case description.",
    "C13": "Random functions, orders, weights, node and interval counts; result against long double composite quadrature and exact integral where the rule is exact. Non-trivial: an integral or product judged against the reference. Distinct: by hash of the full case description.",
    "C14": "Random collocation histories (approximate, algebra, assignment, moves) with nodal values tracked by a long double model. Non-trivial: some reference value above 1e-3 of its scale was compared. Distinct: by hash of the full case description.",
    "C15": "Pool of basis objects receives a random history of matrix requests, with copies made midway; each matrix is applied to random coefficients and compared with exact pieces. Non-trivial: some reference value above 1e-3 of its scale was compared. Distinct: by hash of the full case description.",
    "C17": "Random invalid requests (near and far from valid) in every overload; the call must throw a std::exception, operands digested before and after, then used again. Non-trivial: at least one invalid request issued. Distinct: by hash of the full case description.",
    "C18": "Mixed API workload over a pool of live objects with boundary sizes and rejected calls. Stages: ASan+UBSan+leak balance; digests of all results under two different fills of fresh memory must agree; valgrind memcheck. Non-trivial: more than 200 result numbers were observed. Distinct: by hash of the full case description.",
    "C19": "2 to 8 threads run mixed workloads on distinct objects (some copied from common ones) under ThreadSanitizer with random yields; each thread's digest must equal that of its single-threaded run. Non-trivial: at least two threads and more than three distinct adjacent pairs of (thread, thread) in the observed interleaving. Distinct: by hash of the full case description.",
    "C20": "Random histories of functionals on collocation splines; each application, matrix and differential against exact operation on the piecewise polynomials. Non-trivial: some reference value above 1e-3 of its scale was compared. Distinct: by hash of the full case description.",
    "C21": "The monitor is the optimizer: audits variables, bounds, constraints, cost and all Jacobians at each point it visits and judges the returned path. Non-trivial: cost or gradient above 1e-3 of its scale compared, or a failure status injected. Distinct: by hash of the full case description.",
    "C22": "Random sequences of factory requests (valid and invalid), copies, clones, moves and comparisons; each basis against the mathematical one. Non-trivial: a basis or refusal was judged. Distinct: by hash of the full case description.",
    "C16": "Random splines and bases (raw with special values, interpolated, derived, scaled, already round-tripped) through dictionary and JSON; all fields bit for bit, values and derivatives, independence of dictionary and object, refusal of dictionaries with an entry missing, of another type or size. Non-trivial: a coefficient above 1e-6, a basis or refusals judged. Distinct: by hash of the full case description.",
    "C24": "Random expression trees, splines, basis queries, interpolation histories, costs, integrals, optimal paths and invalid requests through the Python bindings (built with ASan+UBSan), with arguments in 33 array layouts; results against a long double reference in Python, arguments compared before and after, every returned array re-read after its source was deleted and memory was reused. Non-trivial: a reference value above 2e-5 of its error scale compared, or refusals judged. Distinct: by hash of the full case description.",
    "C25": "Random functions and splines drawn by each helper on the Agg canvas; every artist on every axis is matched with the curve, breakpoints and waypoints it must show. Non-trivial: a drawn reference value above 1e-3. Distinct: by hash of the full case description.",
    "C26": "Random numbers, matrices and splines with one difference at least a factor of 1.25 inside or outside the tolerance; the verdict of every comparison, in both orders, against the definition. Non-trivial: a comparison with a known answer was made. Distinct: by hash of the full case description.",
    "C23": "Random node sets and buffers; operators applied to polynomials and Gram matrices against exact long double integrals. Non-trivial: an exact entry above 1% of the matrix size. Distinct: by hash of the full case description.",
}

SPEC = {
    "C01": one("c01.cpp", 4000, 60000, R["C01"]),
    "C02": one("c02.cpp", 4000, 60000, R["C02"]),
    "C04": one("c04.cpp", 5000, 40000, R["C04"]),
    "C05": one("c05.cpp", 5000, 40000, R["C05"]),
    "C23": one("c23.cpp", 8000, 100000, R["C23"]),
    "C06": one("c06.cpp", 2000, 30000, R["C06"]),
    "C12": one("c12.cpp", 5000, 40000, R["C12"]),
    "C07": one("c07.cpp", 2500, 100000, R["C07"]),
    "C08": one("c08.cpp", 3000, 100000, R["C08"]),
    "C09": one("c09.cpp", 3500, 60000, R["C09"]),
    "C10": one("c10.cpp", 8000, 100000, R["C10"]),
    "C11": one("c11.cpp", 1200, 60000, R["C11"]),
    "C13": one("c13.cpp", 1000, 40000, R["C13"]),
    "C14": one("c14.cpp", 3000, 40000, R["C14"]),
    "C15": one("c15.cpp", 3000, 60000, R["C15"]),
    "C17": one("c17.cpp", 6000, 60000, R["C17"], ifopt=True),
    "C20": one("c20.cpp", 1500, 60000, R["C20"], ifopt=True),
    "C21": one("c21.cpp", 1200, 30000, R["C21"], ifopt=True),
    "C22": one("c22.cpp", 3000, 60000, R["C22"]),
    "C18": {"rule": R["C18"], "stages": [
        {"name": "sanitizers", "src": "c18.cpp", "variant": "asan", "ifopt": True, "quick": 2200, "thorough": 60000},
        {"name": "fills", "src": "c18.cpp", "variant": "plain", "ifopt": True, "quick": 1600, "thorough": 80000,
         "env": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}},
        {"name": "memcheck", "src": "c18.cpp", "variant": "plain", "ifopt": True, "quick": 240, "thorough": 3000,
         "env": {"VH_MEMCHECK": "1", "VH_ALARM": "200"},
         "wrap": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no"]},
    ]},
    "C19": one("c19.cpp", 160, 6000, R["C19"], variant="tsan", ifopt=True, workers=4),
    "C16": py("c16.py", 3000, 120000, R["C16"]),
    "C24": py("c24.py", 5000, 200000, R["C24"]),
    "C25": py("c25.py", 500, 20000, R["C25"]),
    "C26": one("c26.cpp", 10000, 60000, R["C26"]),
    "C03": one("c03.cpp", 4000, 60000, R["C03"]),
}
