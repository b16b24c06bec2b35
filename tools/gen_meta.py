"""Writes properties.jsonl and MANIFEST.json (run by hand after edits)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mechanism, observe):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=["dcor/" + f for f in files],
                             mechanism=[dict(name=n, where=w) for n, w in mechanism],
                             observe_at=observe, hook_needed=None))


PROPS = [
    P("C01", "Biased distance covariance equals its definition",
      "For any two samples of the same size (any numbers of columns, any exponent in (0, 2)), the "
      "squared distance covariance, the distance covariance and the distance variances returned by "
      "every public function equal the mean product of the double centred distance matrices "
      "(respectively its root), up to rounding proportional to the diameters of the samples. This "
      "includes tied, constant, sorted and far-from-origin data, any magnitude from 1e-30 to 1e30, "
      "and samples of 1 to 100000 observations.",
      ["inputs"], "all pairs of samples, exponents and default/definition-based method choices",
      "The tests compare a dozen fixed arrays; ties, sizes next to powers of two, magnitudes, "
      "exponents and mixed column counts are not sampled, and the default algorithm changes with "
      "the data.",
      ["_dcor.py", "_dcor_internals.py", "distances.py", "_fast_dcov_avl.py"],
      [("method dispatch", "dcor/_dcor.py"), ("double centring", "dcor/_dcor_internals.py"),
       ("fast algorithm", "dcor/_fast_dcov_avl.py")],
      ["distance_covariance", "distance_covariance_sqr", "distance_stats", "distance_stats_sqr"]),
    P("C02", "Unbiased distance covariance equals its definition",
      "For any two samples of the same size n >= 4, the unbiased squared distance covariance and "
      "variances returned by every public function equal the sum of products of the U-centred "
      "distance matrices over n(n-3), up to rounding proportional to the diameters of the samples.",
      ["inputs"], "all pairs of samples with n >= 4, exponents and default/definition-based methods",
      "Only a few fixed arrays are compared; the estimator can be wrong for particular sizes, ties "
      "or exponents without any of them changing.",
      ["_dcor.py", "_dcor_internals.py", "_fast_dcov_avl.py"],
      [("U-centring", "dcor/_dcor_internals.py"), ("closed formula from row sums", "dcor/_dcor_internals.py")],
      ["u_distance_covariance_sqr", "u_distance_stats_sqr"]),
    P("C03", "Distance correlations are normalised, bounded and well defined",
      "Every distance correlation equals the covariance over the root of the product of the "
      "variances: in [0, 1] for the biased ones (up to rounding), 1 for a sample with itself or with a "
      "scaled and shifted copy, 0 when a sample is constant, and never NaN or infinite. The "
      "statistics functions return the same covariance, correlation and variances as the individual "
      "functions, and the rooted functions the roots of the squared ones.",
      ["inputs"], "all pairs of samples, including constant and nearly constant ones, biased (n >= 1) and unbiased (n >= 4)",
      "Degenerate samples (constant, one different value, tiny variance) form a space that "
      "examples barely touch, and agreement between functions is only checked on two arrays.",
      ["_dcor.py", "_utils.py"],
      [("normalisation and zero-denominator handling", "dcor/_dcor.py"), ("clipped root", "dcor/_utils.py")],
      ["distance_correlation", "distance_correlation_sqr", "u_distance_correlation_sqr", "distance_stats", "distance_stats_sqr", "u_distance_stats_sqr"]),
    P("C04", "All algorithms and compilation modes give the same result",
      "For one-dimensional samples of n >= 4 observations, every algorithm (automatic, definition, "
      "AVL, mergesort), however it is named, and every compilation mode it supports return the same "
      "covariances, correlations and variances, equal to the definition up to rounding. This holds "
      "for ties, sorted and reversed data, data far from the origin, and up to 100000 observations.",
      ["inputs", "configurations"], "all one-dimensional pairs x methods x compilation modes",
      "The tests cross-check the algorithms on a few fixed or seeded arrays; errors that depend on "
      "the size, ties, ordering or magnitude are missed.",
      ["_fast_dcov_avl.py", "_fast_dcov_mergesort.py", "_dcor_internals_numba.py", "_dcor.py"],
      [("dyadic partial sums", "dcor/_fast_dcov_avl.py"), ("merge with weighted sums", "dcor/_fast_dcov_mergesort.py")],
      ["method and compile_mode arguments of all dependence measures"]),
    P("C05", "Rowwise computation equals computing each pair separately",
      "Applying a function rowwise to sequences of samples returns a vector whose i-th entry is the "
      "function applied to the i-th pair, whatever the container (list, tuple, stacked array of any "
      "layout), the sizes and shapes of the individual samples, the rowwise mode, the method, the "
      "exponent and the compilation mode.",
      ["inputs", "configurations"], "sequences of pairs x rowwise mode x method x compilation mode x exponent",
      "The tests use two-element sequences of fixed arrays in default modes.",
      ["_rowwise.py", "_fast_dcov_avl.py"],
      [("optimized rowwise functions", "dcor/_rowwise.py"), ("generalised ufunc", "dcor/_fast_dcov_avl.py")],
      ["rowwise"]),
    P("C06", "Symmetry and invariance of the measures",
      "Dependence measures do not change when the samples are exchanged, jointly reordered, "
      "translated, rotated/reflected or have their columns permuted, and scale by |k|^exponent "
      "(correlations not at all) when a sample is multiplied by k; energy distances are invariant "
      "under common rigid motions and separate reorderings and scale by |k|^exponent.",
      ["inputs"], "all samples x transformations x exponents x methods",
      "A relation between two evaluations for arbitrary data and transformations; the tests have "
      "no such checks.",
      ["_dcor.py", "_energy.py", "distances.py", "_partial_dcor.py"],
      [("everything computed from Euclidean distances", "dcor/distances.py")],
      ["all dependence measures", "energy_distance"]),
    P("C07", "Affinely invariant distance correlation",
      "The affinely invariant distance correlation (and its square) equals the distance correlation "
      "of the samples standardised by the inverse root of their covariance matrices, and does not "
      "change when either sample undergoes a nonsingular affine map (covariance matrices "
      "nonsingular).",
      ["inputs"], "all samples with nonsingular covariance x nonsingular affine maps x methods",
      "One fixed example is tested.",
      ["_dcor.py"], [("standardisation by the covariance", "dcor/_dcor.py")],
      ["distance_correlation_af_inv", "distance_correlation_af_inv_sqr"]),
    P("C08", "Partial distance covariance and correlation equal their definition",
      "For three samples of n >= 4 observations, the partial distance covariance is the U-inner "
      "product of the projections of the first two on the orthogonal complement of the third, and "
      "the partial distance correlation the corresponding cosine (0 if a sample is constant or equal to the third); "
      "both are symmetric in the first two samples and reduce to the unbiased distance "
      "covariance/correlation when the third sample is constant.",
      ["inputs"], "all triples of samples",
      "Three fixed triples are tested.",
      ["_partial_dcor.py", "_dcor_internals.py"],
      [("complementary projection", "dcor/_dcor_internals.py"), ("recursive correlation formula", "dcor/_partial_dcor.py")],
      ["partial_distance_covariance", "partial_distance_correlation"]),
    P("C09", "Centring, products and projections obey their algebra",
      "Double centring and U-centring return the matrices of their formulas (null row sums, null "
      "diagonal for U-centring) in the requested output array or a new one, without touching the "
      "argument unless it is the output; mean and U products are the inner products of their "
      "formulas; the U-projection and the complementary projection decompose a matrix into parallel "
      "and orthogonal parts, including for the null matrix.",
      ["inputs"], "all symmetric matrices x output arrays",
      "Tests use one or two small matrices and do not cover aliasing or layout of the output.",
      ["_dcor_internals.py"], [("centring and projections", "dcor/_dcor_internals.py")],
      ["double_centered", "u_centered", "mean_product", "u_product", "u_projection", "u_complementary_projection"]),
    P("C10", "Energy distance equals its definition",
      "For two samples of any sizes with the same columns, the energy distance is 2 avg|X-Y| - "
      "avg|X-X'| - avg|Y-Y'| with the given exponent, averaging function and estimation statistic "
      "(V with, U without the distance of a point to itself), symmetric in its arguments and, for "
      "the V statistic with the mean, never negative up to rounding.",
      ["inputs", "configurations"], "all pairs of samples x exponents x averages x estimation statistics (enumerations or names in any case)",
      "A few fixed arrays are tested, mostly with default options.",
      ["_energy.py", "distances.py"], [("energy distance from distance matrices", "dcor/_energy.py")],
      ["energy_distance", "EstimationStatistic"]),
    P("C11", "Energy test statistic for two or more samples",
      "The energy test statistic is the sum over all pairs of samples of nm/(n+m) times their energy "
      "distance, for any number of samples of any sizes, exponent, average and estimation statistic, "
      "independent of the order of the samples and of the number of resamples.",
      ["inputs", "configurations"], "all collections of 2..20 samples x options",
      "Tests use balanced fixed samples; unbalanced sizes and more than two samples with options are not covered.",
      ["homogeneity.py", "_energy.py"], [("slices of the pooled distance matrix", "dcor/homogeneity.py")],
      ["homogeneity.energy_test_statistic", "homogeneity.energy_test"]),
    P("C12", "Permutation p-values count strictly larger permuted statistics",
      "The p-value of every permutation test is (1 + number of permuted statistics that strictly "
      "exceed the observed one) / (number of resamples + 1), where each resample permutes the "
      "observations of one sample (or of the pooled samples) jointly with a permutation drawn "
      "uniformly from the given random state, exactly as many as requested.",
      ["inputs", "histories"], "all data x permutation sequences x number of resamples x random state kinds",
      "Tests compare a handful of p-values for fixed seeds; ties, other permutations and other sizes are not reached.",
      ["_hypothesis.py", "independence.py", "homogeneity.py"],
      [("permutation loop and counting", "dcor/_hypothesis.py")],
      ["energy_test", "distance_covariance_test", "partial_distance_covariance_test"]),
    P("C13", "Tests are reproducible from their random state",
      "With the same data and the same random state (integer, legacy or new generator) a permutation "
      "test always returns the same result, whatever the number and kind of parallel jobs, the global "
      "random state or other calls before it; it leaves the global random state alone; different "
      "seeds draw different permutations, and a generator given by the caller is advanced, so that "
      "the next test draws others.",
      ["inputs", "schedules", "histories"], "all data x seeds x generator kinds x n_jobs x joblib backends",
      "Tests run one seed with the default number of jobs.",
      ["_hypothesis.py", "_utils.py"],
      [("permutations drawn before the parallel loop", "dcor/_hypothesis.py"), ("random state initialisation", "dcor/_utils.py")],
      ["random_state and n_jobs of the permutation tests"]),
    P("C14", "Independence test statistics equal their definition",
      "The statistic of the distance covariance test is n times the squared distance covariance and "
      "that of the partial test n times the partial distance covariance, for any samples, exponent "
      "and number of resamples; without resamples the p-value is 1.",
      ["inputs"], "all samples x exponents x number of resamples",
      "Tests check a few fixed arrays, with exponent 1.",
      ["independence.py", "_dcor_internals.py"], [("statistic from centred matrices", "dcor/independence.py")],
      ["distance_covariance_test", "partial_distance_covariance_test", "HypothesisTest"]),
    P("C15", "Distance correlation t-test equals its definition",
      "For samples of n >= 4 observations with unbiased correlation R and v = n(n-3)/2, the t statistic "
      "is sqrt(v-1) R / sqrt(1-R^2) and the p-value the upper tail probability of Student's t with v-1 "
      "degrees of freedom; degenerate data (constant, identical) do not make it fail.",
      ["inputs"], "all pairs of samples with n >= 4",
      "Two fixed data sets are tested.",
      ["independence.py"], [("t statistic and survival function", "dcor/independence.py")],
      ["distance_correlation_t_statistic", "distance_correlation_t_test"]),
    P("C16", "Pairwise distances",
      "The pairwise distance matrix of two sets has at (i, j) the Euclidean distance between x[i] and "
      "y[j] raised to the exponent, with the shape (len(x), len(y)); for one set it is symmetric (up to "
      "rounding) with an exactly null diagonal, and equal points are at distance exactly 0.",
      ["inputs"], "all one or two sets of points x exponents x memory layouts",
      "Tests use sets of equal size whose distance matrix happens to be symmetric.",
      ["distances.py", "_utils.py"], [("distance wrappers", "dcor/distances.py")],
      ["distances.pairwise_distances"]),
    P("C17", "Calls are pure: no side effects, no hidden state, any memory layout",
      "No call modifies its arguments (except an explicit output array) or earlier results, results "
      "depend only on the values of the arguments and not on their memory layout, on object identity "
      "or on earlier calls, and one-dimensional and single-column arrays are equivalent.",
      ["histories", "inputs"], "all sequences of calls of the public functions interleaved with changes of the data x memory layouts",
      "Tests make isolated calls on freshly built contiguous arrays.",
      ["_dcor.py", "_dcor_internals.py", "_fast_dcov_avl.py", "_fast_dcov_mergesort.py", "_hypothesis.py", "_partial_dcor.py", "_energy.py"],
      [("copies before in-place centring", "dcor/_dcor_internals.py"), ("contiguous copies in the fast algorithms", "dcor/_fast_dcov_avl.py")],
      ["every public function"]),
    P("C18", "The number type of the data does not change the results",
      "The same observations give the same results, up to double rounding, as any integer type, "
      "boolean, half, single, double (any byte order) or long double, each sample with its own type, "
      "without overflow or truncation; long double data are not rounded to double; samples of "
      "rational or decimal objects give distance covariances in exact rational, respectively decimal "
      "arithmetic.",
      ["inputs"], "all samples x number types of each sample x functions x methods",
      "Tests use small integers and doubles, so overflow and mixed types are not reached.",
      ["_utils.py", "distances.py", "_fast_dcov_avl.py", "_fast_dcov_mergesort.py", "_rowwise.py", "_dcor_internals.py"],
      [("conversion decision", "dcor/_utils.py"), ("fallback distances", "dcor/distances.py")],
      ["all dependence measures", "energy_distance", "pairwise_distances", "rowwise", "tests"]),
    P("C19", "Array API libraries are supported and stay in their library",
      "Floating point arrays of any library that follows the Array API standard give the same values "
      "as NumPy arrays in the dependence measures, energy distance, pairwise distances, centring, "
      "products, projections and tests, and the results of the measures and statistics are arrays of "
      "the same library.",
      ["inputs", "configurations"], "all samples and matrices as strict Array API arrays",
      "Tests cover few functions with one array.",
      ["_utils.py", "distances.py", "_dcor.py", "_dcor_internals.py", "_energy.py", "homogeneity.py", "independence.py", "_hypothesis.py"],
      [("namespace detection", "dcor/_utils.py")],
      ["every function that takes Array API arrays"]),
    P("C20", "Requests that cannot be satisfied are refused or warned about",
      "Samples of different sizes (or columns, for distances between samples), rowwise sequences of "
      "different lengths, arrays of more than two dimensions, fast algorithms for multivariate data, other exponents or other array libraries, unsupported compilation modes, "
      "missing optimized rowwise implementations and unknown names raise an exception and never "
      "return a number; an exponent outside (0, 2) produces a warning, and one inside does not.",
      ["inputs", "configurations"], "all invalid requests: sizes, shapes, options",
      "Tests check a few of the refusals with one shape each.",
      ["_dcor.py", "_dcor_internals.py", "_fast_dcov_avl.py", "_fast_dcov_mergesort.py", "_rowwise.py", "_energy.py", "independence.py", "_partial_dcor.py"],
      [("size check and exponent warning", "dcor/_dcor_internals.py"), ("supported compilation modes", "dcor/_dcor.py")],
      ["every public function"]),
    P("C21", "Zero exactly for independence and for equal distributions",
      "The biased distance covariance and correlation are zero (up to rounding) when the empirical "
      "joint distribution is exactly the product of its margins and positive when it is not; the V "
      "energy distance is zero when the two empirical distributions are equal and positive otherwise; "
      "none of them changes when every observation is repeated the same number of times.",
      ["inputs"], "all discrete product and non-product joint samples, equal and different distributions, repetitions x exponents x methods",
      "Tests never build product samples or repeated samples.",
      ["_dcor.py", "_energy.py", "_fast_dcov_avl.py", "_fast_dcov_mergesort.py"],
      [("V statistics of the definition", "dcor/_dcor_internals.py")],
      ["distance_covariance", "distance_correlation", "energy_distance", "test statistics"]),
    P("C22", "One-dimensional measures scale to large samples",
      "Every dependence measure (covariance, correlation, statistics; biased and unbiased; rowwise and "
      "affinely invariant) of two one-dimensional samples, with the automatic or a fast method and the "
      "default exponent, answers with finite numbers for 100000 observations without quadratic memory "
      "or time, whatever the values (ties, sorted, constant), the number type, the memory layout and "
      "whether the samples are vectors or single columns.",
      ["inputs", "configurations"], "all pairs of one-dimensional samples of 30000..120000 observations x measures x methods",
      "Tests use at most a few thousand observations, where a fall-back to the quadratic algorithm is invisible.",
      ["_dcor.py", "_fast_dcov_avl.py", "_fast_dcov_mergesort.py", "_rowwise.py"],
      [("automatic choice of a fast method", "dcor/_dcor.py"), ("O(n log n) algorithms", "dcor/_fast_dcov_avl.py")],
      ["all dependence measures of one-dimensional samples", "rowwise"]),
    P("C23", "Concurrent calls do not interfere",
      "Calls of the public functions made at the same time in several threads, on their own or on shared "
      "samples, return what the same calls return when made alone, and leave the samples unchanged.",
      ["schedules", "inputs"], "all sets of 2..4 threads x public functions x samples x interleavings",
      "Tests are sequential; shared scratch memory or caches are only visible under particular interleavings.",
      ["_dcor.py", "_dcor_internals.py", "_fast_dcov_avl.py", "_fast_dcov_mergesort.py", "_energy.py", "_hypothesis.py", "_rowwise.py", "_partial_dcor.py"],
      [("buffers local to each call", "dcor/_fast_dcov_avl.py"), ("no module level state", "dcor/_dcor_internals.py")],
      ["every public function"]),
    P("C24", "Missing and infinite observations are never given a number",
      "When a sample contains NaN or infinite values, every covariance, correlation, statistic, energy distance, "
      "partial covariance or correlation and centred element that depends on them is not a finite number (never "
      "silently 0), and the p-value of every test is NaN; distances follow IEEE arithmetic; results that do not "
      "depend on those values (variance of the complete sample, other rows, other distances) are the usual ones. "
      "The affinely invariant correlations, which return 0 when they cannot be computed, are excepted.",
      ["inputs"], "all samples x positions and kinds of the non-finite values x functions, methods, modes, exponents",
      "The tests have no missing value; clipping, comparisons and sorting treat NaN differently at every site.",
      ["_dcor.py", "_dcor_internals.py", "_utils.py", "_fast_dcov_avl.py", "_fast_dcov_mergesort.py", "_energy.py",
       "_hypothesis.py", "_rowwise.py", "_partial_dcor.py", "distances.py"],
      [("clipping that lets NaN through", "dcor/_utils.py"), ("comparison of the denominator with zero", "dcor/_dcor.py"),
       ("p-value of a statistic that is not a number", "dcor/_hypothesis.py")],
      ["distance_covariance", "distance_correlation", "energy_distance", "partial_distance_correlation", "energy_test",
       "distance_covariance_test", "rowwise", "pairwise_distances"]),
    P("C25", "Deprecated sequences and result interfaces still work and warn",
      "Wherever samples that are not arrays (lists, tuples, other sequences of numbers, alone or mixed "
      "with arrays) are still taken (energy distance, test and statistic, pairwise distances, affinely "
      "invariant correlation, partial measures, permutation tests) the result is that of the arrays "
      "with the same values, the arguments are left unchanged, and a DeprecationWarning is emitted; "
      "there is none for arrays. Results of tests can still be unpacked as (p-value, statistic), have "
      "length 2 and a p_value, each with a DeprecationWarning.",
      ["inputs"], "kinds of sequences x functions x options",
      "No test passes sequences or unpacks the result of a test.",
      ["_utils.py", "_hypothesis.py", "_energy.py", "homogeneity.py", "independence.py", "_partial_dcor.py", "distances.py"],
      [("fallback of array_namespace", "dcor/_utils.py"), ("old interface of the results", "dcor/_hypothesis.py")],
      ["energy_distance", "energy_test", "distance_covariance_test", "HypothesisTest"]),
]

TECH = {
    "C24": "property-based testing with injected non-finite values (propagation oracle)",
    "C22": "property-based testing under memory and processor time limits",
    "C23": "property-based testing of concurrent schedules (differential against sequential calls)",
    "C05": "property-based testing against a reference model, element by element",
    "C06": "property-based metamorphic testing",
    "C12": "property-based testing with injected/recorded permutations against an exact count; statistical frequency leg",
    "C13": "property-based testing of histories, seeds and parallel schedules (differential)",
    "C17": "stateful (history) property-based testing against a model",
    "C20": "property-based testing of invalid requests (refusal oracle)",
    "C25": "property-based differential testing (sequences against arrays)",
    "C21": "property-based metamorphic testing with constructed zero cases",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 run.py {i}",
            thorough_cmd=f"python3 run.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH.get(i, "property-based testing (Hypothesis) against a long double reference model"),
            level="exploration",
            level_note="Generated-input search with shrinking; no violation among the generated "
                       "cases (see the evidence). Trusts NumPy long double arithmetic, the reference "
                       "formulas in vp/oracle.py and the stated rounding tolerances."))
    manifest = dict(
        version=1,
        setup_cmd="python3 run.py --selftest",
        checks=checks,
        not_applicable=[],
        notes="No hooks. Every check imports dcor from /repo's working tree with private, fresh "
              "numba and byte-code caches. Fixes of genuine defects: known-findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


main()
