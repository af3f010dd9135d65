"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [],
                    "hook_needed": hook}})


MK = "giddy/markov.py"
ER = "giddy/ergodic.py"
RK = "giddy/rank.py"

p("C01", "Markov transition counts tally exactly the observed moves",
  "For any panel of class labels (integers, strings, floats, booleans; any numbers of units, periods and classes), the Markov transition count from class i to class j is exactly the number of (unit, period) pairs in which the unit is in i in that period and in j in the next one, so all counts add up to units x (periods - 1). Rows and columns follow the sorted observed labels, or the explicitly given class list in the given order, where a class that never occurs has a zero row and column and a label outside the list is refused. The result does not depend on the order of the units or on how the panel is stored, and the panel is left unmodified.",
  ["inputs", "configurations"], "all class panels, label encodings, class lists and storage layouts",
  "The tests count transitions for one 48x81 income panel (integer quintiles); rare label types, unsorted or superset class lists, single units/periods and ties are never sampled.",
  [MK], [("Markov.__init__ counting loop", MK)], [{"name": "transitions", "meaning": "k x k counts", "where": MK}],
  ["Markov(...).transitions", "Markov(...).classes", "Markov(...).k"])

p("C02", "Transition probabilities are row-normalised counts, with exact staying at 1",
  "Each row of an estimated transition probability matrix (classic, spatial-conditional, or rank based) is the row of counts divided by its total, so it sums to 1; a state that is never left has a staying probability of exactly 1, however many times it was observed. A state without any observed departure has an all-zero row unless filling of empty classes is requested, in which case its staying probability (and nothing else) becomes 1. The filling helper does the same for two- and three-dimensional inputs, returns every other row unchanged and leaves its argument unmodified.",
  ["inputs", "configurations"], "all transition count patterns and magnitudes, fill option on and off, 2-d and 3-d inputs",
  "Tests sample one income panel; exactness of 1 depends on the count magnitude (1/49*49 != 1 in floating point), which no test reaches.",
  [MK, "giddy/util.py"], [("Markov.__init__ normalisation", MK), ("Spatial_Markov._calc", MK), ("fill_empty_diagonals", "giddy/util.py")],
  None, ["Markov.p", "Spatial_Markov.P", "fill_empty_diagonals(...)"])

p("C03", "Communicating, recurrent, transient and absorbing states match the graph",
  "For any estimated chain the reported communicating classes are exactly the strongly connected components of the positive-probability graph (a state without observed departures counts as absorbing), the recurrent classes are exactly those that cannot be left, the transient classes are exactly the others, and the absorbing states are exactly those with staying probability 1. The reported numbers of classes and absorbing states agree with the reported lists, each list is a partition of the right states, and the printed summary states the same irreducibility, numbers and states.",
  ["inputs"], "all directed graphs of possible transitions on the states, all count magnitudes",
  "There are 2^(k*k) graphs; tests and doctests check the summary of three chains and never the index lists.",
  [MK], [("Markov.__init__ classification and summary", MK)], None,
  ["Markov.num_cclasses", "Markov.cclasses_indices", "Markov.num_rclasses", "Markov.rclasses_indices", "Markov.num_tclasses", "Markov.tclasses_indices", "Markov.num_astates", "Markov.astates_indices", "stdout of Markov(summary=True)"])

p("C04", "Steady states are the stationary distributions, one per recurrent class",
  "For every stochastic matrix, irreducible (periodic included) or reducible, the reported steady state consists of exactly one probability distribution per recurrent class, each invariant under the matrix, positive exactly on its own recurrent class and zero elsewhere; with a single recurrent class it is one vector of length k, otherwise one row per recurrent class. A matrix with all-zero rows is refused unless filling is requested, and then gives the result for the matrix with those states made absorbing. A Markov object reports the same distribution as the function applied to its (filled) probabilities, and the input matrix is left unmodified.",
  ["inputs", "configurations"], "all stochastic matrices over a grid of probabilities, including reducible, periodic and zero-row ones, integer or float",
  "Tests sample four matrices; the reducible / periodic / zero-row / integer combinations are not covered.",
  [ER, MK], [("steady_state", ER), ("Markov.steady_state", MK)], None, ["steady_state(P)", "Markov(...).steady_state"])

p("C05", "Mean first passage times solve the first-step equations",
  "For every stochastic matrix, the mean first passage time from i to j is the expected number of steps (at least one) until a chain started in i first enters j: it is finite exactly when j is reached from i with probability one, satisfies the first-step equations there, and is infinite everywhere else; the diagonal is the mean recurrence time. Rows of zeros are refused unless filling is requested, integer and float matrices give the same answer, the call never fails on a valid stochastic matrix, and deprecated aliases return the same values. A Markov object reports the same matrix for its (filled) probabilities.",
  ["inputs", "configurations"], "all stochastic matrices over a grid, every graph structure (several closed classes, transient parts, periodic), integer and float",
  "Tests use three 3x3 matrices plus the income chain; which entries are infinite depends on the graph structure and on floating-point singularity, which sampling a few matrices cannot settle.",
  [ER, MK], [("mfpt", ER), ("_mfpt_ergodic", ER), ("Markov.mfpt", MK)], None, ["mfpt(P)", "fmpt(P)", "Markov(...).mfpt"])

p("C06", "First passage time variances match the second-moment equations",
  "For every irreducible stochastic matrix, periodic ones included, the reported variance for (i, j) equals the variance of the number of steps a chain started in i needs to first enter j (the recurrence time variance for i = j). It is never negative beyond rounding, is the same for integer and float matrices and for the deprecated alias, and the input is left unmodified.",
  ["inputs"], "all irreducible stochastic matrices over a probability grid",
  "Tests check one 3x3 matrix.",
  [ER], [("var_mfpt_ergodic", ER)], None, ["var_mfpt_ergodic(P)", "var_fmpt_ergodic(P)"])

p("C07", "Sojourn times and conditional mobility follow the staying probabilities",
  "For every transition probability matrix the sojourn time of a state is 1/(1 - staying probability), infinite exactly for absorbing states and for states without any departure, whatever the number and position of such states and whether or not the informational message is requested. The conditional (Prais) mobility of a state is exactly one minus its staying probability. Neither modifies the matrix, and a Markov object reports the same sojourn times for its own probabilities.",
  ["inputs", "configurations"], "all stochastic matrices over a grid with any pattern of absorbing and empty rows",
  "Tests sample three chains; combinations of absorbing and empty rows are not enumerated.",
  [MK], [("sojourn_time", MK), ("prais", MK)], None, ["sojourn_time(p)", "Markov.sojourn_time", "prais(p)"])

p("C08", "Mobility indices equal their defining formulas",
  "For every transition probability matrix with at least two states, each of the five mobility indices equals its documented formula (trace, determinant, modulus of the second largest eigenvalue, and the two initial-distribution weighted indices). When no initial distribution is given the last two use the uniform one, and a given distribution is used as given. Inputs may be arrays or nested lists and are left unmodified.",
  ["inputs", "configurations"], "all stochastic matrices over a grid x the five measures x initial distributions",
  "Tests evaluate one 5x5 matrix and one initial distribution; matrices with complex or negative eigenvalues, negative determinants or default initial distributions are never evaluated.",
  ["giddy/mobility.py"], [("markov_mobility", "giddy/mobility.py")], None, ["markov_mobility(p, measure, ini)"])

p("C09", "Spatial Markov counts each transition once, under its lag class at the start",
  "In a Spatial Markov analysis every (unit, period) transition is counted in exactly one conditional matrix: that of the unit's spatial-lag class in the starting period, so the conditional counts add up to the overall transition counts. Continuous values and lags are classed by right-closed intervals between the given cutoffs, or between pooled quantiles, or between per-period quantiles when discretisation is not fixed; with categorical data the lag class is the weighted most common neighbour category, ties first broken by the unit's own category. Reported class ids, lag class ids, cutoffs and numbers of classes are those actually used, any mix of numbers of value and lag classes is accepted, and inputs are left unmodified.",
  ["inputs", "configurations"], "all small panels x neighbour graphs x classification options",
  "Tests use one income panel with k = m and one categorical series; unequal k and m, ties, cutoff-boundary values and per-period quantiles are not enumerated.",
  [MK], [("Spatial_Markov.__init__/_calc/_maybe_classify", MK)], None, ["Spatial_Markov.T/.transitions/.class_ids/.lclass_ids/.cutoffs/.lag_cutoffs/.k/.m"])

p("C10", "Spatial Markov derived results agree with its conditional counts",
  "Every derived result of a Spatial Markov analysis is the documented function of its own counts: conditional and overall steady states and first passage times are those of the respective probability matrices, one entry per lag class whatever mix of ergodic and reducible chains occurs; the chi-square entries compare each conditional count matrix with the overall one, their sum is the joint statistic with its degrees of freedom and p-value, and the homogeneity results (Q, LR, p-values, degrees of freedom) are those of the homogeneity test applied to the conditional counts. The steady-state test entries are the multinomial statistics comparing conditional with overall steady states.",
  ["inputs", "histories", "configurations"], "all small panels and neighbour graphs, every derived attribute, every access order",
  "Tests evaluate S, one F, chi2 and shtest of a single data set and never Q/LR/x2 or reducible mixtures.",
  [MK], [("Spatial_Markov properties s,S,f,F,ht,Q,LR,chi2,x2,shtest", MK)], None, ["Spatial_Markov.*"])

p("C11", "Spatial Markov permutation inference follows the permutation null",
  "With random permutations requested, each reported realisation is the joint statistic (summed over all lag classes) of the data with spatial lags recomputed after one random relabelling of the units and own transitions kept (permuted lags are classed with the observed cut-offs when discretisation is fixed, by per-period quantiles otherwise), so that under uniformly random permutations the realisations follow the exact permutation distribution, for continuous and categorical data and any numbers of value and lag classes. The pseudo p-value is (1 + number of realisations at least as large as the observed statistic) / (1 + permutations). Requesting permutations never changes any observed result (counts, classes, lag classes, cutoffs, statistics).",
  ["inputs", "schedules", "configurations"], "every answer the random generator can give (all permutations), all small panels, all option mixes",
  "No test requests permutations in Spatial_Markov at all; a seeded run would show one random path only.",
  [MK], [("Spatial_Markov.__init__ permutation loop", MK)], None, ["Spatial_Markov.x2_realizations/.x2_rpvalue/.lclass_ids/..."])

p("C12", "Markov homogeneity statistics equal their definitions",
  "For any set of transition count matrices with equal shape (integer or float counts, arrays or nested lists), the homogeneity test pools them exactly, and its Q and likelihood-ratio statistics equal the Pearson and log-likelihood comparisons of every regime's probabilities with the pooled ones over possible transitions. Degrees of freedom are the sum over classes that occur at all of (number of regimes with departures - 1) x (number of reached classes - 1), and the p-values are the chi-square upper tails of the statistics. Identical transition probabilities in all regimes give zero statistics, and reordering regimes or consistently relabelling classes changes nothing.",
  ["inputs"], "all tuples of small count matrices, including empty rows, columns and regimes",
  "No test evaluates homogeneity directly; zero rows/cells and integer inputs are never sampled.",
  [MK], [("Homogeneity_Results._homogeneity", MK)], None, ["homogeneity(...).Q/.LR/.dof/.Q_p_value/.LR_p_value/.p_h0/.p_h1"])

p("C13", "Chi-square and Kullback tests of transition matrices match their definitions",
  "The chi-square comparison of two transition count matrices equals the sum over cells of (observed - expected)^2 / expected, where expected counts distribute the first matrix's row totals over the second's row probabilities, with degrees of freedom (occupied rows of the first - 1)(occupied rows of the second - 1) and the matching upper-tail p-value. Kullback's conditional homogeneity statistic equals twice the information divergence of the strata from a common conditional transition matrix, with r(s-1)(r-1) degrees of freedom: it is never negative, zero when all strata have equal transition probabilities, and unchanged when strata are reordered or classes consistently relabelled. Zero cells and rows contribute nothing.",
  ["inputs"], "all pairs / tuples of small count matrices including zero cells and rows",
  "Tests check one table whose row and column margins happen to coincide, and one income data set.",
  [MK], [("chi2", MK), ("kullback", MK)], None, ["chi2(T1, T2)", "kullback(F)"])

p("C14", "Homogeneity report prints all regimes and the computed numbers",
  "The printed homogeneity report, and the LaTeX table when a file name is given, can be produced for any number of regimes and classes, with or without names and title, and for a Spatial Markov analysis with any numbers of value and lag classes. It shows the given title, the numbers of classes, regimes and transitions, the computed statistics, degrees of freedom and p-values, and the pooled and every single regime's probability matrix under the right regime and class names. Producing it does not change the results, and it can be produced repeatedly.",
  ["inputs", "configurations"], "all shapes (regimes x classes) and naming options, Spatial Markov reports for all k and m",
  "No test produces the report.",
  [MK], [("Homogeneity_Results.summary", MK), ("Spatial_Markov.summary", MK)], None, ["stdout of summary()", "the .tex file"])

p("C15", "LISA Markov codes quadrants, moves and significance as documented",
  "A LISA Markov analysis places every unit and period in the quadrant given by the signs of its deviation from the period mean and of its row-standardised neighbours' average deviation, in the default or the GeoDa numbering, and its transition counts over the four quadrants tally the quadrant changes even if some quadrant never occurs. The move type is 4 x (origin - 1) + destination; the significance-coded move adds 0, 16, 32 or 48 for (significant, significant), (significant, not), (not, significant), (not, not), where an end point is significant when its p-value does not exceed the given level. The two numbering schemes differ only by exchanging labels 2 and 3.",
  ["inputs", "configurations"], "all quadrant and p-value histories, all small panels and graphs, both numbering schemes, significance levels",
  "Tests check one panel's counts and six move codes; there are 64 move codes and both numbering schemes.",
  [MK], [("LISA_Markov.__init__", MK), ("TT / MOVE_TYPES tables", MK)], None, ["LISA_Markov.q/.transitions/.move_types/.significant_moves/.p_values"])

p("C16", "LISA Markov independence test uses the product of the marginal chains",
  "The expected LISA transition counts distribute the observed departures of each quadrant over the product of the two marginal two-state chains over time (own value below or not below average, neighbours' value below or not below average). The reported statistic is the chi-square comparison of observed with expected counts with its degrees of freedom. The test does not depend on the quadrant numbering scheme, and it is available for every panel, including panels in which some marginal state never occurs.",
  ["inputs", "configurations"], "all small panels and graphs, both numbering schemes",
  "Tests check one panel in one numbering scheme.",
  [MK], [("LISA_Markov.__init__ expected_t / chi_2", MK)], None, ["LISA_Markov.expected_t/.chi_2"])

p("C17", "LISA spillover finds exactly the units that join a pre-existing cluster",
  "For every period (the last included), clusters are the connected groups formed by significant core units of the chosen quadrant together with their neighbours (and, if requested, their neighbours' neighbours; a core unit without neighbours forms no cluster), and every unit carries the id of its cluster, zero outside all clusters. A unit is a spill-over between two periods exactly when it was in no cluster in the first and in the second belongs to a cluster that contains at least one unit which was in a cluster before. The outcome does not depend on how units are named or ordered in the weights, works for clusters of any size, and is only available when significance was simulated.",
  ["inputs", "histories", "configurations"], "all small graphs x all core sets over time x options x unit namings",
  "The doctest checks three column sums of one data set.",
  [MK, "giddy/components.py"], [("LISA_Markov.spillover", MK), ("Graph.connected_components", "giddy/components.py")], None, ["LISA_Markov.spillover(...)"])

p("C18", "Rank Markov chains use distinct ranks in order of value and occurrence",
  "In full-rank Markov analysis every period assigns the ranks 1 (largest) to n without repetition, values that are equal being ranked so that the one occurring first gets the larger rank number; transition counts tally unit moves between ranks. In geographic-rank Markov analysis the states are the units, and counts tally which unit holds a given rank position next after which unit, position by position from smallest to largest with ties in order of occurrence. In both, the counts of every row add up to the number of periods minus one where the state is occupied each period, and inputs are left unmodified.",
  ["inputs"], "all small real-valued panels including ties",
  "Tests check one panel without ties.",
  [MK], [("FullRank_Markov.__init__", MK), ("GeoRank_Markov.__init__", MK)], None, ["FullRank_Markov.ranks/.transitions", "GeoRank_Markov.transitions"])

p("C19", "Kendall's tau counts concordant, discordant and tied pairs exactly",
  "For every pair of equally long variables, the reported numbers of concordant pairs, discordant pairs, pairs tied only in the first and pairs tied only in the second variable are exactly those obtained by examining all pairs of observations. Tau is concordant minus discordant over the geometric mean of the pairs untied in each variable (tau-b; classic tau without ties), and the p-value is the two-sided normal tail for the documented null variance. The result is symmetric in the two variables and independent of the order of the observations.",
  ["inputs"], "all value patterns (ties included) of small length and structured patterns of larger length",
  "Tests check two tied examples; the tree algorithm's behaviour depends on the full weak order of both variables.",
  [RK], [("Tau._calc", RK)], None, ["Tau(x, y).concordant/.discordant/.extraX/.extraY/.tau/.tau_p"])

p("C20", "Spatial and local taus decompose pairwise concordance over the neighbour graph",
  "For every symmetric neighbour graph without isolated units, spatial tau counts concordant and discordant pairs over exactly the neighbouring pairs and is their tau-b; the local tau of a unit is its average concordance sign with all other units, their mean is the overall (tau-a) value, the neighbour-set value is the average sign over its neighbours, the neighbourhood-set value the average over all pairs within the unit and its neighbours. The reported neighbour-set weights make the weighted sum of neighbour-set values equal the average sign over all neighbouring pairs, and the reported sign is -1 exactly for negative values.",
  ["inputs"], "all small graphs x all value patterns",
  "Tests check spatial tau on one graph; the local variants are only doctested on one data set.",
  [RK], [("SpatialTau._calc", RK), ("Tau_Local", RK), ("Tau_Local_Neighbor._calc", RK), ("Tau_Local_Neighborhood", RK)], None, ["SpatialTau", "Tau_Local", "Tau_Local_Neighbor", "Tau_Local_Neighborhood"])

p("C21", "Regional tau decomposes concordance within and between regimes",
  "For every assignment of units to regimes (any labels, any order, list or array), the regional tau matrix holds, for each pair of regimes in sorted label order, the average concordance sign over pairs of distinct units with one in each regime, and on the diagonal the average over pairs within the regime (undefined for a one-unit regime). It is symmetric, lies in [-1, 1], and its pair-count weighted average is the overall tau.",
  ["inputs"], "all small value patterns x all partitions into regimes x label types",
  "One doctest with seven regimes; no unit test.",
  [RK], [("Tau_Regional._calc", RK)], None, ["Tau_Regional.tau_reg/.S"])

p("C22", "Theta measures net regime rank moves over total rank moves",
  "For every panel and regime assignment, theta for an interval is the sum over regimes of the absolute net rank change (ranks within each period, ties sharing the average rank) divided by the total absolute rank change; the reported total is that denominator and never exceeds the reported theoretical maximum. Theta lies in [0, 1], is 1 when every unit is its own regime and 0 when there is only one regime, and does not depend on regime labels or on the order of units. Intervals are evaluated independently of each other.",
  ["inputs"], "all small panels x all regime partitions",
  "One seeded data set.",
  [RK], [("Theta._calc", RK)], None, ["Theta.theta/.total/.max_total/.ranks"])

p("C23", "Rank statistics depend only on the order of values and on the graph",
  "All rank mobility statistics (tau, spatial, local, neighbour-set, neighbourhood-set, regional tau, theta) depend on the data only through the order of the values: any strictly increasing recoding of either variable, including to large or tiny magnitudes, negative values, narrow or unsigned integer storage, or plain lists where arrays are accepted, leaves them unchanged. They depend on the weights only through the neighbour graph: renaming units (to strings, to other integers), changing the unit order of weights and data together, or using binary instead of row-standardised weights changes nothing but the corresponding order of per-unit results.",
  ["inputs", "configurations"], "all small value patterns x recodings/storage types x unit namings, orders and weight transforms",
  "Tests use float data, integer unit ids 0..n-1 in order only.",
  [RK], [("SpatialTau._calc", RK), ("Tau_Local", RK), ("Tau_Local_Neighbor", RK), ("Tau_Local_Neighborhood", RK)], None, ["all classes of giddy.rank"])

p("C24", "Permutation inference of rank statistics follows the exact permutation null",
  "When permutations are requested, every simulated value of a rank mobility statistic is the statistic of the data under one random rearrangement (regime labels for theta; units jointly in both periods for spatial and regional tau; all other units jointly with the focal unit fixed for the neighbour-set and neighbourhood-set values), so that under uniformly random permutations simulated values follow the exact permutation distribution. The pseudo p-values are the documented rank of the observed value among the simulated ones. Observed statistics are the same with and without permutations, and data with different storage types in the two periods are handled alike.",
  ["inputs", "schedules"], "every sequence of permutations the generator can return x small data sets",
  "Seeded runs of two classes on one data set show one random path each.",
  [RK], [("Theta permutations", RK), ("SpatialTau permutations / pseudop", RK), ("Tau_Local_Neighbor permutations", RK), ("Tau_Local_Neighborhood permutations", RK), ("Tau_Regional permutations", RK)], None,
  ["taus, tau_spatial_psim, tau_ln_sim, tau_ln_pvalues, tau_lnhood_sim, tau_lnhood_pvalues, tau_reg_sim, tau_reg_pvalues, sim, pvalue_left, pvalue_right"])

p("C25", "Optimal matching distances are minimal alignment costs",
  "For every collection of sequences, of equal or varying lengths, with any number of distinct elements, and any non-negative symmetric hollow substitution cost matrix and indel cost, the reported distance between two sequences is the minimal total cost of turning one into the other by substitutions, insertions and deletions. The distance matrix is symmetric with a zero diagonal, identical sequences have identical rows, and the distance between two sequences does not depend on which other sequences (without new elements) are analysed, on duplicates, or on their order.",
  ["inputs", "configurations"], "all sequence collections over small alphabets, all small cost settings, large alphabets",
  "Tests check a handful of sequences with at most five classes.",
  ["giddy/sequence.py"], [("Sequence._om_pair_dist", "giddy/sequence.py"), ("Sequence._om_dist", "giddy/sequence.py")], None, ["Sequence.seq_dis_mat"])

p("C26", "Preset sequence distances use the documented costs",
  "The interval, arbitrary and Markov presets give the minimal alignment cost under, respectively, class-order differences with indel k - 1, constant substitution 0.5 with indel 1, and substitution cost one minus the average of the two estimated transition probabilities with indel 1; the Hamming preset counts differing positions; the transition-oriented preset aligns the sequences of transitions with unit cost between first elements, cost 1 between a change and a non-change and 0 otherwise for later ones, and indel 2. Reported classes, cost matrices and indel are those used; unequal lengths are refused for Hamming, and missing cost information is refused. Preset names are accepted in any letter case.",
  ["inputs", "configurations"], "all small collections of sequences x presets",
  "Each preset is checked on one collection.",
  ["giddy/sequence.py"], [("Sequence.__init__", "giddy/sequence.py")], None, ["Sequence.subs_mat/.indel/.classes/.seq_dis_mat"])

p("C27", "Rose places every movement vector in exactly one of k equal sectors",
  "For every pair of periods, weights and any number k >= 1 of sectors, the cut points are k + 1 equally spaced angles from 0 to a full turn and every unit's movement vector (own change, spatial-lag change) is counted in exactly one sector, namely the one containing its angle, so the k sector counts add up to n. Vector lengths and signed angles are the Euclidean length and the angle of the vector, and the reported lag is the spatial lag of both periods under the weights as given. Inputs are left unmodified.",
  ["inputs", "configurations"], "all vectors on a grid x all k up to a bound x weights",
  "Tests check k=4 on one data set.",
  ["giddy/directional.py"], [("Rose.__init__/_calc", "giddy/directional.py")], None, ["Rose.cuts/.counts/.theta/.r/.lag"])

p("C28", "Rose permutation p-values follow the permutation null and stated alternative",
  "After requesting permutations, each row of simulated counts is the sector histogram of the movement vectors after one random rearrangement of the units' value pairs, so that under uniformly random permutations it follows the exact permutation distribution; the expected counts are their mean, and the larger/smaller tallies count simulated values at least / at most the observed. P-values follow the documented rule for each documented alternative (two-sided in either spelling, positive, negative with co-movement sectors being the quadrants I and III; for four and eight sectors), each alternative accepted in any letter case. Repeating the call only replaces the inference results.",
  ["inputs", "schedules", "histories"], "every permutation the generator can return x small data sets x alternatives x call sequences",
  "One seeded doctest; no unit test of permute.",
  ["giddy/directional.py"], [("Rose.permute", "giddy/directional.py")], None, ["Rose.counts_perm/.expected_perm/.larger_perm/.smaller_perm/.p"])

p("C29", "Results never depend on what was computed before",
  "In any sequence of operations on analysis objects - reading results in any order and repeatedly, requesting permutations, cluster spill-overs, reports or plots, and running further analyses with the same data and weights objects - every result equals the one obtained from a fresh object, and results obtained earlier keep their values. Data arrays passed in keep their contents, and a weights object keeps its neighbours, its order and its transformation, whichever analyses it is passed to.",
  ["histories"], "all operation sequences up to a depth bound over all analyses",
  "Tests never use one object or weights for a second operation and compare.",
  [MK, RK, "giddy/directional.py", "giddy/plotting.py"], [("cached properties of Markov / Spatial_Markov", MK), ("Rose.permute/_calc attribute writes", "giddy/directional.py"), ("w.transform assignments", RK), ("_moran_loc_from_rose_calc", "giddy/plotting.py")], None,
  ["every public attribute before/after each operation"])

p("C30", "Contiguity checks decide connectedness of unit subsets exactly",
  "For every symmetric neighbour graph and every subset of its units, the contiguity check with a leaving unit answers true exactly when the remaining units of the subset form a single connected group using only links within the subset (a remainder of at most one unit is connected). The answer is independent of the order in which the units are listed and of their names, holds for subsets of any size, and neither the list of units nor the weights are modified.",
  ["inputs"], "all graphs up to a size x all subsets x leavers x listing orders",
  "The doctest samples one lattice and four leavers.",
  ["giddy/components.py"], [("is_component", "giddy/components.py"), ("check_contiguity", "giddy/components.py")], None, ["check_contiguity(w, neighbors, leaver)"])

p("C31", "Dynamic LISA plots show the data and leave global settings alone",
  "The dynamic LISA heatmap shows in the cell labelled with start class A and end class B (not significant, HH, LH, LL or HL) exactly the number of units that were in A at the start and in B at the end, a class counting as significant when its simulated p-value is below the threshold; the rose plot shows each unit at its angle and length and the vector plot draws each unit from (value, lag) at the start to (value, lag) at the end. The composite shows the heatmap, the cluster maps of the start and of the end, and the rose plot of the same data, and the interactive explorer offers every ordered pair of the matching columns and shows the chosen ones; the plot from a common origin draws every movement. Plotting into a given axes draws there. Whether a plot succeeds or is refused, plotting style settings and the random generator's state are as before.",
  ["inputs", "histories", "configurations"], "all small combinations of start/end classes and significance, all plot calls including refused ones",
  "Tests only check that plots are produced.",
  ["giddy/plotting.py"], [("_dynamic_lisa_heatmap(_data)", "giddy/plotting.py"), ("dynamic_lisa_rose", "giddy/plotting.py"), ("dynamic_lisa_vectors", "giddy/plotting.py")], None, ["axes artists", "matplotlib.rcParams", "numpy random state"])

p("C32", "Inference is reproducible and only permutation requests use randomness",
  "Every analysis run twice from the same random seed gives identical results, including simulated values, p-values and cluster numbers, in whatever interpreter session it runs; no analysis re-seeds the generator. Analyses without a permutation request neither draw from nor change numpy's random state and give the same result whatever that state is, except for the documented random resolution of remaining ties in categorical spatial lags. The matrix shuffling helper returns the matrix with one common permutation applied to rows and columns, every permutation being reachable, and the lower-triangle helper returns exactly the strict lower triangle row by row.",
  ["histories", "inputs", "configurations"], "all analyses x seeds x generator states; all permutations of small matrices",
  "Tests seed once and compare one number.",
  [MK, RK, "giddy/directional.py", "giddy/util.py"], [("np.random use in permutation loops", RK), ("shuffle_matrix / get_lower", "giddy/util.py")], None, ["numpy.random.get_state()", "all results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
print(len(P))
