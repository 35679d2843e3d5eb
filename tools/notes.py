"""Technique and level note of each check (property -> (technique, note))."""
REPLAY = "TLA+ state machine explored by TLC; one replayed test per transition; validation of recorded traces by TLC"
TRACE = "TLA+ trace specification; every recorded event of the real code validated by TLC"
GENTRACE = "Behaviours enumerated by TLC run in the real code, every step validated by TLC against the TLA+ specification"
NOTES = {
 "C01": (REPLAY, "Exhaustive for every history of node insertions, edge insertions and resets of up to 4 nodes (self loops up to 3); each transition of the state graph is replayed into CtbnNetwork and all parent/child sets compared. Beyond that, random histories with up to 16 nodes, hub networks, structures given by the graph generator and the learners, and up to 65,536 insertions of one edge are validated against the same state machine. Queries on a network whose structure does not exist yet are left open (the library panics)."),
 "C02": (REPLAY, "Exhaustive for every history over 2 nodes with all three kinds of parameters and 3 nodes with intensities; the invariant ParamsFresh is checked on every state of the model and the code must hold exactly the parameters the model holds after each transition. Larger networks by validating random histories."),
 "C03": ("TLA+ definition of the index checked exhaustively by TLC; validation of recorded index queries", "Bijection, inverse and locality of the specified index are model-checked for all networks of up to 3 nodes with cardinalities up to 4 (thorough: 4 nodes); recorded queries on random networks (up to 12 nodes, cardinalities up to 12, parents on both sides of the child) must equal it, for every configuration where at most 600; index spaces up to 2^40 by remainders modulo three primes."),
 "C04": ("Arrays enumerated by TLC with the verdict of the TLA+ specification, replayed into both setters; " + TRACE, "Every array over a grid of entries around the tolerance (2 and 3 states, up to 2 configurations, wrong shapes) plus random sequences of set/unchecked/reset/validate with up to 6 states; sums within a factor of two of the tolerance may go either way."),
 "C05": ("TLA+ definition of the joint generator model-checked against its own laws; " + TRACE, "The specified generator is checked to be a generator with the right non-zero pattern on all small networks; every entry of the amalgamated matrix of random networks (up to 7 nodes, a few hundred joint states, self edges, rows closing only within the tolerance) must equal it exactly (dyadic intensities from 2^-60 to 2^30)."),
 "C06": ("TLA+ race automaton of the sampler explored by TLC; " + TRACE, "Every sample of every recorded trajectory is one step of the automaton (times in exact order, one variable changed, inside the domain), again after every reset; every row of every dataset likewise, with start, end and closing row; the number of recorded transitions (up to 70,000 in one trajectory) follows the law of the process; units of time from 2^-45 to 2^60."),
 "C07": ("TLA+ race automaton of the sampler explored by TLC; " + TRACE, "Each sampled move must have a positive intensity under the parents' configuration; completeness (every positive entry is eventually sampled) is decided on long runs and on direct draws with a bound on the probability of a false alarm below 1e-9. One known finding (CTMP sampling)."),
 "C08": ("TLA+ race automaton of the sampler explored by TLC; counts recorded from long runs judged by TLC against the specified rates", "The law of holding times and of the next transition is tested per joint state and last mover with exact expectations computed in TLA+ from the intensities and bounds of 6.5 standard deviations, as are deciles of the stays and the independence of stays, destinations and successive trajectories, so a change of a few percent in a rate is detected and false alarms are negligible; with rates 2^70 apart the next transition is decided outright."),
 "C09": (GENTRACE, "All interleavings of creation, use and reset of up to 3 components of one kind up to 6 operations (sampled in quick), each executed in order, with one thread per component and in a second process; outputs (digests of every returned bit) must be equal exactly where kind, input, seed and own history are equal. Seeds include 0, 1, maxima and pairs equal in one half of their bits; some four thousand seeds per kind must give pairwise different results, and the random values behind groups of uses must be disjoint. The second process logs everything."),
 "C10": (TRACE, "Every generated graph must be simple and replace the old one, densities 0 and 1 exact; counts of single pairs, of all pairs together and of whole graphs on three nodes, and of any two edges of one graph or of successive graphs (70 nodes), are judged against the density within 6.5 standard deviations (densities down to 1/250)."),
 "C11": (TRACE, "Number of configurations, validity, sign and interval of every generated array; spread of the exit intensities over the interval by counts per part of it. Cardinalities up to 11, graphs of up to 20 nodes, intervals from 1e-20 to 1e4 and very narrow ones, CTBN and CTMP."),
 "C12": (GENTRACE, "All datasets of up to 2 trajectories and 3 rows over small networks, with every node and parent set; random datasets of up to 6 variables (also 70 variables, hundreds of thousands of rows, repeated instants, several memory layouts). Counts and times are compared exactly (times on a dyadic grid)."),
 "C13": (GENTRACE, "Same datasets; each estimate is multiplied out in 4-limb fixed-point arithmetic inside TLA+ (1e-9 relative), for MLE and for the Bayesian estimate with several alpha and tau."),
 "C14": (GENTRACE + "; fixed-point logarithm model-checked against integer brackets", "Same datasets; ln Gamma is summed from a table of logarithms in TLA+ to 2e-5 absolute, for alpha 1..100 and several tau, up to 256 configurations; BIC and log-likelihood."),
 "C15": (GENTRACE, "All rankings of the parent sets of one node among 2 and 3 nodes with every maximum (thorough: also a sample for 4 nodes); random rankings of up to 6 nodes (neighbouring floats, denormals, huge scores), up to 70 nodes by weights, and the real scores on sampled data. With ties only feasibility and not-worse-than-empty are required."),
 "C16": (GENTRACE, "All sets of dependent (candidate, separating set) pairs for 2 and 3 nodes realised through an oracle for the statistics; random oracles for up to 5 nodes, deciding separating sets of up to 7 variables, networks of up to 70 nodes, and MLE on data. The table of test outcomes is measured through the public tests, the result must be what the specified elimination gives."),
 "C17": ("TLA+ definition of both tests in fixed-point arithmetic with tabulated quantiles; " + TRACE, "Matrices with up to 12 states, zero cells and rows, five significance levels, all positions of the candidate; verdicts closer than 1e-6 to the quantile may go either way. The pairing of configurations is model-checked on all networks of 4 nodes. Two known findings (rows and cells without observations)."),
 "C18": ("TLA+ model of the two-generation cache model-checked for transparency; " + GENTRACE, "All sequences of 3 requests (thorough 4) over 2-3 nodes and 6 parent sets, random sequences of 60 requests over 7 nodes, networks of 70 nodes and parent sets of 20, tests with used and fresh caches, and fits on data."),
 "C19": (REPLAY, "All sequences of writes to the reward tables and calls over small networks; random networks of up to 6 nodes (also 270 nodes, 290 states, whole tables set at once). Rewards are integers, so the comparison is exact."),
 "C20": (TRACE, "Identities that hold for every path (constant reward, potential differences, linearity in the reward, deterministic limits) are checked to rounding for both criteria; expected values of small processes with known solution (exponential, Bellman recursion) within about seven standard errors; the moment at which averaging ends is recomputed from the single trajectories."),
 "C21": (TRACE, "Every key of the returned map and its value against evaluating the state alone with the same seed; the neighbourhood maximum recomputed in TLA+ from the values of all states."),
 "C22": (GENTRACE, "All sequences of up to 5 operations (thorough 6) on a CTMP including every refused one; random longer sequences."),
 "C23": (GENTRACE, "All inputs of small domains: lengths up to 5, datasets of up to 5 trajectories, named floating-point numbers around every bound, learners with 1-4 nodes against 1-5 variables, nodes without intensities in five histories."),
 "C24": ("TLA+ model of workers, nodes and publication checked by TLC (safety and termination); runs with 1-24 workers and random delays validated by TLC", "Schedules of the real code are provoked by pools of 1 to 24 threads and random delays inside the score, fit and reward callbacks (not enumerated), and with the real scores, tests and estimators on sampled data; results must equal the sequential run and node-by-node runs bit for bit."),
}
