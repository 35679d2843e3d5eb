#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Parent and child queries reflect exactly the recorded edges",
  "After any history of node insertions, edge insertions and structure resets of a CTBN, the parent set and the child set of every node contain exactly the edges inserted since the last structure reset (inserting a node also resets the structure), so p is reported as a parent of c if and only if c is reported as a child of p. Nodes are numbered consecutively in insertion order, and no later operation changes a node's number, label or cardinality.",
  ["histories"], "every sequence of add-node, add-edge (including repeated edges and self edges), re-initialise and parameter operations, on networks of any size",
  "The tests build four fixed networks with one or two edges; they never interleave insertions with resets, and never compare the two directions on a whole graph.",
  ["src/process/ctbn.rs", "src/process.rs"],
  [("adjacency matrix written by add_edge and cleared by add_node / initialize_adj_matrix", "src/process/ctbn.rs"), ("row / column scans", "get_children_set, get_parent_set")],
  [("adj_matrix", "directed edges, or not initialised", "CtbnNetwork")], ["get_parent_set", "get_children_set", "get_node_indices", "get_number_of_nodes", "get_label", "get_adj_matrix"])

p("C02", "A node's parameters never outlive the parent set they were set for",
  "A node inserted into a CTBN starts without intensities and statistics; inserting an edge discards the intensities and statistics of the edge's child and of no other node; and any operation that resets the structure discards those of every node that had parents and of no other node. So at every point the parameters held for a node were set under the parent set it currently has.",
  ["histories"], "every interleaving of structural operations with parameter assignments",
  "Tests set parameters only after the structure is final, so a stale matrix of the wrong shape is never provoked.",
  ["src/process/ctbn.rs", "src/params.rs"],
  [("reset_params on structural change", "add_node, add_edge, initialize_adj_matrix")],
  [("cim / transitions / residence_time", "parameters and sufficient statistics of a node", "DiscreteStatesContinousTimeParams")], ["get_cim", "get_transitions", "get_residence_time"])

p("C03", "Parent configurations are indexed by one bijection, everywhere",
  "For every network state the index used to address a node's parameters depends only on the states of the given parent set and equals the mixed-radix number in which the parent with the smallest index is the least significant digit; distinct parent configurations get distinct indices covering exactly 0 .. (product of the parents' cardinalities - 1). The index computed from the network's own structure equals the index computed from that parent set given explicitly, and the index-to-state conversion is the inverse of the index of the full state.",
  ["inputs", "configurations"], "all cardinalities, all parent sets (any size, any position relative to the node), all network states",
  "The tests evaluate a dozen indices on three networks of at most four nodes.",
  ["src/process/ctbn.rs"],
  [("mixed-radix folds", "get_param_index_network, get_param_index_from_custom_parent_set, idx_to_state")], None, ["get_param_index_network", "get_param_index_from_custom_parent_set", "CtbnNetwork::idx_to_state"])

p("C04", "Exactly the valid intensity matrices are accepted",
  "Setting a node's intensities through the checked setter succeeds if and only if every parent-configuration matrix is square with the node's cardinality, contains only finite numbers, has a strictly negative diagonal and non-negative off-diagonal entries, and has rows summing to zero up to rounding (about 1.5e-8). On success the node holds exactly that matrix; on rejection it holds none; validating a node gives the same verdict on whatever it holds, and reports missing parameters as not initialised.",
  ["inputs", "histories"], "all matrices (any shape, any number of parent configurations, one bad entry anywhere, NaN / infinite entries, huge and tiny rates), and any earlier content of the node",
  "Five matrices are tried, each with a single configuration; negative off-diagonals, NaN and multi-configuration arrays never are.",
  ["src/params.rs"], [("validate_params", "src/params.rs"), ("set_cim stores, validates, rolls back to none", "src/params.rs")],
  [("cim", "conditional intensity matrix or none", "DiscreteStatesContinousTimeParams")], ["set_cim", "set_cim_unchecked", "get_cim", "validate_params"])

p("C05", "Amalgamation yields the joint generator of the network",
  "The CTMP obtained from a CTBN has one state per joint configuration (numbered in mixed radix, node 0 least significant); its intensity from s to s' is the changing node's conditional intensity under s when s and s' differ in exactly one node, is zero when they differ in more than one, and its diagonal is minus the row sum. The source network is left unchanged.",
  ["inputs", "configurations"], "all networks (any graph including cycles and self edges, any cardinalities, any valid intensities)",
  "Three networks with hand-written matrices are compared; no cycles, no mixed cardinalities beyond them.",
  ["src/process/ctbn.rs"], [("row-by-row accumulation of node intensities", "CtbnNetwork::amalgamation")], None, ["amalgamation"])

p("C06", "Sampled trajectories and datasets are well formed",
  "A trajectory sampler first yields time 0 with the requested initial state (or some state of the domain if none was given), then samples with non-decreasing times in which exactly one variable changes from one sample to the next and every variable stays inside its domain; after a reset it does so again. A dataset generated for a positive end time has the requested number of trajectories, each starting at time 0, containing all and only the sampled transitions before the end time, and closed by one extra row at exactly the end time repeating the last state.",
  ["inputs", "histories"], "all networks with valid intensities, all initial states, end times, trajectory counts, seeds and reset patterns",
  "One network, one seed; only the trajectory count and the last time are asserted.",
  ["src/sampling.rs", "src/tools.rs", "src/params.rs"], [("ForwardSampler::next / reset", "src/sampling.rs"), ("trajectory_generator truncation", "src/tools.rs")],
  [("current_time, current_state, next_transitions", "sampler state", "ForwardSampler")], ["ForwardSampler::next", "Sampler::reset", "trajectory_generator"])

p("C07", "Only transitions with positive intensity are ever sampled",
  "Whenever sampling moves a variable from x to y, the intensity of x to y in that variable's matrix for the current configuration of its parents is strictly positive, including when other entries of the row are zero; and every transition with positive intensity can be sampled. This holds for every process that can be sampled: a CTBN and the CTMP obtained by amalgamating it.",
  ["inputs", "histories"], "all valid intensity matrices including sparse ones (amalgamated processes are always sparse), all states and parent configurations, all seeds",
  "The tests sample from one 3x3 matrix without zeros, and never sample a CTMP.",
  ["src/params.rs", "src/sampling.rs", "src/process/ctmp.rs"], [("inverse-CDF walk over the row", "get_random_state"), ("index passed to it", "ForwardSampler::next")], None, ["get_random_state", "ForwardSampler::next", "trajectory_generator"])

p("C08", "Sampling follows the intensities of the current parent configuration",
  "In a sampled trajectory the holding time in a joint state is exponential with the sum of the exit intensities that the variables have in that joint state, and the next transition is chosen with probability proportional to its intensity there; in particular, after a parent changes, its children wait and move according to their intensities under the new configuration, whatever was scheduled before. Without an initial state every variable starts uniformly over its domain.",
  ["inputs", "histories", "configurations"], "all networks, all joint states, all histories leading to them",
  "Means of 10000 draws of a single node are compared; the interplay of nodes (rescheduling after a parent moved) is only indirectly exercised by parameter learning.",
  ["src/sampling.rs", "src/params.rs"], [("rescheduling of the moved node and its children", "ForwardSampler::next"), ("exponential and categorical draws", "get_random_residence_time, get_random_state")],
  [("next_transitions", "pending transition time per node", "ForwardSampler")], ["ForwardSampler::next", "get_random_residence_time", "get_random_state", "get_random_state_uniform"])

p("C09", "Equal seeds reproduce results, and randomness is otherwise fresh",
  "Every randomised component given a seed (trajectory sampler, dataset generator, graph generator, parameter generator, Monte Carlo evaluation) yields identical results for identical inputs and seed, independently of anything executed before, between or concurrently; different seeds, and separate runs without a seed, yield different random streams. Successive uses of one sampler or generator (and the trajectories of one dataset) advance its stream instead of repeating it.",
  ["histories", "inputs", "schedules"], "all components, seeds, inputs, interleavings with other components and repetitions",
  "Tests fix a seed and compare with statistics; no test runs anything twice.",
  ["src/sampling.rs", "src/tools.rs", "src/reward/reward_evaluation.rs"], [("seed_from_u64 / from_entropy at construction", "constructors"), ("reset keeps the generator", "ForwardSampler::reset")], None, ["ForwardSampler", "trajectory_generator", "UniformGraphGenerator", "UniformParametersGenerator", "MonteCarloReward"])

p("C10", "Generated random graphs are simple, fresh and of the given density",
  "Generating a random graph on a network replaces its previous edges: afterwards no node is its own parent, and each ordered pair of distinct nodes is an edge independently with probability equal to the density, so density 0 gives the empty graph and density 1 the complete one. Nodes, labels and cardinalities are unchanged.",
  ["inputs", "histories"], "all node counts, densities, earlier structures, seeds and repeated generations",
  "One graph is drawn and its number of edges compared with 5% tolerance; self loops and leftovers of an earlier structure are not looked at.",
  ["src/tools.rs"], [("re-initialise, then one Bernoulli draw per ordered pair", "UniformGraphGenerator::generate_graph")], None, ["generate_graph", "get_parent_set", "get_children_set"])

p("C11", "Generated random parameters are always valid and within the interval",
  "Generating random parameters gives every node of the network an intensity array with exactly one matrix per configuration of its parents, each accepted by validation, with non-negative off-diagonal entries and exit intensities inside the requested interval, spread over the whole interval (for intervals up to about 1e6, where the rounding of a row's sum stays within what validation tolerates). The structure of the network is unchanged.",
  ["inputs", "histories"], "all graphs, cardinalities of two or more, intervals and seeds; CTBN and CTMP; repeated generation and after structural changes",
  "Two networks and one interval are tried, checking only that validation passes (which does not check the number of parent configurations or the interval).",
  ["src/tools.rs"], [("normalise random rows and scale by a uniform exit intensity", "UniformParametersGenerator::generate_parameters")], None, ["generate_parameters", "get_cim", "validate_params"])

p("C12", "Sufficient statistics are the exact counts and times of the data",
  "For every dataset, node and parent set, the transition count for parent configuration u and pair x, y (x different from y) is the number of consecutive row pairs, within one trajectory, in which the parents are in configuration u in the first row and the node goes from x to y; the residence time for u and x is the total time of the intervals starting in u and x. Hence times add up to the total observed time, counts to the number of changes of the node, the diagonal is zero, results add over trajectories, and summing over one parent gives the statistics without that parent.",
  ["inputs"], "all datasets (any number of trajectories of at least one row, repeated rows, several variables changing at once), nodes, parent sets of any size",
  "Only compared indirectly, through learned parameters on five sampled datasets.",
  ["src/parameter_learning.rs"], [("single pass over consecutive rows with a mixed-radix dot product", "sufficient_statistics")], None, ["sufficient_statistics"])

p("C13", "Learned parameters are the stated estimators of the statistics",
  "Maximum likelihood estimates each off-diagonal intensity as count / time wherever time was observed; the Bayesian estimate is (count + alpha/U) / (time + tau/U) with U the number of parent configurations; every row of these sums to zero, and the returned node carries the statistics it was computed from. Without an explicit parent set the network's own parent set is used, and fitting changes neither the network nor the node's label and cardinality.",
  ["inputs"], "all datasets, nodes, explicit or implicit parent sets, alpha and tau",
  "Tests compare the estimate with the generating intensities up to 0.1 - 0.2 on large samples; the effect of alpha and tau, and the exact ratio, disappear in that tolerance.",
  ["src/parameter_learning.rs"], [("MLE::fit", "src/parameter_learning.rs"), ("BayesianApproach::fit", "src/parameter_learning.rs")], None, ["MLE::fit", "BayesianApproach::fit"])

p("C14", "Structure scores equal their closed forms on the statistics",
  "The log-likelihood score of a node and parent set equals the closed-form marginal log-likelihood of the node's sufficient statistics with prior counts alpha/U and prior time tau/U, U being the number of parent configurations: the log-ratio Gamma(a+m+1) t^(a+1) / (Gamma(a+1) (t+T)^(a+m+1)) summed over states and configurations plus the Dirichlet-multinomial term. The BIC score equals that value minus ln(N)/2 times the number of free parameters U*n*(n-1), N being the total number of recorded intervals over all trajectories; scores depend on the data only through these statistics.",
  ["inputs"], "all datasets, nodes, parent sets, alpha >= 1 and tau > 0",
  "Two scores of a one-node, one-trajectory, two-interval dataset with an empty parent set are compared.",
  ["src/structure_learning/score_function.rs"], [("LogLikelihood::compute_score", "src/structure_learning/score_function.rs"), ("BIC::call penalty", "src/structure_learning/score_function.rs")], None, ["LogLikelihood::call", "BIC::call"])

p("C15", "Hill climbing returns a feasible local optimum for every node",
  "For every score function with finite scores and every dataset, hill climbing terminates and gives each node a parent set that excludes the node, has at most the configured maximum number of parents, scores at least as high as the empty set, and (when no two parent sets of the node tie) cannot be improved by removing one parent or by adding one within the maximum. Edges of the input network have no influence, and node numbering, labels and cardinalities are kept.",
  ["inputs", "configurations"], "all score functions (any table of scores per parent set), maxima, datasets, numbers of nodes, previous structures",
  "Two data-generating networks whose optimum is the true graph are tried; the search path is always monotone additions, so removals and the limit's interplay with removals are barely exercised.",
  ["src/structure_learning/score_based_algorithm.rs"], [("toggle-one-parent ascent until a pass brings no improvement", "HillClimbing::fit_transform")],
  [("parent_set, current_score, old_score", "search state per node", "HillClimbing::fit_transform")], ["HillClimbing::fit_transform"])

p("C16", "CTPC keeps an edge exactly when no separating set is found",
  "The constraint-based learner starts for every node from all other nodes as candidate parents and, for separating-set sizes 0, 1, 2, ... while smaller than the number of candidates, drops candidate p if and only if both the F test and the chi-square test accept independence of p given some separating set of that size drawn from the candidates (other than p) that were left when this size began; the result does not depend on the order of candidates. The learned parents are exactly the candidates left; edges of the input network have no influence, and node numbering, labels and cardinalities are kept.",
  ["inputs", "configurations"], "all outcomes of the tests over all candidate and separating sets, numbers of nodes, previous structures, learners",
  "Two data-generating networks with clear dependence are tried: separating sets of size two and disagreeing tests never matter.",
  ["src/structure_learning/constraint_based_algorithm.rs"], [("level-wise elimination with deferred removal", "CTPC::fit_transform")],
  [("candidate_parent_set, separation_set_size", "search state per node", "CTPC::fit_transform")], ["CTPC::fit_transform"])

p("C17", "Independence tests compare matching configurations and need evidence",
  "For a child, a candidate parent and a separating set, each test accepts independence if and only if, for every configuration of separating set plus candidate, the child's statistics in that configuration are not significantly different from those in the same configuration of the separating set alone (the candidate ignored). The chi-square test compares transition counts row by row against the chi-square quantile with cardinality-1 degrees of freedom, the F test the ratio of exit intensities against the two-sided F quantiles with the two numbers of transitions as degrees of freedom; states or transitions never observed are no evidence of a difference, and identical statistics are never declared different.",
  ["inputs"], "all cardinalities, positions of the candidate among the parents, statistics (including zero counts) and significance levels",
  "The tests call each test on one sampled network without unobserved transitions.",
  ["src/structure_learning/hypothesis_test.rs"], [("index of the small configuration from the big one", "F::call, ChiSquare::call"), ("compare_matrices", "src/structure_learning/hypothesis_test.rs")], None, ["F::call", "ChiSquare::call", "F::compare_matrices", "ChiSquare::compare_matrices"])

p("C18", "The learner cache is transparent",
  "Whatever parameters were requested before and in whatever order, node and parent set, a request through the fit cache of one network and dataset returns what fitting that node with that parent set directly would return, and the outcome of an independence test does not depend on what the cache already holds.",
  ["histories"], "all sequences of requests (nodes, parent sets of any size in any order, including sizes that skip or go back)",
  "The cache is only exercised by the learner itself, in order of growing sizes and for one node.",
  ["src/structure_learning/constraint_based_algorithm.rs"], [("two generations of maps keyed by the request, swapped when a larger parent set arrives", "Cache::fit")],
  [("cache_persistent_small, cache_persistent_big, parent_set_size_small", "the two generations and the size that separates them", "Cache")], ["Cache::fit", "HypothesisTest::call"])

p("C19", "Factored reward is the sum of node rewards plus the jump's reward",
  "The instantaneous reward of a state is the sum over all nodes of that node's reward for its value in the current state; the transition reward is the entry (previous value, current value) of the node that changed, and is zero without a previous state or when nothing changed. A reward function initialised from a network is all zero, with one vector and one square matrix per node of that node's cardinality.",
  ["inputs"], "all networks, reward tables, states and single-variable transitions",
  "Three small reward functions are evaluated on some pairs; a wrong node offset or a swapped axis on larger networks is not reached.",
  ["src/reward/reward_function.rs"], [("FactoredRewardFunction::call", "src/reward/reward_function.rs")], None, ["FactoredRewardFunction::call", "initialize_from_network_process"])

p("C20", "Monte Carlo evaluation estimates the expected accumulated reward",
  "The reward of a trajectory is the instantaneous reward of each visited state accrued over the time spent in that state, cut at the end time, plus the reward of each transition up to the end time, undiscounted for a finite horizon and discounted continuously by exp(-rate * time) for an infinite one. The returned value is the average of that reward over trajectories started in the given state: it equals the exact value up to sampling error, and up to rounding when the reward does not depend on chance. Trajectories are added until the average is, at the requested confidence, within the requested error of the expectation (judged by the spread of the trajectories so far), and no longer; the iteration limit ends the averaging otherwise.",
  ["inputs", "configurations"], "all networks, reward tables, start states, horizons, discount rates, iteration limits and stopping thresholds",
  "The tests use a constant instantaneous reward, or none at all, so crediting a sojourn to the wrong state cannot be seen.",
  ["src/reward/reward_evaluation.rs"], [("per-sojourn accumulation with truncation and discount", "MonteCarloReward::evaluate_state"), ("running mean and early stopping", "MonteCarloReward::evaluate_state")], None, ["MonteCarloReward::evaluate_state", "evaluate_state_space"])

p("C21", "State-space evaluation covers every state; relative reward is a maximum",
  "Evaluating the state space returns exactly one entry for every joint configuration of the network, each equal to evaluating that state on its own with the same seed. The neighbourhood relative reward of a state is the largest ratio of its reward to the reward of itself or of a state differing in exactly one variable, and never below 1.",
  ["inputs", "configurations", "schedules"], "all networks, cardinalities and reward tables",
  "Two entries of one result are compared on networks of one and three binary nodes; the relative reward only on a constant reward.",
  ["src/reward/reward_evaluation.rs"], [("parallel enumeration by mixed radix", "MonteCarloReward::evaluate_state_space"), ("pairwise maximum over Hamming distance at most one", "NeighborhoodRelativeReward::evaluate_state_space")], None, ["evaluate_state_space", "evaluate_state"])

p("C22", "A CTMP holds at most one node and refuses structure",
  "A CTMP accepts exactly one node, keeps that node with its parameters, and answers any further insertion with an error that leaves it unchanged; it reports node 0 with no parents and no children and its own state as configuration index, and refuses edges, structure initialisation, custom parent sets and any other node index.",
  ["histories"], "all sequences of operations on a CTMP, including after refused ones",
  "Single refusals are tested one by one, never what remains afterwards.",
  ["src/process/ctmp.rs"], [("optional single parameter slot", "CtmpProcess")], [("param", "the node or none", "CtmpProcess")], ["NetworkProcess for CtmpProcess"])

p("C23", "Incompatible inputs are refused, never silently used",
  "A trajectory whose numbers of times and states differ, a dataset mixing trajectories with different numbers of variables, a graph density outside [0,1], a parameter interval reaching below zero, a negative prior time, and a structure learner given data with another number of variables than the network are all refused, and compatible ones are accepted and stored unchanged. Parameters, times and states asked of a node without intensities are reported as an error, not a value.",
  ["inputs"], "all shapes and values on both sides of each limit, with the offending element in any position",
  "One offending example per constructor; never the boundary values, and the mismatch is always in the second of two trajectories.",
  ["src/tools.rs", "src/structure_learning/score_based_algorithm.rs", "src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_function.rs", "src/params.rs"],
  [("constructor checks", "Trajectory::new, Dataset::new, UniformGraphGenerator::new, UniformParametersGenerator::new, LogLikelihood::new"), ("dataset / network coherence check", "fit_transform")], None, ["constructors", "fit_transform"])

p("C24", "Parallel learning and evaluation do not depend on scheduling",
  "Structure learning and state-space evaluation return the same result whatever the number of worker threads and however the per-node or per-state work is interleaved, and that result is the one obtained by treating the nodes or states one after the other, each node's outcome depending only on that node's own scores or statistics.",
  ["schedules"], "all numbers of threads, all interleavings and completion orders of the parallel tasks",
  "Tests run with the default pool and one schedule; a result attached to the wrong node would need a particular completion order.",
  ["src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_based_algorithm.rs", "src/reward/reward_evaluation.rs"],
  [("parallel map returning (node, parent set) pairs, edges added afterwards by one thread", "fit_transform"), ("parallel map collected by state", "evaluate_state_space")], None, ["fit_transform", "evaluate_state_space"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
