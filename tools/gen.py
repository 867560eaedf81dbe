#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that the two stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, K, S, F = "inputs", "histories", "configurations", "schedules", "fault_sequences"
SIM, CFG, NET, GEN, NIO, AIO = ("include/simulation.hpp", "src/config_parser.cpp", "include/network.hpp",
                                "include/network_generation.hpp", "include/network_io.hpp", "include/agent_io.hpp")
MATH, MISC, ACT = "include/util/math.hpp", "include/util/misc.hpp", "include/models/ActivityDrivenModel.hpp"
ACTC, INE, DEG = "src/models/ActivityDrivenModel.cpp", "src/models/InertialModel.cpp", "src/models/DeGroot.cpp"
DEF, DEFC, DEFV, MAIN = ("include/models/DeffuantModel.hpp", "src/models/DeffuantModel.cpp", "src/models/DeffuantModelVector.cpp",
                         "src/main.cpp")
CON, ERF, MOD, FAC = "include/connectivity.hpp", "include/util/erfinv.hpp", "include/model.hpp", "include/model_factory.hpp"
AG = "include/agents/"

P = []


def p(pid, title, statement, over, qtext, why, mech, technique, note, observe=(), files=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, mech=mech, technique=technique,
                  note=note, observe=list(observe), files=files or sorted({w.split(":")[0] for _, w in mech})))


SANI = "AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions"
HELD = "Held on the executions observed, nothing beyond them. "

p("C01", "A valid run ends normally, without memory errors or undefined behaviour",
  "For every configuration that passes validation, with or without network and agent files, and for every model and network size, "
  "the program runs to the requested end and exits with status 0. On the way it never reads or writes outside its objects, uses "
  "uninitialised or freed memory, overflows the stack or a signed integer, or divides an integer by zero; the one exception are "
  "requests that contradict each other (such as more bots than agents), which may be refused with an error message.",
  [I, K], "all accepted configurations, all models, network sizes from 0 up, network and agent files of any valid content",
  "The tests run a handful of configurations without instrumentation; an out-of-bounds access or stack overflow that needs another "
  "size, degree or option combination does not show.",
  [("simulation loop", SIM + ":Simulation::run"), ("models", ACT + ":update_network_probabilistic"), ("sampling", MATH + ":reservoir_sampling_A_ExpJ"), ("depth first search", CON + ":depth_first_search"),
   ("pair selection", DEF + ":select_interacting_agent_pair"), ("program", MAIN + ":main")],
  "sanitizers (ASan, UBSan, glibc++ assertions, valgrind memcheck) under a random configuration workload",
  HELD + "Paths not driven and intra-object overflows are not seen; leaks are not judged.",
  ["exit status and sanitizer report of the command line program"])

p("C02", "Malformed input is refused before anything is simulated",
  "A missing or syntactically wrong configuration, a missing input file, an out-of-range setting, a network file with invalid "
  "neighbour indices, negative counts, missing or non-numeric fields, an agent file with the wrong number of agents, or a "
  "non-square number of agents on the lattice makes the program end with an error and without writing any output file. No "
  "sequence of bytes in any input file leads to a memory error, an endless loop or an abnormal termination by a signal other "
  "than the deliberate refusal.",
  [I, F], "all byte contents of configuration, network and agent files, and all command lines",
  "The tests read three well-formed files; the space of malformed files is never touched.",
  [("validation", CFG + ":parse_config_file"), ("network file reader", GEN + ":generate_from_file"), ("agent file reader", AIO + ":agents_from_file"), ("file reader", MISC + ":get_file_contents"),
   ("consistency of files", SIM + ":create_model"), ("lattice size", DEF + ":constructor")],
  "fault injection into input files under sanitizers; monitor on exit status, output directory and reports",
  HELD + "An assertion of the TOML library itself on a malformed file counts as refusal.",
  ["exit status, output directory, sanitizer reports"])

p("C03", "The seed and the input files determine the whole run",
  "Two runs with the same configuration, seed and input files write the same files with the same bytes and print the same "
  "information, whatever the environment, memory contents, working directory or output directory are. Runs without a seed differ "
  "from each other, and a run with the seed that such a run used repeats it; seeds that differ in their low 32 bits give different random choices.",
  [I, K, H], "all configurations, seeds and environments",
  "A test that compares one run to itself in one environment cannot see dependence on memory contents, addresses or time.",
  [("engine from the seed", SIM + ":Simulation constructor"), ("seed default", CFG + ":parse_config_file"), ("random draws through one engine", ACT + ":update_network_probabilistic"),
   ("random draws through one engine", DEF + ":select_interacting_agent_pair")],
  "differential monitoring of repeated runs with perturbed heap contents, environment and location",
  HELD + "Heap contents are perturbed by the allocator's fill bytes and address randomisation.",
  ["all files of the output directory", "standard output"])

p("C04", "Simulations in the same process do not influence each other",
  "Several simulations that exist at the same time in one process, advanced in turn, one after another or by different threads, "
  "each produce exactly the files that each of them produces alone. There is no data race between them.",
  [S, H], "all sets of simulations and all interleavings of their iterations and constructions, including parallel ones",
  "No test constructs two simulations at once; hidden shared state (a static buffer, a global engine) passes every single-run test.",
  [("engine owned by the simulation", SIM + ":Simulation::gen"), ("buffers owned by the model", ACT + ":member buffers"), ("no static state in sampling", MATH + ":draw_unique_k_from_n")],
  "ThreadSanitizer race detection and differential monitoring of interleaved, parallel and stand-alone runs",
  HELD + "Interleavings are those the scheduler produced in repeated parallel runs, and random ones of whole iterations.",
  ["output files per simulation, race reports"])

p("C05", "A network written to a file and read back is the same network",
  "For every network with finite weights, writing it to a file and reading that file gives a network with the same number of "
  "agents, and for every agent the same neighbours in the same order with bit-identical weights. The program writes exactly the "
  "network it has read when it outputs its initial state.",
  [I], "all finite directed weighted networks, including isolated agents, parallel edges, extreme and subnormal weights",
  "The tests compare one small network with round weights.",
  [("writer", NIO + ":network_to_file"), ("reader", GEN + ":generate_from_file"), ("number conversion", MISC + ":string_to_double")],
  "round-trip monitor, bit-exact comparison under sanitizers", HELD + "Up to 2000 agents; weights from all exponent ranges.",
  ["network files of the command line program; network before and after"])

p("C06", "Agents written to a file and read back are the same agents",
  "For each kind of agent (simple, activity with reluctance, inertial with velocity, discrete vector), writing agents to a file "
  "and reading it gives the same number of agents in the same order, every value of every agent bit-identical. The columns carry "
  "the names that the header announces.",
  [I], "all finite values of every field of every kind of agent, any number of agents and any vector dimension",
  "The tests read one prepared file per kind with few round numbers.",
  [("writer", AIO + ":agents_to_file"), ("reader", AIO + ":agents_from_file"), ("activity columns", AG + "activity_agent.hpp:agent_to_string, agent_from_string"),
   ("inertial columns", AG + "inertial_agent.hpp:agent_to_string, agent_from_string"), ("vector columns", AG + "discrete_vector_agent.hpp:agent_to_string, agent_from_string"),
   ("simple columns", AG + "simple_agent.hpp:agent_to_string, agent_from_string"), ("number conversion", MISC + ":string_to_double")],
  "round-trip monitor, bit-exact comparison under sanitizers", HELD, ["agent files of the command line program; agents before and after"])

p("C07", "A run writes exactly the requested output files, and output does not affect it",
  "The initial network and opinions are written if and only if that is requested; after that, opinion and network files are written "
  "exactly at the iterations that are multiples of their intervals and not before the first requested iteration, named by the "
  "iteration number plus the requested offset, and nothing else is written. They are in the directory that -o names, which is created if necessary, "
  "or else in the directory output next to the configuration file. Each file holds the state after exactly that iteration: "
  "its content does not depend on which other files are requested, on progress printing or on the number of iterations to come.",
  [K, H], "all combinations of intervals, start, offset, initial output, progress, number of iterations and model",
  "No test runs the output loop; the combinations of the settings are not sampled.",
  [("output loop", SIM + ":Simulation::run"), ("iteration counter", MOD + ":Model::iteration"), ("output settings", CFG + ":parse_config_file")],
  "monitor of the output directory against the schedule, differential runs with dense output", HELD,
  ["names and contents of all files in the output directory"])

p("C08", "A run can be started from, and continued with, network and agent files",
  "With a network file and an agent file given, the run starts in exactly the state of these files: the agents of the file replace "
  "the generated initial state and the network of the file replaces the generated network, whatever the sizes in the configuration "
  "say. A model without random choices that is stopped, and restarted from the files it wrote, continues bit for bit as if it had "
  "not been stopped.",
  [I, H], "all models, all network and agent files and all iterations at which a run is stopped and continued",
  "No test starts a simulation from files on the command line and compares it with an uninterrupted run.",
  [("files override", SIM + ":create_network"), ("agents override", SIM + ":create_model"), ("command line", MAIN + ":main"), ("readers", AIO + ":agents_from_file"),
   ("network reader", GEN + ":generate_from_file")],
  "differential monitor: interrupted against uninterrupted runs, initial output against input files", HELD,
  ["initial output files and later output files"])

p("C09", "DeGroot: every iteration forms weighted sums of the previous opinions",
  "In the DeGroot model one iteration sets the opinion of every agent to the sum of weight times previous opinion over its incoming "
  "neighbours, all agents at once. If the weights of an agent are nonnegative and add up to one, its opinion never leaves the range "
  "of its neighbours' previous opinions.",
  [I, H], "all networks, weights, initial opinions and numbers of iterations",
  "The tests check the final consensus of one two-agent network.",
  [("iteration", DEG + ":iteration")], "online reference model comparing every iteration of real runs",
  HELD + "Rounding: relative 1e-12 of the sum of absolute terms.", ["opinions before and after every iteration"])

p("C10", "DeGroot: stops at the tolerance or limit, at the correct consensus",
  "A DeGroot run ends after the first iteration whose largest absolute opinion change is below the convergence tolerance (1e-6 if "
  "none is given), or at the maximum number of iterations, whichever is first, and not earlier. On a strongly connected, aperiodic "
  "network with weights that add up to one per agent, a run to convergence ends with all opinions equal, up to the accuracy of the "
  "tolerance, to the average of the initial opinions weighted with the stationary distribution of the network.",
  [I, K], "all networks, tolerances, limits and initial opinions",
  "The tests contain one network that converges.",
  [("stop rule", DEG + ":finished"), ("largest change", DEG + ":iteration"), ("base stop rule", MOD + ":Model::finished"), ("default tolerance", CFG + ":parse_config_file"),
   ("settings reach the model", FAC + ":create_model_degroot")],
  "trace monitor of the stop iteration; consensus against the stationary distribution", HELD,
  ["opinions of every iteration, number of iterations"])

p("C11", "Activity model: every iteration is one Runge-Kutta step of the model equation",
  "In the activity driven model one iteration draws the contacts of the step and advances all opinions together by one classical "
  "fourth order Runge-Kutta step of length dt of dx_i/dt = -x_i + (K / reluctance_i) * sum_j A_ij tanh(alpha x_j), where A is the network of that "
  "iteration and reluctance is 1 unless reluctances are used. Activities and reluctances never change.",
  [I, H, K], "all agents, networks, parameters, steps and iteration numbers",
  "The tests check two analytically solvable cases to a coarse tolerance; a step of lower order or a stale network passes them.",
  [("integration", ACTC + ":iteration"), ("slopes", ACT + ":get_euler_slopes")], "online reference model comparing every iteration of real runs",
  HELD + "Rounding: relative 1e-11 per step.", ["network and opinions of every iteration"])

p("C12", "Inertial model: every iteration is one velocity Verlet step with friction",
  "In the inertial activity driven model one iteration advances positions by x + v dt + a dt^2 / 2 with a = drift(x) - friction * v, and "
  "velocities by v' = (v + dt/2 (drift(x) - friction v + drift(x'))) / (1 + friction dt / 2), for all agents at once, where drift is "
  "the right hand side of the activity driven model on the network of that iteration. Velocities start at zero unless read from a file.",
  [I, H, K], "all agents, networks, parameters and iterations",
  "One test with two agents and a coarse tolerance.",
  [("positions", INE + ":calc_position"), ("velocities", INE + ":calc_velocity"), ("slopes", ACT + ":get_euler_slopes")],
  "online reference model comparing every iteration of real runs", HELD + "Rounding: relative 1e-11 per step.",
  ["network, opinions and velocities of every iteration"])

p("C13", "Contacts of an iteration: distinct, no self-contact, m per active agent",
  "In every iteration of the activity driven models an inactive agent contacts nobody and an active agent contacts min(m, number of "
  "others) distinct other agents; an agent with activity 1 or more is always active, one with activity 0 never. Each contacted agent that did not "
  "itself contact back is connected in return with the reciprocation probability (always if it is 1, never if it is 0). The network of the "
  "iteration has exactly these edges with weight 1, no duplicates, no self-connections and none left over from earlier iterations.",
  [H, I, K], "all iterations, sizes, m, activities, homophilies and reciprocities",
  "The structure of the random network of an iteration is checked by no test.",
  [("contacts", ACT + ":update_network_probabilistic"), ("reciprocity", ACT + ":update_network_probabilistic"), ("direction", NET + ":toggle_incoming_outgoing"), ("sampling", MATH + ":reservoir_sampling_A_ExpJ")],
  "invariant monitor over the network of every iteration of real runs", HELD,
  ["network of every iteration"])

p("C14", "Contacts follow the probabilities of activity, homophily and reciprocity",
  "Over many iterations with fixed opinions, an agent is active with probability equal to its activity (all agents and iterations "
  "independent), an active agent chooses its m partners by successive draws with probability proportional to "
  "|opinion difference|^(-homophily) (differences below 1e-10 counting as 1e-10), and a contact that is not mutual is returned with "
  "the reciprocity probability, independently of everything else.",
  [H, I, K], "all parameters; the law of the random network",
  "The tests never look at frequencies of contacts.",
  [("activation", ACT + ":update_network_probabilistic"), ("partner weight", ACT + ":homophily_weight"), ("reciprocity", ACT + ":update_network_probabilistic"), ("weighted sampling", MATH + ":reservoir_sampling_A_ExpJ")],
  "statistical monitor over recorded contact histories against exact probabilities",
  HELD + "Deviations are reported above a bound whose false alarm probability is below 1e-9 per run; small biases stay below it.",
  ["network of every iteration"])

p("C15", "Mean-field contacts: the weights are the expected contacts of each pair",
  "With mean weights the network is fully connected in every iteration, and the weight with which agent j influences agent i is the "
  "contact probability p_ji of j contacting i plus the returned contacts (1 - p_ji) * reciprocity * p_ij, where p is computed from activity, m and "
  "the normalised homophily weights of the current opinions. Nothing random enters, nothing of an earlier iteration remains, and no agent "
  "influences itself.",
  [H, I, K], "all opinions, activities, m, homophilies, reciprocities and iterations",
  "The tests only see opinions after many steps for ten agents.",
  [("mean network", ACT + ":update_network_mean"), ("full connection", ACT + ":constructor")],
  "online reference model over the network of every iteration", HELD + "One known finding: the activities are ignored.",
  ["network of every iteration"])

p("C16", "Bots keep their opinion and use their own parameters",
  "The first agents, as many as bots are configured, show their configured opinion after every iteration, whatever happens to them "
  "in between, and they start with it and with their configured activity unless an agent file is given. As contacting agents they use "
  "their own m, activity and homophily; every other agent uses the common ones, and treats bots like anybody else.",
  [H, I, K], "all numbers of bots, bot settings, models and iterations",
  "Two tests with one or two bots that check only opinions at the end.",
  [("bot initial state", ACT + ":get_agents_from_power_law"), ("bot homophily", ACT + ":homophily_weight"), ("bot m", ACT + ":update_network_probabilistic"), ("bot opinion", ACTC + ":iteration"),
   ("bot opinion (inertial)", INE + ":iteration")],
  "invariant and statistical monitor over recorded runs", HELD, ["opinions and network of every iteration"])

p("C17", "Deffuant: only agents closer than the threshold move, towards each other",
  "In the basic Deffuant model one iteration consists of as many pair interactions as there are agents, each of two different "
  "agents, all pairs equally likely. Two agents whose opinions differ by less than the threshold both move by mu times the difference towards "
  "each other, otherwise neither moves; so the sum of the opinions is kept, and no opinion leaves the range of the opinions before.",
  [H, I, K], "all opinions, thresholds, mu, sizes, seeds and iterations",
  "The tests check the end state of a two-agent and one clustered run.",
  [("pair", DEF + ":select_interacting_agent_pair"), ("update", DEFC + ":update_rule"), ("iteration", DEF + ":iteration")],
  "search of the recorded step for an explaining sequence of interactions; conservation and frequency monitors", HELD,
  ["opinions of every iteration"])

p("C18", "Deffuant on the lattice: partners are nearest neighbours",
  "With the network option the agents form a periodic square lattice and every interaction is between an agent, all equally likely, "
  "and one of its lattice neighbours, all equally likely. Agents that are not neighbours never interact; the rule of interaction "
  "is that of the basic model.",
  [H, I, K], "all lattice sizes, opinions, thresholds and iterations",
  "One test on the final clusters.",
  [("lattice", GEN + ":generate_square_lattice"), ("pair", DEF + ":select_interacting_agent_pair"), ("size check", DEF + ":constructor")],
  "search for explaining interactions along lattice edges; frequency monitors", HELD, ["opinions of every iteration, network file"])

p("C19", "Binary vector Deffuant: agents only copy components from close agents",
  "With binary vectors two interacting agents with Hamming distance below the threshold agree afterwards in every component, each differing "
  "component taking the value of one of the two; at or above the threshold nothing changes. Opinions stay vectors of zeros and "
  "ones of the configured dimension, and a component on which all agents agree never changes again.",
  [H, I, K], "all vectors, dimensions, thresholds, mu, networks and iterations",
  "One test looks at the final number of distinct vectors.",
  [("vector update", DEFV + ":update_rule"), ("initial vectors", DEFV + ":initialize_agents"), ("distance", MATH + ":hamming_distance")],
  "exhaustive and statistical monitor over single recorded steps", HELD + "Which of the two agents wins is tested for being possible both ways, "
  "and statistically against the rule of the code base (mu).", ["opinions of every iteration"])

p("C20", "Initial agents follow the configured distributions",
  "Without an agent file, DeGroot and basic Deffuant agents start at i / n, binary vectors uniformly at random, and activity driven agents with "
  "independent opinions uniform on [-1, 1], activities in [eps, 1] from the power law with exponent gamma, and, if requested, "
  "reluctances above their minimum from the truncated normal distribution, correlated with the activities by a Gaussian copula "
  "with the given covariance factor. With mean activities every activity is the mean of that power law, without reluctances every reluctance is 1, "
  "and velocities are 0.",
  [I, K], "all parameters of the distributions and seeds",
  "The tests do not look at the initial distributions.",
  [("initial agents", ACT + ":get_agents_from_power_law"), ("Deffuant", DEFC + ":initialize_agents"), ("vectors", DEFV + ":initialize_agents"), ("DeGroot", DEG + ":constructor"), ("power law", MATH + ":power_law_distribution"),
   ("copula", MATH + ":bivariate_gaussian_copula")],
  "statistical monitor over recorded initial states (Kolmogorov-Smirnov, correlations)",
  HELD + "One known finding: the mean of the power law.", ["initial opinion file"])

p("C21", "Transposing a network reverses its edges; changing representation keeps them",
  "Changing a network from incoming to outgoing lists or back keeps the set of directed weighted edges, with multiplicities; "
  "transposing reverses every edge and keeps the representation; switching the direction flag keeps the lists. Hence "
  "each of them done twice restores the network up to the order in the lists.",
  [I, H], "all networks including self-loops and parallel edges, and all sequences of these operations",
  "Tests transpose and toggle one small random network.",
  [("toggle", NET + ":toggle_incoming_outgoing"), ("transpose", NET + ":transpose"), ("flag", NET + ":switch_direction_flag")],
  "online comparison with a reference edge multiset over random operation sequences, under sanitizers", HELD,
  ["neighbours and weights of every agent"])

p("C22", "A network always shows exactly the edges its history defines",
  "After every sequence of constructing, setting neighbours and weights, adding edges, clearing, copying, moving and writing through "
  "the mutable views, the neighbours, weights, edge counts, number of agents and direction of a network are those the history defines, "
  "weights stay attached to their neighbours, and copies are independent. A change with lists of unequal or wrong size is refused with an exception "
  "and changes nothing.",
  [H], "all sequences of operations and their arguments",
  "The tests use each operation once or twice.",
  [("set", NET + ":set_weights, set_neighbours_and_weights"), ("push", NET + ":push_back_neighbour_and_weight"), ("clear", NET + ":clear"), ("constructors", NET + ":constructors")],
  "online comparison with a reference model over random operation histories, under sanitizers", HELD, ["public interface of the network"])

p("C23", "Removing double counting merges parallel edges and nothing else",
  "After removing double counting every neighbour occurs once per agent, in ascending order, with the sum of the weights it had "
  "there before; the neighbour sets, the number of agents and the direction are unchanged, and doing it again changes nothing.",
  [I], "all multigraphs in both representations, any order of the entries",
  "One test with a small network.",
  [("merge", NET + ":remove_double_counting")], "online comparison with a reference sum, under sanitizers", HELD, ["neighbours and weights of every agent"])

p("C24", "Strongly connected components are the classes of mutual reachability",
  "For every directed network, the reported strongly connected components are disjoint, contain every agent, and put two agents "
  "together exactly if each can be reached from the other, for any number of agents and depth of the network. A DeGroot "
  "run warns, with the number of components, exactly if it is not one.",
  [I], "all directed networks, including large chains and rings",
  "The tests contain three small networks.",
  [("Tarjan's algorithm", CON + ":depth_first_search"), ("components of a network", NET + ":strongly_connected_components"), ("warning", DEG + ":constructor")],
  "comparison with a transitive closure over exhaustive small and random larger networks, under sanitizers", HELD,
  ["returned components; warning line of the program"])

p("C25", "Generated networks have the requested structure",
  "The generator of random connections gives every agent exactly the requested number of distinct incoming neighbours other than "
  "itself (at most all others), uniformly chosen, plus itself when self-interaction is requested, with nonnegative weights that add up to one. "
  "The fully connected generator connects every agent with every agent with the given weight, or random weights that add up to one. The square lattice connects "
  "every agent with its four periodic neighbours with weight 0 initially and is symmetric.",
  [I, K], "all sizes, degrees, seeds and weights",
  "Tests look at the degrees of one network and one lattice.",
  [("random connections", GEN + ":generate_n_connections"), ("fully connected", GEN + ":generate_fully_connected (given weight)"), ("random weights", GEN + ":generate_fully_connected (random weights)"), ("lattice", GEN + ":generate_square_lattice")],
  "structural and statistical monitor over generated networks, under sanitizers", HELD, ["neighbours and weights of every agent"])

p("C26", "Drawing k of n gives k distinct allowed items, all subsets equally likely",
  "Drawing k items out of n without replacement, optionally excluding one, returns min(k, available) distinct items below n, never the excluded one, and "
  "nothing left over from an earlier use of the buffer. Every subset of that size is equally likely.",
  [I], "all n, k, excluded items and states of the random engine",
  "One test checks membership for one case, not the frequencies.",
  [("unique draw", MATH + ":draw_unique_k_from_n")], "statistical monitor of subset frequencies with exact bounds, under sanitizers",
  HELD + "Deviations are reported at an error probability below 1e-12.", ["returned items"])

p("C27", "Weighted sampling without replacement has the probabilities of the weights",
  "Weighted sampling of k out of n returns min(k, number of items with positive weight) distinct items, never one of weight zero, "
  "and nothing left over from earlier use of the buffer. The probability of every subset is that of successive "
  "draws with probability proportional to the weights of the remaining items, for weights of any scale.",
  [I], "all n, k and nonnegative weights",
  "One test compares frequencies for one set of weights at a coarse tolerance.",
  [("reservoir sampling", MATH + ":reservoir_sampling_A_ExpJ")], "statistical monitor of subset frequencies with exact bounds, under sanitizers",
  HELD + "Deviations are reported at an error probability below 1e-12.", ["returned items"])

p("C28", "Densities, quantiles and samples of each distribution belong together",
  "For the power law on [eps, 1] and the truncated normal distribution the density is nonnegative, zero outside the support and "
  "integrates to one, the inverse distribution function inverts its integral, the mean is the mean of the density, and samples follow it and stay in the support. The bivariate "
  "normal distribution has standard normal components with the given covariance, the copula keeps both marginal distributions, and the inverse error "
  "function inverts the error function to nearly full precision.",
  [I], "all parameters inside the documented ranges and all arguments",
  "The tests write histograms to files for inspection and check a few values.",
  [("power law", MATH + ":power_law_distribution"), ("truncated normal", MATH + ":truncated_normal_distribution"), ("bivariate normal", MATH + ":bivariate_normal_distribution"), ("copula", MATH + ":bivariate_gaussian_copula"),
   ("inverse error function", ERF + ":erfinv")],
  "numerical and statistical monitor over random parameters, under sanitizers",
  HELD + "One known finding: the mean of the power law.", ["return values"])

p("C29", "A run uses the configured settings, and documented defaults elsewhere",
  "Every setting that the configuration file gives is the one that the run uses, for each model and independently of the order and presence of others; "
  "every optional setting that it does not give has its documented default. A missing required setting or unknown model is refused.",
  [K, I], "all subsets and values of the settings of all models",
  "The tests read one configuration file per model.",
  [("parser", CFG + ":parse_config_file"), ("defaults", "include/config_parser.hpp:settings")], "online comparison of parsed settings with the generated ones",
  HELD, ["parsed settings; behaviour of runs"])

p("C30", "Exactly the settings inside the documented ranges are accepted",
  "Validation accepts a configuration exactly if every checked setting is in its range, boundaries included as stated: first output iteration, output intervals, dt, eps, reluctance "
  "parameters, Deffuant threshold and dimension positive, gamma above 2, m, alpha, reciprocity, friction, tolerance, numbering and bot contact counts nonnegative, covariance factor in [-1, 1], mu in "
  "[0, 1], at least one entry per bot in each bot list, dimension 1 without binary vectors. Not-a-number, values of the wrong type, and numbers too large for their setting are refused.",
  [K, I], "all values of every setting, in particular the boundaries and their floating point neighbours",
  "The tests validate the example files only.",
  [("validation", CFG + ":validate_settings")], "boundary value monitor over every setting of every model", HELD, ["acceptance or refusal"])

p("C31", "Lists are split, vectors compared and files read exactly",
  "Splitting at commas passes on every entry exactly once, in order, unchanged, including empty ones. The Hamming distance is the number of "
  "differing components and refuses unequal lengths, and reading a file returns exactly its bytes and refuses missing files.",
  [I], "all strings, vectors and file contents",
  "Tests contain one string and one pair of vectors.",
  [("split", MISC + ":parse_comma_separated_list"), ("file", MISC + ":get_file_contents"), ("distance", MATH + ":hamming_distance")], "comparison with reference functions on random input, under sanitizers",
  HELD, ["return values"])

p("C32", "The DOT export names every agent and exactly its neighbours",
  "The DOT export of a network is a well-formed digraph with one line per agent that lists exactly the neighbours of the "
  "agent in order, also for agents without neighbours, with the arrows in the direction of the edges, and replaces an existing file completely.",
  [I], "all networks, including isolated agents and none at all",
  "One test writes a file and never reads it.",
  [("export", NIO + ":network_to_dot_file")], "comparison of the written file with the network, under sanitizers", HELD, ["written file"])

p("C33", "What a run prints is what it does",
  "Before the simulation the program prints the seed, the model and every setting of model, network and output that is in force, given or "
  "default, with its exact value, and the files it reads and the directory it writes to. With progress printing it prints one line per "
  "iteration, in order, otherwise none, and at the end the number of iterations it has done.",
  [I, K], "all valid configurations of all models, with and without input files",
  "No test looks at the standard output; a printed setting that is another one's, or a wrong count, misleads whoever documents or repeats a run.",
  [("settings", CFG + ":print_settings"), ("files", MAIN + ":main"), ("progress and end", SIM + ":Simulation::run")],
  "monitor on the standard output: every line against the intended settings and the files of the run",
  HELD + "Settings are recognised by their labels; times are not judged.", ["standard output, output files"])

p("C34", "A run gives back what it takes and takes no more the longer it runs",
  "The memory in use during a run depends on the network and the model, not on the number of iterations done. When a simulation has been run "
  "and destroyed, or its construction was refused because of a bad configuration or file, all memory it allocated is released and all files "
  "it opened are closed.",
  [H, F], "all models, configurations, input files and numbers of iterations",
  "The tests end after a few iterations and the process takes everything with it; growth shows only in long runs or many simulations in one process.",
  [("simulation", SIM + ":Simulation::run"), ("contacts", ACT + ":update_network_probabilistic"), ("lists", NET + ":clear"), ("readers", GEN + ":generate_from_file"),
   ("reader of agents", AIO + ":agents_from_file"), ("file reader", MISC + ":get_file_contents")],
  "monitor on the allocator (mallinfo2) and the open files of a process that runs many simulations and many iterations",
  HELD + "Memory is what malloc has handed out; capacity of lists may grow by 12000 bytes after the first tenth of the iterations.",
  ["bytes allocated and files open, after and during simulations"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(dict(
                id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["qtext"]),
                why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]], observe_at=q["observe"],
                             hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=q["id"], quick_cmd="python3 check.py " + q["id"], thorough_cmd="python3 check.py " + q["id"],
                          evidence_file="evidence/%s.json" % q["id"], technique=q["technique"], level="exploration", level_note=q["note"])
                     for q in P],
             not_applicable=[],
             notes="No hooks: the checks observe the command line program, or call public headers from harnesses in /verif/harness, "
                   "built with sanitizers from /repo's working tree.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
