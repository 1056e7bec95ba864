GA_FILES = [GEN + "GABase.hpp", GEN + "SOGA.hpp", GEN + "SOGASelecters.hpp", GEN + "MOGABase.hpp",
            GEN + "MOGAAbstract.hpp", GEN + "NSGABase.hpp", GEN + "NSGA2.hpp", GEN + "NSGA3Base.hpp",
            GEN + "NSGA3Abstract.hpp"]
TRACE_NOTE = ("The TLA+ machine is explored exhaustively for tiny constants; every recorded history of "
              "the real solver (many options, seeds, thread counts) is accepted or rejected by TLC. "
              "Trusted: the driver's recording of calls and public accessors. Not covered: histories "
              "that were not generated.")
TECH = "TLA+ state machine checked by TLC; trace validation of recorded solver histories with TLC"

prop("G01", "A genetic run ends exactly when its options say so",
     "A run of a genetic solver performs generations until either the generation limit is passed or the best "
     "individual has failed to improve for more than the configured number of consecutive generations, and "
     "then returns; it never stops earlier, later, or not at all. The generation count it reports afterwards "
     "equals the number of completed generations, one best-fitness entry per selection is recorded "
     "(count plus one), and a second run starts counting and recording afresh.",
     ["inputs", "configurations", "histories"],
     "every solver (single-objective, NSGA2, NSGA3), population size, limit, probability, selection method, "
     "thread number and sequence of configure/initialise/run calls",
     "Tests run a solver once with one option set and look at the final output; they never check when the "
     "loop stopped, nor runs repeated or reconfigured on the same object.",
     GA_FILES, [("generation loop and stop tests", GEN + "GABase.hpp run()"),
                ("fail counter", GEN + "SOGA.hpp updateFailTimesAndBestGene()")],
     ["generation()", "failTimes()", "record()", "order of user callback calls"],
     TECH, "model_checking", TRACE_NOTE)

prop("G02", "Every individual is evaluated exactly once, whatever the threads",
     "Before any selection every individual has been evaluated by the user's fitness function, exactly once "
     "over its lifetime, on its own decision variable, and the stored fitness is the value that call "
     "produced. This holds for any number of worker threads, any number of pending individuals and any "
     "completion order.",
     ["schedules", "inputs", "configurations"],
     "thread numbers, schedules of the parallel evaluation loop, numbers of pending individuals including "
     "fewer than threads, all genetic solvers",
     "Tests use a fixed machine-dependent thread number and never count calls of the fitness function; a "
     "missed or repeated evaluation only shifts the random search.",
     GA_FILES, [("parallel fitness loop", GEN + "GABase.hpp calculateAll()"),
                ("is_fitness_computed flag", GEN + "GABase.hpp Gene")],
     ["calls of the fitness function", "population() flags and fitness"],
     TECH, "model_checking", TRACE_NOTE)

prop("G03", "Crossover and mutation only add individuals made from survivors",
     "Between two selections the survivors stay untouched and new unevaluated individuals are appended: two "
     "per crossover of two different survivors, each survivor used at most once, and one per mutation of an "
     "individual present after crossover, each mutated at most once. With probability 1 everybody takes part "
     "(one left over when odd), with probability 0 nobody does; initialisation creates exactly the configured "
     "number of new individuals.",
     ["inputs", "configurations", "histories"],
     "population sizes including 1 and odd ones, probabilities, all genetic solvers, repeated initialisation "
     "and runs",
     "Tests only look at the final best value; a parent overwritten in place or used twice still converges.",
     GA_FILES, [("crossover pairing", GEN + "GABase.hpp crossover()"), ("mutation", GEN + "GABase.hpp mutate()")],
     ["arguments of the user's crossover/mutation functions", "population()"],
     TECH, "model_checking", TRACE_NOTE)

prop("S01", "Single-objective selection keeps exactly the configured population size",
     "Under each of the ten selection methods, chosen at compile time or at run time, for minimisation and "
     "maximisation, selection returns and leaves exactly the configured number of individuals whenever there "
     "are more (and changes nothing otherwise). Survivors are members of the population it was given, "
     "duplicated only by tournaments; equal, huge, tiny and infinite fitness values are no exception.",
     ["inputs", "configurations", "histories"],
     "ten methods, two directions, static and run-time dispatch, parameters, populations of any size, any "
     "fitness values that can be compared",
     "Tests exercise one or two methods on one smooth function; ties, infinities and tiny populations are "
     "never reached.",
     [GEN + "SOGASelecters.hpp", GEN + "SOGA.hpp"],
     [("SOGASelector specialisations", GEN + "SOGASelecters.hpp"), ("applyErasement", GEN + "SOGA.hpp")],
     ["population() before and after selection"],
     TECH, "model_checking", TRACE_NOTE)

prop("S02", "Each selection method keeps its guarantee about who survives",
     "Truncation never drops an individual better than one it keeps; elite reservation keeps the configured "
     "number of best ones; a tournament survivor is no worse than enough others to have won; roulette never "
     "keeps a worst individual while dropping a better one; universal sampling keeps everyone whose share "
     "exceeds one pointer interval. These hold for both optimisation directions.",
     ["inputs", "configurations", "histories"],
     "all populations, parameters, directions and random draws",
     "No test observes a selection step.",
     [GEN + "SOGASelecters.hpp"],
     [("SOGASelector specialisations", GEN + "SOGASelecters.hpp")],
     ["population() before and after selection"],
     TECH, "model_checking", TRACE_NOTE)

prop("S03", "The reported best individual, fail count and record are the true ones",
     "After each selection the reported best individual is a living member of the population, has the best "
     "fitness in it, and its fitness, decision variable and record entry agree. The fail count is the number "
     "of consecutive generations without strict improvement of that best; with truncation or elite "
     "reservation the recorded best never gets worse.",
     ["inputs", "histories", "configurations"],
     "all methods, directions, populations with ties, infinite values, lost and replaced bests, repeated runs",
     "Tests print the result; a stale or dangling best or a miscounted failure is invisible to them.",
     [GEN + "SOGA.hpp", GEN + "SOGASelecters.hpp"],
     [("_bestGene / updateFailTimesAndBestGene", GEN + "SOGA.hpp")],
     ["bestGene()", "bestFitness()", "result()", "failTimes()", "record()"],
     TECH, "model_checking", TRACE_NOTE)

prop("M01", "Multi-objective selection fills the population by dominance order",
     "NSGA2 and NSGA3 selection leaves exactly the configured number of individuals when there are more, "
     "keeps every group of equally dominated individuals that fits as a whole in order of how many others "
     "dominate them, cuts at most one group, and keeps nobody from later groups. So no dropped individual "
     "dominates a surviving one.",
     ["inputs", "configurations", "histories"],
     "2, 3, 4 and runtime-many objectives, both directions for NSGA2, ties and duplicates, any population",
     "Tests only plot or print fronts; a wrongly ranked survivor is not noticed.",
     GA_FILES, [("non-dominated sorting", GEN + "NSGABase.hpp"), ("selection", GEN + "NSGA2.hpp, " + GEN + "NSGA3Abstract.hpp")],
     ["population() before and after selection"],
     TECH, "model_checking", TRACE_NOTE)

prop("M02", "The reported Pareto front and ideal point are those of the population",
     "After each selection the reported front consists of exactly the non-dominated individuals when they all "
     "fit into the population and of the survivors otherwise; the front as objective values and as pairs with "
     "decision variables describes the same individuals; a re-initialised solver has none. The ideal point and its record entries hold the best "
     "value of each objective over the population.",
     ["inputs", "configurations", "histories"],
     "2, 3, 4 and runtime-many objectives, directions, ties, duplicates, any generation",
     "Tests write the front to a file without comparing it with the population.",
     [GEN + "MOGAAbstract.hpp", GEN + "NSGABase.hpp", GEN + "NSGA2.hpp", GEN + "NSGA3Abstract.hpp"],
     [("updatePF", GEN + "NSGABase.hpp"), ("paretoFront(), bestFitness()", GEN + "MOGAAbstract.hpp")],
     ["pfGenes()", "paretoFront()", "bestFitness()", "record()"],
     TECH, "model_checking", TRACE_NOTE)

prop("M03", "NSGA2 cuts the last group by crowding distance",
     "Among the individuals of the group that does not fit, NSGA2 keeps those with the larger crowding "
     "distance - the sum over objectives of the gap between neighbours divided by the objective's range, "
     "infinite at the ends - so no dropped one is more isolated than a kept one.",
     ["inputs", "configurations", "histories"],
     "any number of objectives, both directions, any population without ties in an objective (with ties the "
     "neighbour is not unique)",
     "Diversity loss is a gradual effect no assertion in the tests measures.",
     [GEN + "NSGA2.hpp"], [("congestion computation and sorting", GEN + "NSGA2.hpp")],
     ["population() before and after selection"],
     TECH, "model_checking", TRACE_NOTE)

PSO_FILES = [PSO + "PSOAbstrcat.hpp", PSO + "PSO4Eigen.hpp", PSO + "PSO4std.hpp", PSO + "PSO.hpp"]
prop("P01", "A particle swarm never forgets its bests and stops when told",
     "Every generation of a swarm run evaluates each particle exactly once at the position it has. A particle's "
     "personal best is the best position it has ever been evaluated at, the global best is the best of all "
     "personal bests, both together with the fitness found there, and both are replaced only by strictly "
     "better ones. The run ends when the generation limit is passed or the global best failed to improve for "
     "more than the configured number of consecutive generations; generation(), failTimes() and record() "
     "tell exactly that story, and a second run starts counting afresh while it keeps the bests.",
     ["inputs", "configurations", "histories", "schedules"],
     "every variable type (Eigen fixed, dynamic and matrix shaped, std::array, std::vector), box shape, "
     "direction, option values, objective function, thread number and sequence of configure/initialise/run",
     "Tests run one swarm and print its result; they do not follow bests through the generations.",
     PSO_FILES, [("update of personal and global bests", PSO + "PSO4Eigen.hpp, PSO4std.hpp __impl_updatePGBest()"),
                 ("run loop", PSO + "PSOAbstrcat.hpp __impl_run()")],
     ["population()", "globalBest()", "generation()", "failTimes()", "record()", "fitness callback calls"],
     TECH, "model_checking", TRACE_NOTE)

prop("P02", "Particles stay in their box and move by the swarm's law",
     "At every moment all particle positions are inside the configured box and all velocities within the "
     "configured maximum, in each dimension. A move keeps the inertia share of the old velocity and adds a "
     "random share (between none and all, one random factor for the whole vector, the two factors drawn "
     "independently) of the learning factors times the distances to the personal and to the global best; the "
     "new position is the old one plus the clamped velocity, clamped to the box.",
     ["inputs", "configurations", "histories"],
     "every variable type, square and rectangle boxes, inertia and learning factors, velocity limits, positions "
     "reached in any run",
     "A swarm that leaves its box in one dimension or ignores one of its attractors still converges on the "
     "test function.",
     PSO_FILES + [PSO + "BoxWithVelocity.hpp"],
     [("velocity and position update", PSO + "PSO4Eigen.hpp, PSO4std.hpp __impl_updatePopulation()"),
      ("clamping", PSO + "BoxWithVelocity.hpp")],
     ["population() positions and velocities, generation by generation"],
     TECH, "model_checking", TRACE_NOTE + " Positions are compared in fixed point (1/256), so laws hold up to rounding.")

AOS_FILES = [AOS + "AOS.hpp", AOS + "AOSBase.hpp", AOS + "AOSBoxed.hpp", AOS + "AOS4EigenAndStd.hpp"]
prop("A01", "Atomic orbital search keeps its best electrons and stops when told",
     "Every electron is evaluated exactly once; each generation keeps the best electronNum of all electrons, "
     "so the best energy never gets worse and bestElectron() always is a living electron with the best energy. "
     "The early-stop counter counts consecutive generations without a change of the best energy. The run ends "
     "when the generation or early-stop limit is reached, records one best energy per generation, and every "
     "survivor otherwise emits exactly one child. A later run() continues where the previous one stopped.",
     ["inputs", "configurations", "histories", "schedules"],
     "every variable type and box (square, rectangle, gaussian), direction, option values, energy function with "
     "any ties, thread number, sequence of configure/initialise/run",
     "The only test runs one optimisation and prints the result.",
     AOS_FILES, [("selection and bookkeeping", AOS + "AOS.hpp, AOSBase.hpp"), ("evaluation", AOS + "AOSBoxed.hpp")],
     ["electrons()", "bestElectron()", "generation()", "earlyStopCounter()", "record()", "fitness callback calls"],
     TECH, "model_checking", TRACE_NOTE)

prop("A02", "Atomic orbital search layers its electrons and moves them by the atom's law",
     "The layers partition the surviving electrons from best to worst into at most maxLayerNum non-empty "
     "layers whose populations follow a normal curve. Binding state and energy of the atom and of each layer are "
     "the averages over its electrons, and the layer's best electron is its best. With photons (never when the photon rate is "
     "one, always when it is zero) a child moves by a random factor times the difference of random shares of a "
     "best state and a binding state: those of its layer if its parent is better than the layer average, "
     "otherwise those of the atom divided by the layer number; without photons it moves by at most delta in "
     "each dimension. Children are clamped to the box.",
     ["inputs", "configurations", "histories"],
     "every variable type and box, photon rate, layer limit, population reached in any run",
     "A wrong average, layer or attractor does not stop the test's run from converging.",
     AOS_FILES, [("averages and movement", AOS + "AOS4EigenAndStd.hpp"), ("layers", AOS + "AOS.hpp")],
     ["layers()", "bindingState()", "bindingEnergy()", "electrons()", "generation by generation"],
     TECH, "model_checking", TRACE_NOTE + " States are compared in fixed point (1/256).")

prop("R01", "The same random stream gives the same run on any machine load",
     "With the shared random engine seeded alike and the same user functions and options, every solver makes "
     "the same moves in the same order: the same individuals, evaluations, selections, bests, records and "
     "generation counts, whatever the number of worker threads, the addresses the process happens to use, what "
     "ran before in the process, and whether OpenMP is compiled in. Only the order of fitness evaluations "
     "inside one generation may differ.",
     ["schedules", "configurations", "inputs"],
     "every solver, thread numbers 1, 2, 3, 8 and a build without OpenMP, separate processes, scenarios in another "
     "order, many options and seeds",
     "Tests never compare two runs; a dependence on the schedule or on addresses needs two environments to show.",
     GA_FILES + PSO_FILES + AOS_FILES + [GLO + "Randoms.hpp", GLO + "Threading.hpp"],
     [("parallel loops", GEN + "GABase.hpp calculateAll(), " + PSO + "PSO4Eigen.hpp, " + AOS + "AOSBoxed.hpp"),
      ("shared random engine", GLO + "Randoms.hpp"), ("hash containers keyed by address", GEN + "SOGASelecters.hpp, NSGA3Abstract.hpp")],
     ["complete histories of runs in different environments"],
     "TLA+ self-composition (Twin.tla): TLC checks recorded pairs of histories for lockstep equality",
     "model_checking", "Pairs of recorded histories are accepted or rejected by TLC. Covers the environments listed.")

ADT_TECH = "TLA+ specification; TLC generates operation histories (exhaustive and simulated) that are replayed in the real class, and checks what was observed"
ADT_NOTE = ("Histories up to the stated depth are enumerated (a share of them per quick run) or simulated by TLC, replayed under "
            "AddressSanitizer and UBSan, and the observations checked by TLC against the same specification.")
prop("D01", "A multiBitSet is a sequence of N-bit integers under every operation",
     "Whatever sequence of construction, push, pop, assignment by value or between proxy references, fill, "
     "resize, reserve, shrink, clear, copy and move is applied, a multiBitSet reads, through indices, "
     "iterators, const access, front and back, as exactly the sequence a vector of N-bit unsigned integers "
     "would hold: no neighbouring element changes when an element straddles two blocks, values are cut to N bits, new "
     "elements are zero, copies are independent. Capacity and block count agree with each other, are enough "
     "for the size, grow on reserve and are minimal after shrink_to_fit. No access leaves its memory.",
     ["histories", "inputs"],
     "every element width, every block type, sequences of operations of any length on several sets",
     "The class has no test at all; straddling elements need particular widths, sizes and histories.",
     [MAT + "MultiBitSet.hpp"],
     [("bit packing", MAT + "MultiBitSet.hpp operator[], bitset reference proxy"),
      ("memory", MAT + "MultiBitSet.hpp resize(), reserve(), shrink_to_fit(), copy and move")],
     ["at, [], iterators, front, back, size, capacity, blocks after each operation"],
     ADT_TECH, "model_checking", ADT_NOTE)

prop("D02", "Matrices hold what was written, wherever shape, assignments and moves lead",
     "MatrixDynamicSize, MatrixFixedSize and MatrixMap hold column-major r by c elements: after any sequence of "
     "construction, resize, reserve, fill, element writes, assignments within and between the three kinds, "
     "copies and moves, every way of reading (linear, row and column, iterators, data pointer, const or "
     "not) gives the last value written to each element. A resize that keeps the number of elements keeps "
     "them; a map writes through to its buffer and never beyond it; reserve provides the capacity asked for "
     "and keeps the contents; a moved-from matrix is empty. Elements of class type are constructed before "
     "use and destroyed exactly once.",
     ["histories", "inputs"],
     "scalar and class element types, shapes including empty ones, sequences of operations of any length",
     "Tests use one type and shape in one order; memory errors need a history of shapes.",
     [MAT + "MatrixBase.hpp", MAT + "MatrixDynamicSize.hpp", MAT + "MatrixFixedSize.hpp", MAT + "MatrixMap.hpp"],
     [("assignment", MAT + "MatrixBase.hpp operator="), ("memory", MAT + "MatrixDynamicSize.hpp resize(), reserve()")],
     ["rows, cols, size, capacity and every element by every access path after each operation",
      "constructor and destructor counts"],
     ADT_TECH, "model_checking", ADT_NOTE)

prop("M04", "NSGA3 reference points are the complete lattice the precision asks for",
     "After initializePop() the reference points are exactly the points of the Das-Dennis lattice with the "
     "configured precision (all compositions of the precision into one part per objective, divided by the "
     "precision), each once; with two layers, the outer lattice and the inner lattice shrunk by one over root two. "
     "referencePointCount() is their number. Changing the precision takes effect at the next initializePop() "
     "and not before.",
     ["configurations", "histories"],
     "every number of objectives, static or dynamic, one or two layers, every precision, any order of "
     "setting, initialising and running",
     "The tests only run the solver with one precision and look at the front.",
     [GEN + "NSGA3Base.hpp", GEN + "NSGA3Abstract.hpp", GLO + "HeuMaths.hpp"],
     [("lattice", GEN + "NSGA3Abstract.hpp pri_makeRP()"), ("layers and count", GEN + "NSGA3Base.hpp makeReferencePoses(), referencePointCount()")],
     ["referencePoints()", "referencePointCount()"],
     TECH, "model_checking", TRACE_NOTE + " Coordinates are compared to 2e-6.")

prop("M05", "NSGA3 fills the last places from the least crowded niches",
     "When only part of the cut front fits, the individuals are normalised by the ideal point and the "
     "intercepts of the plane through the extreme points (or the largest values if there is no such plane), "
     "each is associated with a nearest reference line, and places are filled one at a time from a niche that "
     "is least crowded among those that still have candidates; an empty niche takes its nearest candidate "
     "first. The reference point a survivor reports is a nearest one.",
     ["inputs", "histories", "configurations"],
     "every number of objectives, precision, layering, population size and population reached in any run",
     "A wrong association or niche count still yields K survivors from the right fronts, and a front that looks plausible.",
     [GEN + "NSGA3Abstract.hpp"],
     [("normalisation", GEN + "NSGA3Abstract.hpp normalize()"), ("association", GEN + "NSGA3Abstract.hpp findNearest(), associate()"),
      ("niche preservation", GEN + "NSGA3Abstract.hpp nichePreservation()")],
     ["population() before and after selection", "closestRefPoint of each survivor", "referencePoints()"],
     TECH, "model_checking", TRACE_NOTE + " All geometry is done in exact integers, objective values are small integers.")

LAW_TECH = "TLA+ specification of the probability of every outcome, evaluated by TLC against outcome counts of the real code (six standard deviations, fixed seeds)"
LAW_NOTE = ("The laws are checked by TLC to be distributions that prefer the better and treat equals equally, for all small "
            "populations; the real code is sampled (1e5 repetitions per case) and TLC compares every outcome's count "
            "with its probability. A bias below about 1 percent of the repetitions is not detected.")
prop("S04", "Each selection method chooses survivors with the documented probabilities",
     "Roulette, probability, linear rank, exponential rank, Boltzmann, Monte Carlo and elite selection draw "
     "survivors without replacement with probabilities proportional to the weight the method documents "
     "(distance from the worst, its K-fold binomial transform, linear or exponential in the rank, exponential in the "
     "fitness, constant; the elite for certain); a tournament is won by the best of a uniformly random "
     "group; universal sampling takes each individual in proportion to its distance from the worst. "
     "Individuals of equal fitness have equal chances wherever they stand in the population and however large it is.",
     ["inputs", "configurations", "schedules"],
     "every method, direction, parameter, population size and vector of fitness values, over the random stream",
     "Tests only look at whether a run converges; a skewed wheel still converges.",
     [GEN + "SOGASelecters.hpp", GLO + "Enumerations.hpp", GLO + "Randoms.hpp"],
     [("selection methods", GEN + "SOGASelecters.hpp"), ("documentation of the laws", GLO + "Enumerations.hpp SelectMethod")],
     ["survivors of many repeated selections of the same population"],
     LAW_TECH, "model_checking", LAW_NOTE)

prop("G04", "Crossover and mutation involve the share of individuals the options ask for",
     "Every survivor independently takes part in crossover with probability crossoverProb and partners are "
     "matched uniformly at random (if an odd number takes part, a random one is left out); every individual "
     "then alive, children included, independently is the source of a mutant with probability mutateProb.",
     ["configurations", "schedules"],
     "every population size, both probabilities including zero and one, over the random stream",
     "A test cannot see a wrong rate or biased partners in a single converging run.",
     [GEN + "GABase.hpp"],
     [("variation", GEN + "GABase.hpp __impl_crossover(), __impl_mutate()")],
     ["parents and sources passed to the crossover and mutation callbacks over many runs"],
     LAW_TECH, "model_checking", LAW_NOTE)

EAG = "HeuristicFlow/src/EAGlobal/"
BOX_TECH = "TLA+ state machine of a box (TLC); TLC-driven validation of recorded operation sequences, and TLA+ probability laws against counted draws"
prop("P03", "The random factors of a swarm are uniform and independent",
     "Default initial positions are uniform in the box, independently in every coordinate and for every particle. In "
     "every move each particle draws two factors, for its personal and for the global best, uniform between 0 and 1 "
     "and independent of each other, of those of the other particles and of those of other generations.",
     ["inputs", "configurations", "schedules"],
     "every variable type, box shape and direction, population sizes, learning factors, over the random stream",
     "Tests see one run; a swarm whose factors are skewed or shared still moves.",
     PSO_FILES + [GLO + "Randoms.hpp"],
     [("initial positions", PSO + "PSOAbstrcat.hpp defaultInitialize()"),
      ("factors", PSO + "PSO4Eigen.hpp, PSO4std.hpp __impl_updatePopulation()")],
     ["positions after many initialisations", "factors computed from positions and velocities of many moves"],
     LAW_TECH, "model_checking", "Factors are recovered from observed velocities; cells of a uniform number are "
     "eighths, quarters in pairs. Counts as in S04.")

prop("A03", "Electrons move, jump and are layered at the configured rates",
     "Default initial states are uniform in the box (normal with the given mean and deviation in an unbounded "
     "box), independently in every coordinate and electron. The number of layers is drawn uniformly from 1 to "
     "maxLayerNum. Every electron, in whatever layer, makes a small step instead of a photon move with "
     "probability photonRate, independently of the others. The small step is uniform within delta in every "
     "coordinate; the shares of the pulls in a photon move are products of two independent uniform numbers, "
     "divided by the number of the layer where the parent is weaker than its layer; all independent between coordinates "
     "and electrons.",
     ["inputs", "configurations", "schedules"],
     "every variable type, box and direction, population sizes, photon rates, layer limits, over the random stream",
     "Tests see one run; a search that takes the wrong kind of move most of the time still converges.",
     AOS_FILES + [GLO + "Randoms.hpp", EAG + "BoxConstraint.hpp"],
     [("kind of move", AOS + "AOSBase.hpp __impl_updateElectrons()"),
      ("moves", AOS + "AOS4EigenAndStd.hpp"), ("number of layers", AOS + "AOS.hpp __impl_selectAndMakeLayers()")],
     ["states after many initialisations", "moves of many electrons whose attractors are known"],
     LAW_TECH, "model_checking", "Pulls are observed with one attractor at zero and the other at one. Counts as in S04.")

prop("B01", "A box keeps its settings, every point stays inside, draws and steps fit it",
     "For every box (square or rectangle, discrete, boolean, continuous, Gaussian, with velocity; std and Eigen "
     "containers; fixed or runtime size; integer and floating-point scalars; range given by template argument or at run time): what was set as minimum, maximum, "
     "step, learning rate and dimensions is what it reports, per dimension, and setting one does not disturb another; "
     "initialize() yields values inside [min,max] of every dimension, with every integer of a discrete box equally likely "
     "(also when the range is wide or ends at a limit of the type) and continuous values uniformly spread; "
     "applyConstraint() moves a value outside to the nearest border and leaves the others alone; applyDelta() changes only one "
     "dimension, by at most the delta of that dimension for continuous boxes, by at most one for integers (a boolean flips), never leaving the box.",
     ["inputs", "configurations", "histories"],
     "every box type, scalar type and container, every range including the limits of the type, every value handed in, sequences of configuration calls",
     "Tests construct a few boxes and print; borders at type limits, rare values and order of configuration need enumeration.",
     [EAG + "BoxConstraint.hpp", EAG + "SizeBody4BoxConstraint.hpp", PSO + "BoxWithVelocity.hpp"],
     [("range, initialisation, constraint, delta", EAG + "BoxConstraint.hpp"),
      ("velocity", PSO + "BoxWithVelocity.hpp")],
     ["accessors of the box and the vectors it fills, after each operation; counts of drawn values"],
     BOX_TECH, "model_checking",
     "Uniformity is decided by counting 1e5 draws per case (six standard deviations, fixed seeds). Ranges whose width overflows a floating-point type are not claimed.")

prop("V01", "Shipped crossover, mutation and initialisation operators do what they promise",
     "The operators of GADefaults: the continuous crossover (cFunNd, cFunXd) yields the two weighted means of the "
     "parents with the given ratio, complementary to each other; the swap crossover exchanges everything behind one cutting point, chosen uniformly; the "
     "random crossover takes each element from either parent with the given probability, both children independently mixing the parents' elements; "
     "initialisers fill every element within the range, or, with a box argument, within the box; "
     "mutators change exactly one element, chosen uniformly, by at most the box's delta and without "
     "leaving the box. Parents are not changed, children have the parents' size, for every "
     "container, scalar type and solver argument form.",
     ["inputs", "configurations"],
     "every container and scalar type, fixed and runtime sizes, ratios, parents and boxes, over the random stream",
     "Tests use two of the operators in converging runs; a child with one element from the wrong parent still converges.",
     [GEN + "Miscellaneous4GA.hpp", EAG + "BoxConstraint.hpp"],
     [("operators", GEN + "Miscellaneous4GA.hpp GADefaults")],
     ["parents before and after, and children, of each operator call; counts of cutting points and origins"],
     BOX_TECH.replace(" of a box", " of the operators"), "model_checking",
     "Counts as in B01. Two-dimensional Eigen matrices with the operators documented for vectors only do not compile and are not covered.")

prop("E01", "Numbers passed as template arguments come back as the same numbers",
     "encode() gives the IEEE 754 code of every double and float (normal, subnormal, zero of either sign, infinite; not-a-number stays so) "
     "and decode() gives back exactly the encoded number, at compile time as at run time. DivEncode/DivDecode keep numerator and denominator and give "
     "their correctly rounded quotient; the named constants (DivCode_Pi and so on) are what their names say to double precision. "
     "PowEncode/PowDecode denote d.ddd x 10^p: numbers equal in that notation have equal codes, different ones different codes, "
     "and the decoded number is right to 13 digits, for all significands up to 16 digits and powers up to 255.",
     ["inputs"],
     "all exponents, mantissas and signs of both types; all fractions; all significands and powers",
     "The test prints a few numbers; carries, subnormals and overflows need particular patterns.",
     [GLO + "ConvertDoubleAndBinCode.hpp", GLO + "TemplateFloat.hpp"],
     [("binary codes", GLO + "ConvertDoubleAndBinCode.hpp encode(), decode()"), ("decimal codes and fractions", GLO + "TemplateFloat.hpp")],
     ["codes and decoded numbers"],
     "TLA+ definition of the number formats (walked exhaustively by TLC for a small format), with exact integers of any size; "
     "TLC compares every recorded code and number", "model_checking",
     "All exponents of float and a sample (thorough: all) of double's with telling mantissas; several hundred generated template arguments.")

prop("N01", "Numeric helpers and the random source do what they say on their whole range",
     "fractorial and NchooseK are exact as long as result (and for NchooseK the product of one step) fit the type; min, max, minmax, sign, square of any "
     "number of arguments; gaussianCurve is the normal density; isStrongDominate is Pareto dominance (no worse anywhere, better somewhere, for either "
     "direction, with infinities), fixed or runtime number of objectives. LogisticChaos goes through x -> 4x(1-x), the same values whether "
     "called, iterated or written as a sequence, and continues where it stopped. randD, randF, randIdx stay inside their ranges (randIdx never "
     "gives its upper bound, for any integer type) and are uniform; normD and normF are normal with the given mean and deviation. "
     "The thread number is what was set last; enumerators have distinct names.",
     ["inputs", "histories"],
     "all arguments and types, sequences of calls on one device, the random stream",
     "Only minmax at compile time is tested.",
     [GLO + "HeuMaths.hpp", GLO + "Randoms.hpp", GLO + "LogisticChaos.hpp", GLO + "Threading.hpp", GLO + "Enumerations.hpp", EAG + "Pareto.hpp"],
     [("combinatorics, extremes", GLO + "HeuMaths.hpp"), ("random numbers", GLO + "Randoms.hpp"), ("dominance", EAG + "Pareto.hpp")],
     ["results of the functions, counts of draws"],
     "TLA+ definitions (dominance laws, binomials and the logistic step model checked by TLC); TLC evaluates every recorded call and count against them",
     "model_checking", "Uniformity of randIdx is claimed for sizes below 2^24 (it draws a float); counts as in S04.")

prop("F01", "Benchmark functions are the published ones for every variable and call form",
     "Each function of testFunctions returns at every point the value of the published formula of its name (Ackley, Beale, Goldstein-Price, Booth, Bukin 6, Matyas, Levy 13, "
     "Himmelblau, three-hump camel, Easom, cross-in-tray, eggholder, Hoelder table, McCormick, Schaffer 2 and 4, Rastrigin, sphere, Rosenbrock, "
     "Styblinski-Tang; Schaffer 1 and 2, Binh-Korn, Chankong-Haimes, Poloni, Viennet, Fonseca-Fleming, Kursawe, DTLZ1-9), the same for fixed and dynamic Eigen arrays, "
     "std::array and std::vector as variables or objectives, with or without an argument, for any number of variables and objectives the function has. Violated constraints "
     "(Binh-Korn, Chankong-Haimes, DTLZ8, DTLZ9) are turned into the penalties written in the code. All forms of call compile.",
     ["inputs"],
     "all points of the domain, all container types, all dimensions",
     "The tests run solvers on a few of them and print the result; a wrong coefficient or branch only changes what is found.",
     [EAG + "SOFunctions.hpp", EAG + "MOFunctions.hpp", EAG + "TestFunctions.hpp"],
     [("one objective", EAG + "SOFunctions.hpp"), ("several objectives", EAG + "MOFunctions.hpp"), ("public entry", EAG + "TestFunctions.hpp testFunctions")],
     ["returned objective values"],
     "TLA+ definition of the functions over exact fixed-point reals (own exp, sin, roots; published optima, Pareto surfaces and the elementary functions model checked by TLC); "
     "TLC evaluates every recorded call against them",
     "model_checking", "Values right to 26 bits (bukin 16). Where the reports leave room the code's reading counts: DTLZ5/6 bend the angles with the squared length of the last "
     "variables, DTLZ8/9 blocks include both ends.")


prop("U01", "A solver uses and reports exactly the settings last made, and nothing else",
     "Every solver starts with the documented defaults (options, selection parameters, reference point precision, no user functions). A setter changes the setting it names on that solver "
     "and no other setting and no other solver; every getter reports what was last set; copying a solver copies all settings and leaves two independent solvers; "
     "initialising or running a solver changes no setting. initializePop calls the current initialise function (PSO also the fitness function) once for each individual "
     "of the configured population and nothing else; run calls only the current fitness, crossover and mutation functions, whether set at run time or given at compile time, always "
     "with the current arguments, as often as the individuals it makes need, however often functions, arguments and options were changed between runs.",
     ["histories", "configurations"],
     "all sequences of setters, copies, initialisations and runs on two solvers of 27 declarations (runtime and compile-time functions, with and without arguments, all "
     "algorithms)",
     "Tests configure a solver once, run it once and print the result.",
     [GEN + "GABase.hpp", GEN + "GAAbstract.hpp", GEN + "GAOption.hpp", GEN + "SOGA.hpp", GEN + "SOGASelecters.hpp", GEN + "MOGABase.hpp", GEN + "NSGA3Base.hpp",
      PSO + "PSOAbstrcat.hpp", PSO + "PSOParameterPack.hpp", PSO + "PSOOption.hpp", AOS + "AOSParameterPack.hpp", AOS + "AOSOption.hpp", GLO + "FunBody.hpp"],
     [("function slots", GLO + "FunBody.hpp"), ("arguments", GEN + "GAAbstract.hpp"), ("options", GEN + "GABase.hpp setOption()"), ("selection parameters", GEN + "SOGASelecters.hpp")],
     ["all getters", "calls of user functions and the arguments they see"],
     "TLA+ state machine of two solvers' configuration; TLC generates random histories, the driver replays them into the real solvers, TLC checks every recorded getter and call count",
     "model_checking", "Copies are initialised before they run. Boxes of PSO and AOS are B01's.")
