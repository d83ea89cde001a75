#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
S = "HeuristicFlow/src/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                     mechanism=[dict(name=a, where=S + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
BOX = "EAGlobal/BoxConstraint.hpp"
GAB = "Genetic/GABase.hpp"
SEL = "Genetic/SOGASelecters.hpp"

p("B01", "Bounded decision variables never leave their declared box",
  "For every kind of box constraint (scalar or per-dimension limits, real, integer or boolean elements, fixed or run-time size), a freshly initialized decision variable has the declared size and every component within its limits. Applying the constraint moves each component to the nearest point of its interval, so components already inside are unchanged, and the one-component form changes only that component. A default mutation of an in-box variable yields an in-box variable.",
  ["inputs", "configurations"], "every box kind, dimension, limit pair min<max, (non-NaN) component value and random draw",
  "The tests print results of a few optimizer runs on fixed boxes; none checks limits for arbitrary values, dimensions or draws.",
  [BOX, "EAGlobal/SizeBody4BoxConstraint.hpp", "Global/Types.hpp", "Global/Randoms.hpp"],
  [("box initialize / applyConstraint / applyDelta", BOX), ("element access", "Global/Types.hpp")],
  [("limits", "lower/upper limit of each component", BOX)],
  ["initialize", "applyConstraint", "applyDelta"])
p("B02", "A default mutation step changes at most one component, by at most its rate",
  "The default mutation of a box-constrained variable keeps its size and leaves all components but at most one bit-for-bit unchanged. For continuous boxes the changed component moves by at most the learning rate declared for that component (up to the rounding of that one sum), for integer boxes by at most one, and for boolean boxes exactly one component is flipped. When used as the genetic solvers' default mutation operator, the child is such a step away from its source and the source is unchanged.",
  ["inputs", "configurations"], "every box kind, dimension, rate, in-box variable and random draw",
  "No test compares a mutated variable with its source.",
  [BOX, "Genetic/Miscellaneous4GA.hpp"],
  [("applyDelta", BOX), ("default mutation operator", "Genetic/Miscellaneous4GA.hpp")],
  observe=["applyDelta", "default mutation operator"])
p("V01", "Default crossover operators only recombine the two parents",
  "Arithmetic crossover with ratio r gives, in every component, r*a+(1-r)*b to the first child and r*b+(1-r)*a to the second; one-point and uniform crossover give each child, in every component, the value one of the two parents has there, one-point crossover being complementary with a single cut. The parents are not modified, all components of both children are written, and the run-time-sized variants give the children the parents' size. Uniform crossover takes the first child's component from the first parent exactly when its random draw falls below the configured probability.",
  ["inputs", "configurations"], "every decision variable size, container kind, ratio, parent values and random draw",
  "Tests run whole optimizations and never look at a single crossover result.",
  ["Genetic/Miscellaneous4GA.hpp", "Global/TemplateFloat.hpp"],
  [("default crossover operators", "Genetic/Miscellaneous4GA.hpp")], observe=["default crossover operators"])
p("G01", "Every recorded fitness is the objective value of its own decision variable",
  "After each evaluation pass of a genetic solver every individual is marked evaluated and its fitness is the objective function's value at its current decision variable. An individual is evaluated exactly once for its decision variable: already evaluated individuals are neither re-evaluated nor altered by the pass, and every newly initialized, crossed or mutated individual is marked unevaluated.",
  ["inputs", "histories", "schedules"], "every population content, mixture of evaluated/unevaluated individuals, number of threads and order of evaluation",
  "Tests use one population history and look only at printed final fitness; a stale or skipped evaluation goes unnoticed.",
  [GAB, "Genetic/DefaultGeneType.hpp", "Genetic/MOGABase.hpp"],
  [("fitness pass", GAB), ("population initialization, crossover, mutation", GAB)],
  [("evaluated flag", "fitness is valid for the decision variable", "Genetic/DefaultGeneType.hpp")],
  ["population()"])
p("G02", "Breeding only adds offspring and never alters existing individuals",
  "Crossover and mutation of a genetic solver leave every individual already in the population in place and unchanged (decision variable, fitness and evaluation state) and only append offspring. Crossover appends exactly two children per disjoint pair of parents drawn from the individuals present before the step, so an even number not above the population size; mutation appends one child per mutated individual, at most doubling the population. Each operator call receives two different existing parents (one for mutation) and fresh children.",
  ["inputs", "histories"], "every population size, probabilities and random draws",
  "No test inspects the population between operators.",
  [GAB], [("crossover", GAB), ("mutation", GAB)], observe=["population()"])
p("G03", "Runs end exactly when the configured limits say so",
  "A run of any genetic or particle-swarm solver performs generations until the configured maximum has been completed or, if a positive failure limit is set, until more consecutive non-improving generations than that limit have occurred, and it stops at the first generation where either holds. Afterwards the generation count never exceeds the configured maximum, it equals the number of breeding or movement rounds performed, and with recording on the record holds exactly one best fitness per evaluated generation in order. The atomic-orbital solver likewise stops at the first round in which its generation or early-stop limit is reached, and every run terminates.",
  ["configurations", "histories"], "every limit setting (including 0) and every history of improving/non-improving generations",
  "Tests run with one option set and never check counters or record length.",
  [GAB, "PSO/PSOAbstrcat.hpp", "AOS/AOSBase.hpp"],
  [("GA run loop", GAB), ("PSO run loop", "PSO/PSOAbstrcat.hpp"), ("AOS run loop", "AOS/AOSBase.hpp")],
  [("generation / fail counters", "progress of the run", GAB)], ["generation()", "failTimes()", "record()"])
p("S01", "Single-objective selection always leaves a legal population",
  "For each of the ten selection methods, selection leaves exactly min(size before, configured population size) individuals. Each survivor is an individual from before with its content unchanged (tournament selection may additionally append exact copies of survivors), survivors keep their order, no individual is removed twice or used after removal, and selection terminates. Truncation keeps only individuals at least as good as every discarded one, and elite-preserving selection keeps its configured number of best individuals.",
  ["inputs", "configurations"], "every population size, finite fitness values (equal and negative ones included), legal method parameters (elite count at most, tournament size below the population size) and random draws",
  "Tests exercise few methods and never check size or membership after selection.",
  [SEL, "Genetic/SOGA.hpp"], [("ten selection methods", SEL)],
  [("population", "list of individuals", GAB)], ["population()"])
p("S02", "The reported single-objective best is the true best of the population",
  "After every selection of the single-objective solver the reported best individual is a living member of the population and no member is better in the configured direction. The failure counter becomes zero exactly if the new best is strictly better than the best reported before, and otherwise grows by one. Under truncation and elite-preserving selection the reported best fitness never gets worse.",
  ["inputs", "histories", "configurations"], "every population with finite fitness, direction, selection method, legal parameter and random draw",
  "Tests print the best found once; dangling or non-best results are not detected.",
  ["Genetic/SOGA.hpp", SEL], [("best tracking", "Genetic/SOGA.hpp")],
  [("best individual", "reported result", "Genetic/SOGA.hpp"), ("fail counter", "consecutive failures", GAB)],
  ["bestGene()", "bestFitness()", "result()", "failTimes()"])
p("M01", "Pareto dominance is exactly the definition, a strict partial order",
  "One objective vector dominates another exactly when it is no worse in every objective and strictly better in at least one, in the configured direction. Dominance is therefore irreflexive, asymmetric and transitive for all vectors of every fixed or run-time number of objectives.",
  ["inputs", "configurations"], "all pairs/triples of non-NaN vectors, both directions, every objective count",
  "No test calls dominance directly.",
  ["EAGlobal/Pareto.hpp"], [("dominance test", "EAGlobal/Pareto.hpp")], observe=["dominance test"])
p("M02", "Multi-objective ranking and reported Pareto front are exact",
  "In every multi-objective selection each individual's rank is exactly the number of members dominating it, and the layers partition the population by rank in increasing order. The reported front consists of distinct living members of the population: it is exactly the set of non-dominated members when these fit into the configured population size, and otherwise exactly the population kept. The reported best fitness is the componentwise best over the population.",
  ["inputs", "configurations", "schedules"], "every population, objective count, direction and thread schedule",
  "Tests print the front without comparing it with the definition.",
  ["Genetic/NSGABase.hpp", "Genetic/MOGAAbstract.hpp", "Genetic/NSGA2.hpp", "Genetic/NSGA3Abstract.hpp"],
  [("domination count / layers / front update", "Genetic/NSGABase.hpp")],
  [("domination count", "number of dominators", "Genetic/DefaultGeneType.hpp")], ["pfGenes()", "paretoFront()", "bestFitness()"])
p("N01", "NSGA-II keeps the best ranks and the least crowded of the cut rank",
  "NSGA-II selection leaves exactly the configured number of individuals, all of them unaltered members from before (decision variable and fitness). No discarded individual has a smaller domination count than a kept one. Among the individuals of the one rank that is only partly kept, no discarded one has a larger crowding distance than a kept one, where crowding sums over objectives the normalized gap between an individual's neighbours and is infinite at the extremes.",
  ["inputs", "configurations"], "every population with at least the configured size, objective count and direction",
  "Tests only print final fronts.",
  ["Genetic/NSGA2.hpp", "Genetic/NSGABase.hpp"], [("selection", "Genetic/NSGA2.hpp")], observe=["population()"])
p("N02", "NSGA-III keeps the best ranks and fills the cut rank by niching",
  "NSGA-III selection leaves exactly the configured number of individuals, all of them unaltered members from before, terminates, and no discarded individual has a smaller domination count than a kept one. When only part of a rank fits, each additional individual is taken from that rank, every considered individual having been associated with its perpendicularly nearest reference direction, by serving a direction with the fewest members so far that still has candidates: its nearest candidate if it has no member yet, any candidate otherwise.",
  ["inputs", "configurations"], "every population with at least the configured size (at least 1), objective count, reference set and random draws; nearest-direction clause for non-degenerate objective normalisations",
  "Tests only print final fronts.",
  ["Genetic/NSGA3Abstract.hpp", "Genetic/NSGA3Base.hpp"],
  [("selection, association, niche preservation", "Genetic/NSGA3Abstract.hpp")], observe=["population()"])
p("N03", "Reference directions are complete, distinct and on the unit simplex",
  "For M objectives and precision p the generated reference directions are exactly the C(p+M-1,p) distinct vectors whose components are non-negative multiples of 1/p summing to 1, and the announced number of directions equals the number generated. In the two-layer mode the directions are the union of both layers' sets, the inner one scaled by 1/sqrt(2).",
  ["configurations"], "every objective count and precision >= 1 whose direction count fits in memory",
  "One test prints the points of one configuration.",
  ["Genetic/NSGA3Abstract.hpp", "Genetic/NSGA3Base.hpp", "Global/HeuMaths.hpp"],
  [("reference point generation", "Genetic/NSGA3Abstract.hpp"), ("binomial coefficient", "Global/HeuMaths.hpp")],
  observe=["referencePoints()", "referencePointCount()"])
p("P01", "Particles never leave the search range nor exceed the velocity limit",
  "After default initialization and after every movement round of the particle-swarm solver, each component of each particle's position lies within the configured range and each velocity component's magnitude is at most the configured limit, for scalar and per-dimension limits, fixed- and run-time-size variables, and any learning factors. Default-initialized velocities are zero and sizes equal the configured dimension. A movement round computes velocity = inertia*v + cP*rP*(own best - x) + cG*rG*(global best - x), clamps it, adds it to the position and clamps the position.",
  ["inputs", "configurations", "histories"], "every dimension, limits, options, population state and random draw",
  "Tests only print final results; no test inspects positions or velocities.",
  ["PSO/PSO4Eigen.hpp", "PSO/PSO4std.hpp", "PSO/BoxWithVelocity.hpp", "PSO/PSOAbstrcat.hpp"],
  [("range constraint", "PSO/BoxWithVelocity.hpp"), ("movement", "PSO/PSO4Eigen.hpp")],
  [("position/velocity limits", "configured range", "PSO/BoxWithVelocity.hpp")], ["population()"])
p("P02", "Personal and global bests never get worse and are true bests",
  "After each best-update round every particle's personal best is the better of its previous personal best and its current point, and the global best is the better of its previous value and all personal bests, each stored as a matching position/fitness pair. The failure counter is reset to zero exactly if the global best strictly improved and otherwise grows by one.",
  ["inputs", "histories", "configurations"], "every swarm state and fitness history, both directions",
  "Tests print the final best only.",
  ["PSO/PSO4Eigen.hpp", "PSO/PSO4std.hpp", "PSO/PSOAbstrcat.hpp"],
  [("best update", "PSO/PSO4Eigen.hpp")], [("personal/global best", "memory of the swarm", "PSO/PSOAbstrcat.hpp")],
  ["globalBest()", "population()", "failTimes()"])
p("A01", "Atomic-orbital search keeps its electrons bounded and keeps the best ones",
  "Every electron of the atomic-orbital solver stays inside the box at all times. After each selection exactly min(electrons before, configured number) electrons remain, none of the removed ones is better than a kept one, kept ones are unaltered, and the reported best electron is a living member that no other beats. The non-empty layers contain every kept electron exactly once, ordered from best to worst across and within layers, and there are at most the configured number of layers.",
  ["inputs", "configurations", "histories"], "every electron set, energies (finite, ties included), layer count and random draw",
  "The one AOS test prints a result.",
  ["AOS/AOS.hpp", "AOS/AOSBase.hpp", "AOS/AOS4EigenAndStd.hpp", "AOS/AOSBoxed.hpp"],
  [("selection and layering", "AOS/AOS.hpp"), ("photon effect", "AOS/AOS4EigenAndStd.hpp")],
  [("electron list / layers", "population", "AOS/AOSBoxed.hpp")], ["electrons()", "layers()", "bestElectron()"])
p("A02", "Binding states and energies are the means the algorithm is defined by",
  "The atom's binding state and energy are the arithmetic means of all electrons' states and energies, and each layer's binding state and energy the means over its members. The atom's and each layer's best electron are members with the best energy in the configured direction. The early-stop counter grows by one exactly when the best energy did not change and is reset otherwise.",
  ["inputs", "configurations"], "every electron set, layer partition, direction and container kind",
  "No test reads binding states or layers.",
  ["AOS/AOS4EigenAndStd.hpp"], [("mean and best computation", "AOS/AOS4EigenAndStd.hpp")],
  observe=["bindingState()", "bindingEnergy()", "layers()", "earlyStopCounter()"])
p("C01", "Floating-point to code conversion is lossless",
  "Decoding the encoded form of any non-NaN float or double gives back the same value, infinities and subnormals included, and NaN maps to NaN. Encoding yields the IEEE-754 bit pattern of the number (up to the sign of zero), and decoding yields the number with that bit pattern, so constants passed through template parameters are not altered.",
  ["inputs"], "all 2^32 float and 2^64 double bit patterns",
  "One test samples a few random values.",
  ["Global/ConvertDoubleAndBinCode.hpp"], [("encode/decode", "Global/ConvertDoubleAndBinCode.hpp")], observe=["encode", "decode"])
p("C02", "Compile-time rational and decimal constants decode to what was encoded",
  "A fraction encoded as numerator and denominator decodes to the same signed numerator, unsigned denominator and quotient. A decimal encoded as significand and power of ten decodes, to within a relative error of 1e-12, to its leading digits read as d.ddd... times that power, with the right sign, for every legal significand (below 10^16) and power. The named constants decode to their mathematical values within 1e-9.",
  ["inputs", "programs"], "all legal template arguments",
  "One test prints three constants.",
  ["Global/TemplateFloat.hpp"], [("DivEncode/PowEncode", "Global/TemplateFloat.hpp")], observe=["decoded constants"])
p("C03", "Packed bit containers behave like arrays of small unsigned numbers",
  "For every element width from 1 to 64 bits and every block type at least that wide, reading an element returns the value last written there reduced to the width, and writing, appending, removing, growing, reserving, shrinking or copying never changes any other element. Elements of a container constructed with a size are zero, size and capacity are consistent, copies are independent, and no access leaves the allocated storage.",
  ["inputs", "histories", "configurations"], "every width, block type, size, index, value and operation history",
  "The one test uses one width and a few operations.",
  ["SimpleMatrix/MultiBitSet.hpp"], [("element get/set", "SimpleMatrix/MultiBitSet.hpp"), ("growth", "SimpleMatrix/MultiBitSet.hpp")],
  [("packed storage", "bits of all elements", "SimpleMatrix/MultiBitSet.hpp")], ["element access", "resize/reserve/push_back/copy"])
p("C04", "Matrices hold independent column-major data and never touch foreign memory",
  "For fixed-size, dynamic and mapped matrices, element (r,c) and linear element rows*c+r are the same storage, distinct in-range coordinates are distinct storage, and filling writes exactly the elements. Copying and assigning (same or mixed kinds; into a mapped or fixed matrix only from the same shape) gives the same shape and elements in independent storage, moving transfers them, reserving keeps the elements with at least the requested capacity, and resizing within capacity keeps the linear contents. No operation reads, writes, frees or leaks memory wrongly for trivial or non-trivial element types.",
  ["inputs", "histories", "configurations"], "every shape, element type and operation history",
  "One test prints a small matrix.",
  ["SimpleMatrix/MatrixDynamicSize.hpp", "SimpleMatrix/MatrixFixedSize.hpp", "SimpleMatrix/MatrixMap.hpp", "SimpleMatrix/MatrixBase.hpp"],
  [("indexing, resize, reserve, copy, move", "SimpleMatrix/MatrixDynamicSize.hpp")], observe=["element access", "copy/move/resize/reserve"])
p("R01", "Random helpers always respect their ranges",
  "The real-valued helper lies in [0,1), its ranged form in [min,max], the integer index helper in {0,...,size-1}, and its ranged form in {min,...,max-1}, for every generator state and every argument for which the range is non-empty and representable. Filling an array writes exactly the requested elements within the range.",
  ["inputs", "histories"], "every generator state and range argument",
  "No test draws near the ends of the generator's range.",
  ["Global/Randoms.hpp"], [("random helpers", "Global/Randoms.hpp")], observe=["return values"])
p("R02", "Logistic chaos stays in the unit interval and its sequences are consistent",
  "Started from a seed strictly between 0 and 1 the chaotic sequence stays within [0,1] forever, each value being 4x(1-x) of the previous one. Producing L values in one batch gives the same values and leaves the same state as L single steps, and skipping n steps equals n single steps.",
  ["inputs", "histories"], "every seed and every length",
  "No test covers it.",
  ["Global/LogisticChaos.hpp"], [("iteration", "Global/LogisticChaos.hpp")], observe=["operator()", "makeSequence", "iterate"])
p("H01", "Numeric helpers compute their mathematical definitions",
  "Square, sign, factorial, binomial coefficient, variadic minimum and maximum, and the compile-time minimum and maximum return their mathematical value for every argument whose result (and, for the binomial, the intermediate of the standard product form) is representable in the type. The Gaussian curve is the normal density, positive and symmetric around its mean.",
  ["inputs"], "every argument with representable result",
  "Tests call none of them directly.",
  ["Global/HeuMaths.hpp"], [("math helpers", "Global/HeuMaths.hpp")], observe=["return values"])
p("F01", "Single-objective benchmark functions match their published formulas",
  "Each single-objective benchmark (Ackley, Rastrigin, Sphere, Rosenbrock, Beale, Goldstein-Price, Booth, Bukin 6, Matyas, Levi 13, Himmelblau, three-hump camel, Easom, cross-in-tray, eggholder, Holder table, McCormick, Schaffer 2 and 4, Styblinski-Tang) returns its published formula's value at every point and therefore its published optimum at the published minimizer. The value does not depend on the container type holding the point.",
  ["inputs", "configurations"], "every point and container type",
  "Tests print values obtained while optimizing two of them.",
  ["EAGlobal/SOFunctions.hpp"], [("benchmark functions", "EAGlobal/SOFunctions.hpp")], observe=["return values"])
p("F02", "Multi-objective benchmark functions match their published formulas",
  "Each multi-objective benchmark (Binh-Korn, Chankong-Haimes, Fonseca-Fleming, Poloni, Viennet, Kursawe, Schaffer 1 and 2, DTLZ 1-9) writes every objective with its published formula's value, for every number of variables and objectives allowed. It reads and writes only in-range elements, and the values do not depend on the container types.",
  ["inputs", "configurations"], "every point, dimension and container type",
  "Tests print values obtained while optimizing three of them.",
  ["EAGlobal/MOFunctions.hpp"], [("benchmark functions", "EAGlobal/MOFunctions.hpp")], observe=["objective vectors"])
p("T01", "Parallel passes give the sequential result under every schedule",
  "In every pass the solvers run in parallel (fitness evaluation, domination counting, particle movement) each iteration writes only data no other iteration reads or writes, apart from the random source, which is private to each thread. Hence, for a side-effect-free objective, the outcome is independent of the number of threads and the schedule. The work partition handed to the scheduler is valid for every population size and thread count, so that passes always terminate.",
  ["schedules", "configurations"], "every interleaving, thread count and population size, including fewer tasks than threads",
  "Tests run one schedule on one machine with large populations.",
  [GAB, "Genetic/NSGABase.hpp", "PSO/PSOAbstrcat.hpp", "PSO/PSO4Eigen.hpp", "AOS/AOSBoxed.hpp", "Global/Threading.hpp", "Global/Randoms.hpp"],
  [("parallel loops", GAB)], observe=["population()"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
