# Source of /verif/properties.jsonl (python3 checks/props_src.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m.split('@')[0].strip(),"where":m.split('@')[1].strip()} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
W10="The 10 example specifications in tools/testSomeExamples.py only compare the realizable/unrealizable line of fixed files; no test varies the specification."
SPEC="every GR(1) specification (initial constraints, safety and liveness assumptions and guarantees, any variables)"
p("C01","Realizability verdict equals the GR(1) game value",
 "For every specification, slugs reports 'realizable' exactly when for every input valuation allowed by the environment initialisation constraints there is an output valuation such that both together satisfy the system initialisation constraints and the system wins the GR(1) game from there under strict-implication semantics (the system never violates its safety guarantees before the environment violates a safety assumption, and satisfies all liveness guarantees infinitely often if all liveness assumptions hold infinitely often). Missing liveness sections mean TRUE. Exactly one verdict line is printed and the exit status is 0.",
 ["inputs"],SPEC,W10,["src/synthesisAlgorithm.cpp","src/synthesisContextBasics.cpp","src/gr1context.hpp","src/variableTypes.hpp","src/BFAbstractionLibrary/BFCudd.cpp"],
 ["computeWinningPositions @ src/synthesisAlgorithm.cpp","checkRealizability @ src/synthesisAlgorithm.cpp","BFFixedPoint @ src/variableTypes.hpp"],
 [("winningPositions","states from which the system wins","src/gr1context.hpp"),("realizable","the verdict","src/gr1context.hpp")],["stderr verdict line"])
p("C02","Robotics initial semantics verdict",
 "With --sysInitRoboticsSemantics, slugs reports 'realizable' exactly when the system wins the GR(1) game from every state that satisfies both the environment and the system initialisation constraints.",
 ["inputs"],SPEC,W10,["src/extensionRoboticsSemantics.hpp","src/synthesisAlgorithm.cpp"],["XRoboticsSemantics::checkRealizability @ src/extensionRoboticsSemantics.hpp"])
p("C03","Alternative algorithms give the same verdict",
 "--fixedPointRecycling and --biasForAction (alone or together with --sysInitRoboticsSemantics) are only different algorithms or preferences: they report exactly the verdict that the same specification gets without them.",
 ["inputs","configurations"],SPEC+" and each of the option combinations",W10,["src/extensionFixedPointRecycling.hpp","src/extensionBiasForAction.hpp"],["XFixedPointRecycling::computeWinningPositions @ src/extensionFixedPointRecycling.hpp","XBiasForAction::computeWinningPositions @ src/extensionBiasForAction.hpp"])
p("C04","Explicit strategies are winning controllers",
 "For a realizable specification, --explicitStrategy (also with --biasForAction, --fixedPointRecycling or --sysInitRoboticsSemantics) prints a finite automaton that answers every admissible initial input (under robotics semantics: contains every admissible initial state), has for every state and every input the safety assumptions allow exactly one listed successor with that input, lists only transitions allowed by the safety assumptions and guarantees, refers only to listed states, and along every infinite run that satisfies all liveness assumptions infinitely often satisfies all liveness guarantees infinitely often. For an unrealizable specification no automaton is printed.",
 ["inputs","histories"],SPEC+"; all runs of the printed automaton","No test inspects a printed strategy; the examples only look at the verdict.",["src/extensionExtractExplicitStrategy.hpp","src/synthesisAlgorithm.cpp","src/extensionBiasForAction.hpp","src/extensionFixedPointRecycling.hpp","src/synthesisContextBasics.cpp"],["computeAndPrintExplicitStateStrategy @ src/extensionExtractExplicitStrategy.hpp","determinize @ src/synthesisContextBasics.cpp"],
 [("strategyDumpingData","per goal, ordered transition sets that make progress","src/gr1context.hpp")],["stdout or the output file"])
p("C05","JSON strategy output is well-formed and is the same machine",
 "With --jsonOutput the explicit strategy is one syntactically valid JSON object whose 'variables' list names every input and output once, whose nodes each have a rank, a state vector of 0/1 of that length, and a list of existing successor numbers, and the machine it describes is a correct controller for the specification in the sense of the plain-text strategy.",
 ["inputs"],SPEC,"No test parses JSON output.",["src/extensionExtractExplicitStrategy.hpp"],["computeAndPrintExplicitStateStrategy @ src/extensionExtractExplicitStrategy.hpp"],None,["stdout"])
p("C06","Simple recovery strategies keep all guarantees and add coverage",
 "With --explicitStrategy --simpleRecovery the printed automaton is still a correct controller for the specification; in addition every winning state that satisfies the system initialisation constraints (whether or not the environment ones hold) is contained as a starting state, and after an input that violates a safety assumption it has a successor whenever the system still has a move that obeys its safety guarantees and the strategy's target set.",
 ["inputs","fault_sequences"],SPEC+"; inputs that violate the safety assumptions","optionally recovering runs are never executed by the tests",["src/extensionExtractExplicitStrategy.hpp","src/extensionOptimisticRecovery.hpp"],["oneStepRecovery branches @ src/extensionExtractExplicitStrategy.hpp"])
p("C07","Counterstrategy mode decides the same game (determinacy)",
 "--counterStrategy (and --counterStrategy --sysInitRoboticsSemantics) reports 'unrealizable' exactly when the corresponding mode without --counterStrategy does, i.e. exactly one of the two players is ever reported to win.",
 ["inputs"],SPEC,W10,["src/extensionCounterstrategy.hpp"],["XCounterStrategy::computeWinningPositions @ src/extensionCounterstrategy.hpp","XCounterStrategy::checkRealizability @ src/extensionCounterstrategy.hpp"])
p("C08","Printed counterstrategies are winning for the environment",
 "For an unrealizable specification --counterStrategy --sysInitRoboticsSemantics prints an automaton in which every state picks one input that the safety assumptions allow, lists for it exactly the successors for all outputs the safety guarantees allow (or a deadlock state for that input if there are none), and along every infinite run all liveness assumptions are satisfied infinitely often while some liveness guarantee is satisfied only finitely often.",
 ["inputs","histories"],SPEC+"; all runs","No test inspects a printed counterstrategy.",["src/extensionExtractExplicitCounterstrategy.hpp","src/extensionCounterstrategy.hpp"],["computeAndPrintExplicitStateStrategy @ src/extensionExtractExplicitCounterstrategy.hpp","addDeadlocked @ src/extensionExtractExplicitCounterstrategy.hpp"])
p("C09","Symbolic strategies are winning controllers",
 "For a realizable specification, --symbolicStrategy and --simpleSymbolicStrategy write a BDD over current state, next state and goal counter that, read as the documented controller (counter starts at 0; the transition-selector bit marks transitions that complete the current goal / the primed counter gives the next goal), offers for every reachable state and every input the safety assumptions allow at least one next output, never a transition that violates the safety guarantees, and every infinite run that satisfies all liveness assumptions infinitely often satisfies all liveness guarantees infinitely often.",
 ["inputs","histories"],SPEC,"No test reads the exported BDD.",["src/extensionExtractSymbolicStrategy.hpp","src/BFAbstractionLibrary/BFCuddManager.cpp"],["computeAndPrintSymbolicStrategy @ src/extensionExtractSymbolicStrategy.hpp"])
p("C10","Permissive strategies are safe, complete and non-blocking",
 "For a realizable specification, --extractExplicitPermissiveStrategy lists every winning state as a starting state; every listed transition obeys safety assumptions and guarantees and leads to a listed state; every input the assumptions allow has at least one successor; and every infinite run that satisfies all liveness assumptions infinitely often satisfies all liveness guarantees infinitely often.",
 ["inputs","histories"],SPEC,"No test inspects the output.",["src/extensionPermissiveExplicitStrategy.hpp"],["computeAndPrintExplicitStateStrategy @ src/extensionPermissiveExplicitStrategy.hpp"])
p("C11","Cooperative strategies are winning and never trap the environment",
 "If --cooperativeGR1Strategy reports 'realizable', the specification is realizable, the explicit strategy extracted with it is a correct controller for the original specification, and from every reachable strategy state in which the assumptions have been obeyed the environment has an allowed next input (the strategy does not drive the environment into a dead end).",
 ["inputs","histories"],SPEC,"No test exercises the option.",["src/extensionCooperativeGR1Strategy.hpp"],["XCooperativeGR1Strategy::computeWinningPositions @ src/extensionCooperativeGR1Strategy.hpp"])
p("C12","Weakened safety assumptions are sound",
 "--computeWeakenedSafetyAssumptions on a realizable specification prints a CNF over the variables that is implied by the original safety assumptions (it is at most as restrictive) and with which, in place of the original safety assumptions, the specification is still realizable.",
 ["inputs"],SPEC,"No test exercises the option.",["src/extensionWeakenSafetyAssumptions.hpp"],["execute @ src/extensionWeakenSafetyAssumptions.hpp"])
p("C13","CNF export denotes the specification",
 "--computeCNFFormOfTheSpecification prints, for initial, safety-assumption and safety-guarantee lines, clause lists whose conjunction is equivalent to the respective constraint, and for every liveness line a disjunction of cubes that is satisfied infinitely often on exactly the runs on which the original property is (a cube over next-step variables only is the same cube over current-step variables).",
 ["inputs"],SPEC,"No test exercises the option.",["src/extensionComputeCNFFormOfTheSpecification.hpp"],["execute @ src/extensionComputeCNFFormOfTheSpecification.hpp"])
p("C14","Initial-position analysis reports the true counts and cubes",
 "--analyzeInitialPositions prints the exact numbers of (winning / all) positions, also restricted to those satisfying the initialisation assumptions and/or guarantees, the exact number of allowed and of system-losing initial inputs, and cubes all of whose positions belong to the announced set, announcing '(none)' or 'TRUE' exactly when the set is empty or everything; with --restrictToReachableStates every number and cube is relative to the states reachable from the initial states.",
 ["inputs"],SPEC,"No test exercises the option.",["src/extensionAnalyzeInitialPositions.hpp","src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp","src/BFAbstractionLibrary/BFCudd.cpp"],["execute @ src/extensionAnalyzeInitialPositions.hpp","BFMintermEnumerator @ src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"])
p("C15","Assumption analysis classifies every assumption correctly",
 "--analyzeAssumptions on a realizable specification says of each safety and liveness assumption that it is needed exactly when dropping it makes the specification unrealizable, that it makes more positions winning exactly when dropping it shrinks the set of winning positions, and that a safety assumption is redundant exactly when the others imply it; an unrealizable specification is reported as such.",
 ["inputs"],SPEC,"No test exercises the option.",["src/extensionAnalyzeAssumptions.hpp"],["execute @ src/extensionAnalyzeAssumptions.hpp","computeReactiveDistancesAndWinningPositions @ src/extensionAnalyzeAssumptions.hpp"])
p("C16","Safety/liveness interaction table is correct",
 "--analyzeSafetyLivenessInteraction prints, for each of the 16 combinations of keeping or dropping the safety/liveness assumptions/guarantees, exactly whether the resulting specification is realizable in the classical and in the robotics semantics, and the statements below the table about non-strict implication and about how fast one player can falsify the other's safety specification are true.",
 ["inputs","configurations"],SPEC,"No test exercises the option.",["src/extensionAnalyzeSafetyLivenessInteraction.hpp"],["execute @ src/extensionAnalyzeSafetyLivenessInteraction.hpp"])
p("C17","Abstract winning traces are real",
 "--computeAbstractWinningTrace prints a trace for a player only if that player can, from some initial position, force the other one to violate its safety specification in finitely many steps, and the printed rounds are a valid abstraction: from every position matching a round the player can force the next round's pattern (or win immediately), ending in the other player's violation; otherwise it says that there is none or prints no trace.",
 ["inputs","histories"],SPEC,"No test exercises the option.",["src/extensionAbstractWinningTraceGenerator.hpp"],["computeAbstractStrategyTrace @ src/extensionAbstractWinningTraceGenerator.hpp"])
p("C18","Interesting runs are runs of the game",
 "--computeInterestingRunOfTheSystem prints a run that starts in a winning initial position, takes only transitions that obey the safety assumptions and guarantees, marks a goal as reached exactly in the steps whose transition satisfies it, and ends early with 'Env.Loses'/'Sys.Loses' only when the named player indeed has no allowed move.",
 ["inputs","histories"],SPEC,"No test exercises the option.",["src/extensionComputeInterestingRunOfTheSystem.hpp"],["computeRun @ src/extensionComputeInterestingRunOfTheSystem.hpp"])
p("C19","The interactive simulator answers according to the strategy",
 "With --interactiveStrategy, all commands answer consistently with the game. XGETINIT and STARTPOS go to an initial position that is winning (XGETINIT also back to the first goal). XMAKETRANS (and XMAKETRANSRANDOM) refuses exactly the inputs that the safety assumptions forbid and otherwise makes a step to the printed position that satisfies the safety guarantees and is winning, and following these steps forever satisfies every liveness guarantee under the liveness assumptions; so does MOVE for one chosen goal. CHECKTRANS tells correctly whether a position is winning (for the player that wins) and which safety and liveness properties a transition satisfies. XCOMPLETEINIT and XSTRATEGYTRANSITION complete partially forced values to an initial position or move of the winning player, tell correctly which restriction makes that impossible and which values the restrictions force, keep the goal counters right, and following the moves of XSTRATEGYTRANSITION forever the winning player (system or environment) wins. No sequence of well-formed commands crashes the program. XMAKETRANS may be assumed to be used from winning positions of realizable specifications that have an initial position.",
 ["inputs","histories"],SPEC+"; all command sequences","No test exercises the option.",["src/extensionInteractiveStrategy.hpp"],["execute @ src/extensionInteractiveStrategy.hpp"])
p("C20","Interleaving analysis names outputs that can be set early",
 "--analyzeInterleaving calls the starting point realizable exactly when the specification is realizable, and then lists a maximal set of output signals that can be set before the inputs of the step are read: the specification stays realizable (the system chooses the listed outputs before it sees the next input and the others after) with the listed ones and becomes unrealizable with any further one; it says that no output can be set early exactly when that holds for every single output.",
 ["inputs"],SPEC,"No test exercises the option.",["src/extensionInterleave.hpp"],["computeWinningPositions @ src/extensionInterleave.hpp"])
p("C21","Nondeterministic-motion synthesis decides its game",
 "--nonDeterministicMotion reports 'realizable' exactly when the system wins the GR(1) game in which the robot motion state after each step is chosen adversarially among those that the motion abstraction file allows for the current motion state and the chosen motion control outputs (a choice of control outputs that allows no motion state is no legal move); the system chooses the other outputs together with the control outputs, and it may assume, next to the environment liveness assumptions, that it is not the case that it forever uses actions for which the abstraction allows a change of the motion state without the motion state ever changing. The initial condition is read as without the option.",
 ["inputs"],SPEC+" and every motion abstraction","No test exercises the option.",["src/extensionNondeterministicMotion.hpp"],["computeWinningPositions @ src/extensionNondeterministicMotion.hpp"])
p("C22","Two-dimensional-cost synthesis keeps correctness",
 "With --twoDimensionalCost, the verdict is the same as without it (with the same initial semantics), and an explicit strategy extracted with it is a correct controller for the specification.",
 ["inputs"],SPEC+" and every action cost file","No test exercises the option.",["src/extensionTwoDimensionalCost.hpp"],["computeWinningPositions @ src/extensionTwoDimensionalCost.hpp"])
p("C23","Fast/slow synthesis decides its game",
 "With --IROSfastslow (outputs split into [OUTPUT_F] for fast and [OUTPUT_S] for slow ones), the verdict is 'realizable' exactly when the system wins the GR(1) game in which every step must also have a safe intermediate state: the state with the step's new inputs and new fast outputs but the old slow outputs must itself be a state that some transition allowed by the safety guarantees reaches and some such transition leaves. Strategies extracted in combination with it (explicit, permissive, symbolic) are winning strategies of that game, and obey the intermediate-state rule in each step.",
 ["inputs"],SPEC+", every split into fast and slow outputs","No test exercises the option.",["src/extensionIROSfastslow.hpp"],["computeWinningPositions @ src/extensionIROSfastslow.hpp"])
p("C24","State estimators under incomplete information are sound",
 "Following the [SYS_TRANS] rules that --computeIncompleteInformationEstimator prints never violates the specification's safety guarantees, for any value of the unobservable inputs that the safety assumptions allow; the rules are the most general such ones, with min_ (max_) bits TRUE (FALSE) whenever possible and later declared bits first; the printed [ENV_TRANS] constraint allows exactly the observable steps that can occur while the rules are followed; and dead-ends are reported exactly when there are some.",
 ["inputs","histories"],"every estimator specification","No test exercises the option.",["src/extensionIncompleteInformationEstimatorSynthesis.hpp"],["execute @ src/extensionIncompleteInformationEstimatorSynthesis.hpp"])
p("C25","Specification formulas mean what the input format says",
 "Every Boolean formula of the slugsin prefix notation (constants, variables, primed variables, !, |, &, ^, buffers '$ n ...' with references '? i') is read as the Boolean function the input-format documentation gives it, several lines of a section are conjoined, every liveness line is one liveness property, comments and blank lines are ignored, and a specification without liveness properties gets the property TRUE.",
 ["inputs"],"every well-formed formula and file","The examples use a few fixed files; meaning is only seen through a final verdict.",["src/synthesisContextBasics.cpp","doc/input_formats.md"],["parseBooleanFormulaRecurse @ src/synthesisContextBasics.cpp","init @ src/synthesisContextBasics.cpp"])
p("C26","Malformed input is rejected, never crashes or is silently reinterpreted",
 "For every text given as a formula line or section header, slugs either reads it with its documented meaning or reports an error and ends with a nonzero exit status: unknown variables, variables of a kind not allowed in the section, premature ends, trailing tokens, out-of-range or not-yet-computed buffer references, unknown sections, lines outside sections and duplicate variable names never crash it or lead to a verdict.",
 ["inputs"],"every token sequence / file","No test feeds malformed input.",["src/synthesisContextBasics.cpp","src/main.cpp"],["parseBooleanFormulaRecurse @ src/synthesisContextBasics.cpp","main @ src/main.cpp"])
p("C27","BDD wrapper operations denote their Boolean functions",
 "Every operation of the BF classes (conjunction, disjunction, negation, xor, implication, comparison, equality, constants, quantification over cubes and single variables, variable-vector swapping, and-abstraction, optimisation with a care set) returns exactly the Boolean function (or truth value) its name says for all operand functions, leaves its operands unchanged, and copies, assignments and self-assignments never free a node that is still referenced.",
 ["inputs","histories"],"all operand functions, cubes and vectors","CUDD's own tests do not touch the wrapper; the examples exercise it indirectly.",["src/BFAbstractionLibrary/BFCudd.h","src/BFAbstractionLibrary/BFCudd.cpp","src/BFAbstractionLibrary/BFCuddInlines.h","src/BFAbstractionLibrary/BFCuddManager.cpp"],["BFBdd @ src/BFAbstractionLibrary/BFCudd.h"])
p("C28","Minterm enumeration yields the largest cubes of the function",
 "For every Boolean function and care set over the primary variables, the minterm enumerator terminates and returns cubes of the function that each meet the care set, in the order of increasing number of literals; no cube fixes all the variables of an earlier one, and every cube of the function that meets the care set fixes all the variables of some returned cube. The function itself is left unchanged.",
 ["inputs"],"all function/care-set pairs over the enumerated variables","No test calls it directly.",["src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"],["getNextMinterm @ src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"])
p("C29","BDD kernels compute the Boolean functions they are named after",
 "CUDD's and, or, xor, nand, nor, xnor, if-then-else, existential/universal quantification, and-/xor-abstraction, Boolean difference, implication test, composition, permutation and variable swapping return the canonical BDD of exactly the specified function of their operands for every variable order, the generalised cofactor (constrain) that of the nearest care point, and restrict, care-set compaction and intersection witnesses a function that agrees with the operand on the care set (lies in the intersection and is empty only if it is); a step that fails or succeeds releases every reference it took, uses no node that a garbage collection may have removed, and stores only correct results in the computed table.",
 ["inputs"],"all operand BDDs over a bounded set of variables","CUDD's tests run fixed circuits.",["lib/cudd-3.0.0/cudd/cuddBddIte.c","lib/cudd-3.0.0/cudd/cuddBddAbs.c","lib/cudd-3.0.0/cudd/cuddAndAbs.c","lib/cudd-3.0.0/cudd/cuddCompose.c","lib/cudd-3.0.0/cudd/cuddGenCof.c"],["cuddBddAndRecur @ lib/cudd-3.0.0/cudd/cuddBddIte.c"])
p("C30","Unique table keeps BDDs canonical",
 "Looking up or creating a node returns the same node for the same variable and children for as long as the node is referenced, reference counting never frees a reachable node, and swapping two adjacent variables during reordering changes no represented function.",
 ["inputs","histories"],"every operation on every valid unique-table state within bounds","CUDD's tests run fixed circuits.",["lib/cudd-3.0.0/cudd/cuddTable.c","lib/cudd-3.0.0/cudd/cuddReorder.c","lib/cudd-3.0.0/cudd/cuddRef.c"],["cuddUniqueInter @ lib/cudd-3.0.0/cudd/cuddTable.c","cuddSwapInPlace @ lib/cudd-3.0.0/cudd/cuddReorder.c"])
p("C31","Structured specifications compile to equivalent Boolean ones",
 "The structured-slugs compiler translates every constraint over bounded natural numbers and Booleans (comparisons, sums, constants, LEASTSIGNIFICANTBITOVERWRITES, primed variables and the next operator, and the Boolean connectives including xor with their documented precedence) into a slugsin formula that holds for exactly those bit valuations that encode numbers satisfying the constraint; it declares exactly enough bits for each variable, keeps comments and lines already in prefix form, and adds range constraints that exclude exactly the bit patterns outside the declared ranges, initially and after every step. Subtraction and multiplication are refused.",
 ["programs","inputs"],"every constraint in the language, all variable ranges and valuations","The tests compile four fixed files and compare only verdicts.",["tools/StructuredSlugsParser/compiler.py"],["parseSimpleFormula @ tools/StructuredSlugsParser/compiler.py"])
p("C32","Every option combination decides the semantics it names",
 "For every supported combination of command line options, the verdict line printed is the one prescribed by the semantics options among them (robotics or classical initial condition, in the plain, recycling, bias, cooperative, cost or recovery variants): adding strategy-extraction or output-format options never changes the verdict, and an unsupported combination is rejected with an error.",
 ["configurations","inputs"],"all option combinations in the table and "+SPEC,"The examples are run with two option sets only.",["src/main.cpp","src/plugin_combination_enumerator.py"],["optionCombinations @ src/main.cpp"])
p("C33","CUDD's hash tables behave as finite maps",
 "Every operation of CUDD's st hash table (insertion, direct insertion, lookups, find, find-or-add, deletion, traversal with deletion and early stop, generators, copying, creation) on a well-formed table returns what a finite map returns, leaves a well-formed table that represents the updated map (nothing lost, duplicated, misplaced or leaked; rehashing and moving found entries to the front included), and touches only memory it owns; when memory runs out an insertion leaves the map unchanged. This holds for every hash function and comparison, with or without an extra argument, and the predefined hash functions of numbers, pointers and strings stay within the bins.",
 ["histories","inputs"],"every operation on every well-formed table within bounds (hence every history that stays within them)","The five st tests run fixed sequences with default parameters.",["lib/cudd-3.0.0/st/st.c"],["st_insert @ lib/cudd-3.0.0/st/st.c","st_delete @ lib/cudd-3.0.0/st/st.c","rehash @ lib/cudd-3.0.0/st/st.c","st_foreach @ lib/cudd-3.0.0/st/st.c"])
p("C34","Extended-precision doubles compute exactly when the result is representable",
 "On normalised nonzero operands, CUDD's extended doubles convert every normal double exactly, and multiplication, division, addition, subtraction (each in its three forms) and powers of two return the exact value, normalised, whenever it is representable and not zero; an addend that is more than 60 binary places below the other one changes nothing; infinities and NaN combine as in IEEE 754 with the right signs; comparison, copying and the tests for zero, infinity and NaN agree with the value.",
 ["inputs"],"all operand signs, exponents in -3000..3000 and mantissas within bounds","The model-counting tests of CUDD use a few fixed diagrams; no test subtracts infinities or crosses the double range.",["lib/cudd-3.0.0/epd/epd.c"],["EpdMultiply3 @ lib/cudd-3.0.0/epd/epd.c","EpdAdd3 @ lib/cudd-3.0.0/epd/epd.c","EpdSubtract2 @ lib/cudd-3.0.0/epd/epd.c","EpdNormalize @ lib/cudd-3.0.0/epd/epd.c"])
if __name__=="__main__":
    for x in P: print(json.dumps(x))
