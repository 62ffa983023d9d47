"""Writes /verif/properties.jsonl (kept here so that the long texts stay readable)."""
import json, os
P = "src/PLASMA/"
props = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [P + f for f in files], "mechanism": [{"name": a, "where": P + b} for a, b in mech],
                  "state": [{"name": a, "meaning": b, "where": P + c} for a, b, c in state], "observe_at": list(observe), "hook_needed": hook}})

p("N01", "Extended integers and reals compute like numbers with infinities",
  "The engine's extended integers and reals agree with ordinary arithmetic (sum, difference, product, quotient, remainder, negation, minimum, maximum, comparison, equality, sign, truncation) whenever operands and result are finite and in range. Any finite value lies strictly between minus and plus infinity, adding a finite value to an infinity or negating it gives the infinity ordinary algebra prescribes, and the comparisons form a total order that agrees with subtraction. A finite operation whose result leaves the representable range is reported as an error, never returned as a wrong finite number.",
  ["inputs"], "all pairs/triples of extended numbers (finite of either sign, zero, near the range limits, both infinities) and all operators, mixed with plain machine numbers",
  "Unit tests compare a few dozen hand-picked values; the sign/zero/infinity/overflow case split of every operator is a product space no table of examples covers.",
  ["Utils/Number.hh"], [("eint/edouble operators, infinity handling helpers", "Utils/Number.hh")],
  observe=["return value of every arithmetic and comparison operator", "thrown range errors"])

p("D01", "Domain operations are exact set operations",
  "Intersecting, subtracting, equating, copying, comparing, counting and testing membership, overlap, subset or emptiness of two variable domains (boolean, integer interval, real interval, numeric or symbolic enumeration, in any meaningful combination) yields exactly what the corresponding operation on the denoted sets of values yields. Bounds reported for a non-empty domain are its smallest and largest members, and a domain is a singleton exactly when it has one member.",
  ["inputs"], "all pairs of domains of each kind combination, with arbitrary bounds or members, open or closed, including empty, singleton, infinite-bounded and disjoint ones",
  "domain-tests sample a few intervals/enumerations; boundary relations (touching, nested, one inside a hole of the other, infinite bounds, mixed kinds) form an unbounded case space.",
  ["ConstraintEngine/component/Domains.cc", "ConstraintEngine/component/Domains.hh", "ConstraintEngine/base/Domain.cc"],
  [("IntervalDomain set operations", "ConstraintEngine/component/Domains.cc"), ("EnumeratedDomain set operations", "ConstraintEngine/component/Domains.cc")],
  observe=["Domain membership, bounds, size, singleton/empty/subset/intersects/equality queries"])

p("D02", "Domain change reports are truthful",
  "Every operation that may restrict or relax a domain reports that it changed the domain if and only if the set of values it denotes changed. A listener attached to the domain is told of each such change with the right kind (emptied, narrowed to one value, narrowed, relaxed, reset, closed) and is told nothing when nothing changed.",
  ["inputs", "histories"], "all domains, all operands, all short sequences of restricting, relaxing, closing and setting operations",
  "A missing or misclassified notification only shows as lost propagation in some later history; tests exercise single notifications on fixed values.",
  ["ConstraintEngine/component/Domains.cc", "ConstraintEngine/base/Domain.cc", "ConstraintEngine/base/DomainListener.hh"],
  [("notifyChange and per-operation event selection", "ConstraintEngine/component/Domains.cc")], observe=["boolean results of domain operations", "events received by a domain listener"])

p("C01", "Constraint propagation never discards a solution",
  "For every constraint type in the built-in library and any domains of its variables, propagation keeps every value that takes part in at least one assignment satisfying the constraint's documented relation. In particular propagation never reports inconsistency while such an assignment exists.",
  ["inputs"], "every library constraint, all small arities, all integer/real/boolean/enumerated domains of its variables and all satisfying assignments within them",
  "The constraint test-cases list fixed domains and fixed expected outputs; an unsound pruning rule for other bounds, signs or infinities passes them.",
  ["ConstraintEngine/component/Constraints.cc", "ConstraintEngine/component/Constraints.hh", "ConstraintEngine/component/CFunctions.cc", "ConstraintEngine/ModuleConstraintEngine.cc", "ConstraintEngine/base/ConstraintEngine.cc"],
  [("handleExecute of each library constraint", "ConstraintEngine/component/Constraints.cc"), ("propagation loop", "ConstraintEngine/base/ConstraintEngine.cc")],
  observe=["derived domains of variables after propagation", "result of propagate()"])

p("C02", "On fully bound variables propagation decides the constraint exactly",
  "When all variables of a library constraint are bound to single values, propagation succeeds if and only if those values satisfy the constraint's documented relation. A result variable that is functionally determined by bound arguments is narrowed so that no wrong value remains.",
  ["inputs"], "every library constraint, all ground assignments of its variables within the stated range",
  "Tests check a few ground tuples per constraint; accepting a wrong tuple silently yields invalid plans.",
  ["ConstraintEngine/component/Constraints.cc", "ConstraintEngine/component/Constraints.hh", "ConstraintEngine/ModuleConstraintEngine.cc"],
  [("handleExecute of each library constraint", "ConstraintEngine/component/Constraints.cc")], observe=["result of propagate()", "derived domains"])

p("C03", "The propagation fixpoint does not depend on the order of operations",
  "Posting the same constraints over the same domains in any order, with propagation run after each step or only at the end, ends with the same consistency verdict and, for the constraints whose filtering is monotone, the same derived domains.",
  ["schedules", "inputs"], "all permutations and all interleavings of posting, restricting and propagating for networks of a few variables and constraints with arbitrary bounds",
  "Tests fix one order; agenda, execution-queue and re-queueing mistakes depend on the order in which changes arrive.",
  ["ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/component/Propagators.cc", "ConstraintEngine/base/Constraint.cc", "ConstraintEngine/component/EquivalenceClassCollection.cc"],
  [("propagator agenda and redundancy marking", "ConstraintEngine/component/Propagators.cc"), ("propagation scheduling", "ConstraintEngine/base/ConstraintEngine.cc")],
  observe=["derived domains", "consistency verdict"])

p("C04", "Retraction leaves no trace",
  "After any history of posting and removing constraints, specifying and resetting variables, deactivating and reactivating constraints, and interleaved propagation, including passing through inconsistent states, the verdict and the derived domains equal those of a fresh engine given only the constraints and values still in force.",
  ["histories", "inputs"], "all operation sequences up to the stated length over a small network, with arbitrary bounds and values",
  "Tests retract in a few scripted scenarios; stale derived domains or leftover inconsistency after retraction depend on the exact history.",
  ["ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/base/ConstrainedVariable.cc", "ConstraintEngine/base/Constraint.cc", "ConstraintEngine/component/Propagators.cc", "ConstraintEngine/component/EquivalenceClassCollection.cc"],
  [("relaxation and propagation from base domains", "ConstraintEngine/base/ConstraintEngine.cc"), ("variable specify/reset/relax", "ConstraintEngine/base/ConstrainedVariable.cc")],
  observe=["derived domains", "consistency verdict", "specified value"])

p("C05", "Equality classes always equal the connected components in force",
  "After any history of adding and removing equality constraints, variables connected by the remaining equalities have identical derived domains equal to the intersection of their individual domains, and variables no longer connected do not influence each other.",
  ["histories", "inputs"], "all histories of adding/removing up to the stated number of equality edges over a few variables with arbitrary domains, including cycles and parallel edges",
  "Splitting an equivalence class is exercised by two or three tests; which edge is removed from which graph decides correctness.",
  ["ConstraintEngine/component/EquivalenceClassCollection.cc", "ConstraintEngine/component/Propagators.cc"],
  [("class merge and recomputation", "ConstraintEngine/component/EquivalenceClassCollection.cc"), ("EqualityConstraintPropagator", "ConstraintEngine/component/Propagators.cc")],
  observe=["derived domains", "consistency verdict"])

p("C06", "Violation-tolerant mode accounts for every violated constraint and recovers",
  "When the engine is allowed to carry on after violations, it reports a positive total violation if and only if the propagated network is inconsistent, and lists a non-empty set of violated constraints in that case. Constraint-by-constraint violations add up to the total, and resetting or removing what caused the conflict brings the network back to no violation with the domains it would have had without the conflict.",
  ["histories", "inputs"], "all short sequences of specifying, resetting and posting over small networks with violations allowed",
  "Two tests cover one conflict each; recovery depends on which of several conflicting inputs is withdrawn and in which order.",
  ["ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/base/Constraint.cc"],
  [("violation manager", "ConstraintEngine/base/ConstraintEngine.cc")], observe=["total violation", "violated constraint and empty variable lists", "derived domains"])

p("T01", "The temporal network is consistent exactly when no negative cycle exists",
  "After any history of adding, narrowing and removing temporal constraints between timepoints, the simple temporal network reports consistency if and only if the constraints in force admit an assignment of times.",
  ["histories", "inputs"], "all histories up to the stated length over a few timepoints with arbitrary integer bounds",
  "Test networks are fixed; incremental and full propagation take different routes depending on the history (relaxation, earlier inconsistency, parallel constraints).",
  ["TemporalNetwork/base/TemporalNetwork.cc", "TemporalNetwork/base/DistanceGraph.cc", "TemporalNetwork/base/queues.cc"],
  [("incremental and full propagation", "TemporalNetwork/base/TemporalNetwork.cc"), ("Bellman-Ford/Dijkstra", "TemporalNetwork/base/DistanceGraph.cc")],
  observe=["isConsistent result of propagation"])

p("T02", "Timepoint bounds are exactly the earliest and latest times",
  "Whenever the simple temporal network is consistent, the lower and upper bound reported for each timepoint are the earliest and the latest time the constraints in force allow, whatever history of additions, narrowings and removals (including removals that relax or that end an inconsistency) led there.",
  ["histories", "inputs"], "all histories up to the stated length over a few timepoints with arbitrary integer bounds",
  "Only fixed scenarios check bounds; stale bounds after relaxation or a too-early stop of propagation need particular bounds and order.",
  ["TemporalNetwork/base/TemporalNetwork.cc", "TemporalNetwork/base/DistanceGraph.cc"],
  [("calcTimepointBounds, incBellmanFord, incDijkstra", "TemporalNetwork/base/TemporalNetwork.cc")], observe=["getTimepointBounds"])

p("T03", "Distance queries between timepoints return the tightest implied bounds",
  "For any two timepoints of a consistent temporal network, the queried distance bounds are the exact minimum and maximum separation implied by all constraints. Precedence and possible-ordering questions derived from them agree with those bounds.",
  ["inputs", "histories"], "all networks of a few timepoints with arbitrary bounds and every ordered pair",
  "A handful of pairs is checked on fixed graphs; shortest-path shortcuts depend on edge weights and on propagation state.",
  ["TemporalNetwork/base/TemporalNetwork.cc", "TemporalNetwork/base/DistanceGraph.cc", "TemporalNetwork/component/STNTemporalAdvisor.cc"],
  [("calcDistanceBounds, isDistanceLessThan, isDistancePossiblyLessThan", "TemporalNetwork/base/TemporalNetwork.cc")], observe=["distance and ordering queries"])

p("T04", "Token times and the temporal network agree",
  "After propagation, start, end and duration of every active token are exactly as tight as the temporal constraints, the tokens' own durations and their variables' restrictions imply, and an impossible set of temporal requirements is always detected. This still holds after temporal constraints or restrictions are removed again.",
  ["histories", "inputs"], "all short histories of temporal constraints, variable restrictions, resets and removals over a few tokens with arbitrary bounds",
  "The two-way synchronisation between variables and timepoints is buffered and event driven; tests follow a few scripts.",
  ["TemporalNetwork/component/TemporalPropagator.cc", "TemporalNetwork/component/TimepointWrapper.cc", "TemporalNetwork/base/TemporalNetwork.cc", "PlanDatabase/component/IntervalToken.cc"],
  [("TemporalPropagator variable/timepoint synchronisation", "TemporalNetwork/component/TemporalPropagator.cc")], observe=["derived domains of start/end/duration", "propagate()"])

p("K01", "Token life-cycle operations are exactly reversible",
  "Activating, rejecting or merging a token and then cancelling returns the token to the inactive state with the domains, subgoals, orderings and merge relations of the whole database as they were before, whatever other operations happened in between and were undone.",
  ["histories", "inputs"], "all operation sequences up to the stated length over a few tokens and objects with arbitrary time and parameter bounds",
  "Tests cancel in fixed scenarios; leftover constraints or restrictions depend on order and on which token supports which.",
  ["PlanDatabase/base/Token.cc", "PlanDatabase/base/MergeMemento.cc", "PlanDatabase/base/StackMemento.cc", "PlanDatabase/base/UnifyMemento.cc", "PlanDatabase/base/PlanDatabase.cc"],
  [("activate/cancel/reject", "PlanDatabase/base/Token.cc"), ("merge mementos", "PlanDatabase/base/MergeMemento.cc")], observe=["token state", "derived domains of token variables", "token and constraint counts"])

p("K02", "Merging unifies and splitting restores",
  "Merging a token into an active one leaves the active token's variables with exactly the intersection of both tokens' requirements, and every constraint on the merged token acts on the active token while the merge lasts. The tokens offered as merge candidates include every active token of a compatible predicate whose variables can still agree, splitting restores all participants, and constraints added or removed while merged survive the split correctly.",
  ["histories", "inputs"], "all merge/split/constraint-posting sequences up to the stated length over up to three tokens with arbitrary bounds",
  "Merge chains, constraints posted on merged tokens and re-merging depend on histories that tests only sample.",
  ["PlanDatabase/base/Token.cc", "PlanDatabase/base/MergeMemento.cc", "PlanDatabase/base/StackMemento.cc", "PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/CommonAncestorConstraint.cc"],
  [("doMerge, cancelMerge", "PlanDatabase/base/Token.cc"), ("constraint migration", "PlanDatabase/base/MergeMemento.cc"), ("getCompatibleTokens", "PlanDatabase/base/PlanDatabase.cc")],
  observe=["derived domains", "merge candidate list", "propagate()"])

p("O01", "Tokens ordered on a timeline never overlap",
  "In every consistent state, tokens placed on a timeline form a sequence in which each token ends no later than its successor starts, for every completion of their times. Removing a token from the sequence keeps its former neighbours ordered and lifts exactly the orderings that only that token required.",
  ["histories", "inputs"], "all histories of placing and freeing up to four tokens with arbitrary time bounds",
  "Insertion and removal in the middle, at the ends, with coinciding times and repeated placement are combinations that tests sample once each.",
  ["PlanDatabase/component/Timeline.cc", "PlanDatabase/base/Object.cc"],
  [("constrain/free/remove sequence maintenance", "PlanDatabase/component/Timeline.cc"), ("precedence constraint bookkeeping", "PlanDatabase/base/Object.cc")], observe=["token sequence", "derived start/end domains", "precedence constraints"])

p("O02", "Offered ordering choices are complete and bounded",
  "The ordering choices offered for a token on a timeline include every position at which the token can consistently be placed, and never a position between tokens that are not adjacent. The list of tokens still to be ordered contains exactly the active tokens whose assigned object requires an ordering they do not yet have.",
  ["histories", "inputs"], "all sequences of up to three placed tokens and one candidate with arbitrary time bounds",
  "The choice computation compares bounds pairwise with early exits; only particular bound combinations expose a dropped choice.",
  ["PlanDatabase/component/Timeline.cc", "PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/Object.cc", "PlanDatabase/base/DefaultTemporalAdvisor.cc", "TemporalNetwork/component/STNTemporalAdvisor.cc"],
  [("getOrderingChoices, getTokensToOrder", "PlanDatabase/component/Timeline.cc"), ("getOrderingChoices, getTokensToOrder", "PlanDatabase/base/PlanDatabase.cc")], observe=["ordering choice list", "tokens-to-order list"])

p("R01", "Rules fire exactly when their guards hold and are fully undone",
  "When a token becomes active, every rule of its predicate applies its consequences if and only if its guard conditions are all bound to the required values, also when the guard variables are bound only later and for nested guards and loops over objects. When the token is deactivated or a guard ceases to hold, exactly the consequences of that firing are removed.",
  ["histories", "inputs"], "all sequences of activating, binding guards, relaxing and cancelling up to the stated length, with arbitrary guard values",
  "Rule tests bind guards in one order; firing and retraction depend on when the guard becomes bound relative to activation, propagation and other relaxations.",
  ["RulesEngine/base/RuleInstance.cc", "RulesEngine/base/RulesEngine.cc", "RulesEngine/base/RuleVariableListener.cc", "RulesEngine/base/Rule.cc", "RulesEngine/base/ProxyVariableRelation.cc", "NDDL/component/Interpreter.cc"],
  [("guard test, execute, undo", "RulesEngine/base/RuleInstance.cc"), ("activation/guard events", "RulesEngine/base/RulesEngine.cc")], observe=["slave tokens", "constraints and variables created by rules"])

p("L01", "Temporal relation names mean what they say",
  "Each of the language's temporal relations between two tokens (before, meets, contains, equals, starts, ends, the start/end inequality relations and their inverses), whether written in a rule or posted by a client, holds exactly for the token times its definition allows: neither weaker nor stronger.",
  ["inputs", "configurations"], "all relation names, all pairs of token intervals within the stated range",
  "Tests post a few relations and look at few bounds; a relation with one inequality swapped or missing passes when the missing bound is not probed.",
  ["NDDL/component/Interpreter.cc", "NDDL/base/NddlRules.hh", "PlanDatabase/component/DbClientTransactionPlayer.cc"],
  [("relation to constraint mapping", "NDDL/component/Interpreter.cc"), ("client relation mapping", "PlanDatabase/component/DbClientTransactionPlayer.cc")], observe=["derived domains", "propagate()"])

p("L02", "Replaying a transaction log rebuilds the same plan database",
  "For any sequence of client operations, saving the recorded transactions and replaying them into a fresh engine of the same model yields a database with the same objects, tokens, states, constraints and derived domains, whatever values the operations carried.",
  ["histories", "inputs"], "all client operation sequences up to the stated length with arbitrary numeric, boolean, string and object values",
  "One test replays a fixed script; value encodings (negative, fractional, infinite, strings) and path naming of entities vary with the history.",
  ["PlanDatabase/component/DbClientTransactionLog.cc", "PlanDatabase/component/DbClientTransactionPlayer.cc", "PlanDatabase/base/DbClient.cc", "PlanDatabase/base/PlanDatabaseWriter.cc"],
  [("transaction recording", "PlanDatabase/component/DbClientTransactionLog.cc"), ("transaction interpretation", "PlanDatabase/component/DbClientTransactionPlayer.cc")], observe=["plan database contents"])

p("S01", "A plan reported as solved has no flaws and satisfies everything",
  "When the solver reports success, no open condition, no unordered token on a timeline in scope and no unbound variable in scope remains, and the resulting network is consistent with every constraint and rule of the model satisfied by any choice of the remaining values it reports as the plan.",
  ["inputs", "configurations"], "all small problems over the stated model family with arbitrary bounds and solver configurations",
  "Solver tests run a few fixed models and compare step counts; wrong flaw detection shows only for particular domains.",
  ["Solvers/base/Solver.cc", "Solvers/base/FlawManager.cc", "Solvers/component/OpenConditionManager.cc", "Solvers/component/ThreatManager.cc", "Solvers/component/UnboundVariableManager.cc"],
  [("search loop and flaw exhaustion", "Solvers/base/Solver.cc"), ("flaw sets", "Solvers/base/FlawManager.cc")], observe=["Solver::solve result", "plan database contents"])

p("S02", "The solver finds a plan whenever one exists within its choices",
  "Given enough steps, the solver succeeds on every problem of the bounded family that has a solution among the alternatives of its decision points, and reports exhaustion only if none exists. Each decision point offers every legal alternative exactly once, in the configured preference order.",
  ["inputs", "configurations"], "all small constraint-satisfaction and planning problems of the stated family",
  "Exhaustion and backtracking are tested on few instances; a lost or skipped alternative only matters if all others fail.",
  ["Solvers/base/Solver.cc", "Solvers/base/SolverDecisionPoint.cc", "Solvers/component/UnboundVariableDecisionPoint.cc", "Solvers/component/OpenConditionDecisionPoint.cc", "Solvers/component/ThreatDecisionPoint.cc", "Solvers/component/ValueSource.cc"],
  [("backtracking search", "Solvers/base/Solver.cc"), ("choice enumeration", "Solvers/component/UnboundVariableDecisionPoint.cc")], observe=["Solver::solve, isExhausted", "values tried"])

p("S03", "Undoing solver decisions restores the plan database",
  "Resetting the solver, or stepping back any number of decisions, returns the database to the exact state it had before those decisions, whether the search had succeeded, failed, timed out or been interrupted between steps.",
  ["histories", "inputs"], "all numbers of forward and backward steps on the bounded problem family",
  "Tests reset after complete searches; partially executed, backtracked or inconsistent decision points are reached only with particular step limits.",
  ["Solvers/base/Solver.cc", "Solvers/base/SolverDecisionPoint.cc", "Solvers/component/OpenConditionDecisionPoint.cc", "Solvers/component/ThreatDecisionPoint.cc"],
  [("reset, backjump, undo", "Solvers/base/Solver.cc")], observe=["plan database contents", "solver depth"])

p("P01", "Resource level bounds enclose every possible execution",
  "For every instant, the lower and upper level reported by a resource profile enclose the level produced by every assignment of transaction times and quantities that respects the temporal constraints. With all times and quantities fixed the bounds coincide with the actual level.",
  ["inputs", "histories"], "all sets of up to the stated number of transactions with arbitrary times, quantities and precedences, and all orders of insertion and removal",
  "Profile tests compare fixed profiles; bound errors appear for particular overlaps, signs and coinciding instants.",
  ["Resource/component/TimetableProfile.cc", "Resource/component/GroundedProfile.cc", "Resource/base/Profile.cc", "Resource/base/Instant.cc"],
  [("timetable level computation", "Resource/component/TimetableProfile.cc"), ("instant maintenance", "Resource/base/Profile.cc")], observe=["profile level bounds at any time"])

p("P02", "Resource limit violations are detected exactly when unavoidable",
  "A resource whose transactions are fully bound is reported inconsistent if and only if its level, consumption or rate limits are exceeded at some instant. With flexible times it is never reported inconsistent while some assignment of times and quantities respects all limits.",
  ["inputs", "histories"], "all sets of up to the stated number of transactions with arbitrary quantities, limits and initial level",
  "Tests check a few violations at fixed times; limits are compared per instant and per kind, and coinciding instants, zero quantities or limits hit exactly are not covered.",
  ["Resource/component/OpenWorldFVDetector.cc", "Resource/component/GenericFVDetector.cc", "Resource/component/GroundedFVDetector.cc", "Resource/base/Profile.cc", "Resource/base/Resource.cc", "Resource/component/Reservoir.cc", "Resource/component/Reusable.cc"],
  [("violation detectors", "Resource/component/GenericFVDetector.cc"), ("resource tokens to transactions", "Resource/component/Reusable.cc")], observe=["propagate()", "flaws and violations reported by the resource"])

p("P03", "Flow profiles are sound and at least as tight as timetables",
  "The flow-based resource profiles enclose every level reachable by an assignment of times that respects the known precedences, and are never looser than the timetable profile of the same transactions. Incremental recomputation gives the same result as recomputation from scratch.",
  ["inputs", "histories"], "all sets of up to the stated number of transactions with arbitrary quantities, times and precedences",
  "Flow tests use fixed graphs; residual-graph updates depend on the order of insertions and on which edges are saturated.",
  ["Resource/component/FlowProfile.cc", "Resource/component/IncrementalFlowProfile.cc", "Resource/component/FlowProfileGraph.cc", "Resource/component/MaxFlow.cc", "Resource/component/Graph.cc"],
  [("max flow level computation", "Resource/component/FlowProfile.cc"), ("incremental update", "Resource/component/IncrementalFlowProfile.cc")], observe=["profile level bounds at any time"])

p("F01", "Solver matching rules apply exactly to what they describe",
  "A heuristic, filter or flaw-handler entry of a solver configuration is applied to an entity if and only if every condition it states (class, predicate, object type, variable name, relation to the master, required guard values) holds for that entity, and when several match the most specific one wins as documented. Horizon filters include a token or variable exactly when its time bounds relate to the horizon as the filter's policy says.",
  ["inputs", "configurations"], "all combinations of stated and unstated conditions over a small schema, all guard values, all horizons and token bounds",
  "Tests configure a few matching rules; the matching engine combines per-condition indexes, so errors show only for particular combinations.",
  ["Solvers/base/MatchingEngine.cc", "Solvers/base/MatchingRule.cc", "Solvers/base/FlawHandler.cc", "Solvers/component/Filters.cc"],
  [("rule matching by condition indexes", "Solvers/base/MatchingEngine.cc"), ("horizon and singleton filters", "Solvers/component/Filters.cc")], observe=["matches returned", "inclusion decision"])

p("M01", "Type and member questions follow the declared inheritance",
  "For any declared hierarchy of object types, the schema answers type-compatibility, member, predicate and parameter questions as the reflexive transitive closure of the declared inheritance says. The database's objects-of-type and variable domains over objects contain exactly the objects whose type is the asked one or derives from it.",
  ["inputs", "configurations"], "all hierarchies of up to the stated number of types, all placements of members and predicates, all objects",
  "Tests declare two-level hierarchies; lookups cache and walk ancestors, so depth, order of declaration and shadowed names matter.",
  ["PlanDatabase/base/Schema.cc", "PlanDatabase/base/ObjectType.cc", "PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/Object.cc"],
  [("isA, canContain, hasParent lookups", "PlanDatabase/base/Schema.cc"), ("object sets and dynamic domains", "PlanDatabase/base/PlanDatabase.cc")], observe=["schema query results", "object domains"])

p("X01", "XML documents survive printing and parsing, and no input breaks the parser",
  "Printing any document and parsing the result gives the same tree: element names, attribute names and values, and text content, including characters that need escaping. Parsing arbitrary input never reads outside the input or loops for ever; it yields a tree or an error.",
  ["inputs"], "all documents up to the stated size and all byte strings up to the stated length",
  "Existing tests parse well-formed configuration files only; entity handling and truncated input are unbounded spaces.",
  ["TinyXml/base/tinyxmlparser.cpp", "TinyXml/base/tinyxml.cpp", "Utils/base/XMLUtils.cc"],
  [("entity decoding and tag scanning", "TinyXml/base/tinyxmlparser.cpp"), ("printing with escapes", "TinyXml/base/tinyxml.cpp")], observe=["parsed tree", "error flag", "memory accesses"])

p("U01", "Symbols and entity handles keep their identity",
  "Two interned symbols are equal exactly when their texts are, converting a symbol to its numeric key and back gives the same symbol, and their ordering is a strict total order. A registered entity is found under its key for exactly as long as it lives, keys are not reused, and using a handle of a deleted entity is reported.",
  ["histories", "inputs"], "all short strings and all create/delete/lookup sequences up to the stated length",
  "Tests intern a few literals and check single handles; aliasing needs particular strings or create/delete orders.",
  ["Utils/base/LabelStr.cc", "Utils/base/Entity.cc", "Utils/base/IdTable.cc", "Utils/base/Id.hh"],
  [("string interning table", "Utils/base/LabelStr.cc"), ("id table", "Utils/base/IdTable.cc"), ("entity registry", "Utils/base/Entity.cc")], observe=["symbol comparison and text", "entity lookup"])

p("A01", "Model text is translated into the model it denotes",
  "For every well-formed NDDL or ANML model text, the parser and interpreter build exactly the types, predicates, rules and initial state the text denotes, and every ill-formed text is rejected with an error instead of being silently misread.",
  ["inputs", "programs"], "all model texts", "Parser tests are a fixed corpus of model files.",
  ["NDDL/component/NddlInterpreter.cc", "NDDL/base/antlr/NDDL3.g", "NDDL/base/antlr/NDDL3Tree.g", "ANML/base/ANMLTranslator.cc"],
  [("grammar and tree walker", "NDDL/base/antlr/NDDL3Tree.g")], observe=["schema and database after loading"])

p("J01", "The Java client sees the same plan as the C++ engine",
  "Every query and update made through the Java client interface returns or changes exactly what the same operation on the C++ engine returns or changes, with handles valid as long as the underlying entities.",
  ["inputs", "histories"], "all client call sequences", "The single Java test class checks a few panels and calls.",
  ["System/base/PSEngineImpl.cc", "Utils/base/PSEntity.hh"], [("SWIG interface layer", "System/base/PSEngineImpl.cc")], observe=["values returned to Java"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in props:
            for x in q["anchors"]["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps(q) + "\n")
    print(len(props))
