TRUST = "Assumes the contracts of the standard library collections (verus/shim.rs), Verus/Z3 and the extractor; recursion depth and memory are unbounded."
NA = {}
TEXT = [
 {"id": "P01", "title": "Step-by-step execution accepts exactly the traces of the interaction",
  "statement": "For every interaction model and every trace, the trace is accepted by repeatedly picking an immediately executable action and replacing the model by its follow-up, until a model that accepts the empty trace is reached, if and only if it belongs to the trace semantics of the model given by its operators (strict and weak sequencing, concurrent regions, interleaving, synchronized product, choice, the four kinds of loops, synchronous and asynchronous communications). The announced lifelines and loop depth of an executable action are those of the action, with and without delayed choice.",
  "over": ["inputs", "histories"], "quant": "every well-formed interaction term, every executable action, every follow-up chain, both choices of delayed alternatives",
  "why": "No test executes a model at all; the space of terms and traces is infinite and the interplay of pruning with each operator only shows on particular nestings.",
  "files": ["src/core/execution/semantics/frontier.rs", "src/core/execution/semantics/execute.rs", "src/core/language/prune/interaction.rs", "src/core/language/avoid/implem.rs", "src/core/language/syntax/interaction.rs"],
  "mech": [("frontier of immediately executable actions", "src/core/execution/semantics/frontier.rs"), ("follow-up term of an executed action", "src/core/execution/semantics/execute.rs"), ("pruning of the left operand", "src/core/language/prune/interaction.rs")],
  "observe": ["global_frontier", "execute_interaction", "Interaction::express_empty"],
  "note": "Every function from the frontier to the follow-up is under contract and discharged for all inputs; the theorem that these contracts give exactly the denotational trace semantics is proved. Terms without operands of the unsupported logical conjunction. " + TRUST},
 {"id": "P02", "title": "Lifelines not reported as affected by a step keep their behaviour",
  "statement": "When an executable action is executed and the affected lifelines are requested, every lifeline which is not reported sees no difference: for every set of lifelines that contains the reported ones, forgetting these lifelines in the model before the step and forgetting them in the model after the step give models which accept the same traces. The same holds for the pruning which reports affected lifelines, and requesting the affected lifelines does not change which traces the follow-up accepts.",
  "over": ["inputs", "histories"], "quant": "every well-formed interaction term, every executable action, every set of lifelines above the reported one",
  "why": "The local analysis of multi-traces skips re-checking the lifelines that are not reported; a lifeline missing from the report only shows for a particular choice or loop removed by pruning, never in the existing tests.",
  "files": ["src/core/execution/semantics/execute.rs", "src/core/language/prune/interaction.rs", "src/core/language/eliminate_lf/interaction.rs"],
  "mech": [("affected lifelines of a step", "src/core/execution/semantics/execute.rs"), ("affected lifelines of a pruning", "src/core/language/prune/interaction.rs")],
  "observe": ["execute_interaction", "ExecutionResult::affected_lifelines", "LifelinePrunable::prune_with_affected"],
  "note": "All functions under contract, discharged for all inputs (the elimination that states the property is the specification-level one; that the code computes it is P05). " + TRUST},
 {"id": "P03", "title": "Pruning keeps exactly the behaviours that avoid the pruned lifelines",
  "statement": "Whenever a model can avoid a set of lifelines, pruning it with respect to this set gives a model which accepts exactly the traces of the original one which have no action on these lifelines. A model is said to accept the empty behaviour exactly when the empty trace is one of its traces, and to be able to avoid lifelines exactly when its choices and loops can be resolved so that no action on these lifelines remains.",
  "over": ["inputs"], "quant": "every well-formed interaction term and every set of lifelines",
  "why": "No test prunes a term; a wrong case shows only for a particular operator below another one and a particular set of lifelines.",
  "files": ["src/core/language/prune/interaction.rs", "src/core/language/avoid/implem.rs", "src/core/language/syntax/interaction.rs", "src/core/language/involve/interaction.rs"],
  "mech": [("prune, and prune reporting affected lifelines", "src/core/language/prune/interaction.rs"), ("avoidance", "src/core/language/avoid/implem.rs"), ("emptiness", "src/core/language/syntax/interaction.rs")],
  "observe": ["LifelinePrunable::prune", "LifelinePrunable::prune_with_affected", "AvoidsLifelines::avoids_all_of", "Interaction::express_empty"],
  "note": "All functions under contract, discharged for all inputs against the denotational semantics. " + TRUST},
 {"id": "P04", "title": "Lifelines and actions attributed to a model are exactly those occurring in it",
  "statement": "The set of lifelines involved in a model, the answer to whether it involves one of given lifelines, and the sets of its observable actions (all of them, or only those outside loops) are exactly those of the emissions and receptions written in it. Every action of every accepted trace belongs to the set of actions of the model.",
  "over": ["inputs"], "quant": "every well-formed interaction term, every set of lifelines",
  "why": "The existing tests never compute these sets; errors concern one operator or one kind of target and need a term which has it at the right depth.",
  "files": ["src/core/language/involve/interaction.rs", "src/core/language/involve/action.rs", "src/core/execution/trace/from_model/interaction.rs", "src/core/execution/trace/from_model/primitive.rs"],
  "mech": [("involved lifelines", "src/core/language/involve/"), ("trace actions from the model", "src/core/execution/trace/from_model/")],
  "observe": ["InvolvesLifelines::involved_lifelines", "InteractionTraceActionsExtractor"],
  "note": "All functions under contract, discharged for all inputs. " + TRUST},
 {"id": "P05", "title": "Eliminating lifelines removes exactly their actions",
  "statement": "Eliminating a set of lifelines from a model gives a model in which no emission, reception, concurrent region or synchronization refers to these lifelines any more, which involves exactly the other lifelines of the original, and which accepts exactly the traces of the term obtained by dropping the actions of these lifelines from each communication. For models without synchronized products and head-first loops, every accepted trace of the original, projected on the remaining lifelines, is accepted by the result.",
  "over": ["inputs"], "quant": "every well-formed interaction term and every set of lifelines",
  "why": "No test eliminates a lifeline; the simplifications made on the way are right or wrong depending on the operators above and below the removed action.",
  "files": ["src/core/language/eliminate_lf/interaction.rs", "src/core/language/eliminate_lf/action.rs"],
  "mech": [("elimination of lifelines", "src/core/language/eliminate_lf/")],
  "observe": ["LifelineEliminable::eliminate_lifelines"],
  "note": "All functions under contract, discharged for all inputs; the projection is a theorem over the contract. " + TRUST},
 {"id": "P06", "title": "Transforming a model never changes the traces it accepts",
  "statement": "Every transformation proposed for a model (simplification, flushing, inversion, deduplication, factorization of prefixes, suffixes and interleaved parts, de-factorization, simplification and un-nesting of loops, sorting of targets, turning strict sequencing or interleaving into weak sequencing, unfolding of actions), at whatever position of the term and whether all of them or only one are requested, yields a model which accepts exactly the same traces. The transformation announced at a position replaces the sub-term at this position only, and its kind is one of those requested. Hence every model reached by a canonization process accepts the traces of the model it started from.",
  "over": ["inputs", "histories"], "quant": "every well-formed interaction term, every kind of transformation, every position, every sequence of transformations",
  "why": "The existing tests apply a handful of transformations to a handful of terms and compare the syntax of the results; whether the traces are kept has never been checked and depends on the operators around and below the rewritten sub-term.",
  "files": ["src/core/transformation/transfokind.rs", "src/core/transformation/get_transfos/get_all_transfos.rs", "src/core/transformation/get_transfos/get_one_transfo.rs", "src/core/transformation/transfofunc/simpl.rs", "src/core/transformation/transfofunc/factorize/factorize_prefix.rs", "src/core/language/syntax/util/get_recursive_frag.rs", "src/core/language/syntax/util/fold_recursive_frags.rs"],
  "mech": [("transformations", "src/core/transformation/transfofunc/"), ("search at every position", "src/core/transformation/get_transfos/"), ("fragments of associative operators", "src/core/language/syntax/util/")],
  "observe": ["get_all_transformations_rec", "get_one_transformation_rec", "InteractionTransformationPhase::get_transfos"],
  "note": "All functions under contract and discharged for all inputs against the denotational semantics (models with fewer than 2^32 nested loops). " + TRUST},
 {"id": "P07", "title": "Explorations find exactly the behaviours of the model",
  "statement": "An exploration whose steps are not filtered out follows, from each model it reaches, exactly the immediately executable actions of this model: the traces along the paths from the initial node to the nodes reported as accepting are exactly the traces of the initial model. A node is accepting exactly when its model accepts the empty trace, whether it has further steps or not, and exploration goes on below accepting nodes. Deadlocks are reported exactly when a node without any step is not accepting.",
  "over": ["inputs", "histories"], "quant": "every well-formed interaction term, every node reached, every exploration order",
  "why": "No test explores a model and the set of paths is infinite; a step lost or added at one node only shows in the traces below this node.",
  "files": ["src/process/explo/handling/handler.rs", "src/process/explo/node.rs", "src/process/explo/verdict/global.rs", "src/core/execution/semantics/frontier.rs", "src/core/execution/semantics/execute.rs"],
  "mech": [("steps of a node, node of a step, verdicts", "src/process/explo/handling/handler.rs"), ("deadlock verdict", "src/process/explo/verdict/global.rs")],
  "observe": ["ExplorationProcessHandler", "ExplorationGlobalVerdict"],
  "note": "The handler, the verdicts, the frontier and the execution are under contract, discharged for all inputs; the correspondence of paths and traces is a theorem over these contracts. The external search engine is assumed to process every step it is given. " + TRUST},
 {"id": "P08", "title": "Multi-trace analysis passes exactly the multi-traces the model allows",
  "statement": "Consider a multi-trace whose canals are co-localizations which partition the lifelines of the model, each observable step of the model being on a single co-localization, and analyses without filters and without partial order reduction. An acceptance analysis gives Pass if the multi-trace is the projection of a trace of the model and Fail otherwise; a prefix analysis gives Pass exactly on the same multi-traces. For models without synchronized products a prefix analysis gives at least WeakPass exactly when the multi-trace is the projection of a beginning of a trace of the model. An analysis which eliminates lifelines gives Pass only to projections of traces, and never Fail to a multi-trace each component of which is a beginning of the projection of a common trace. This does not depend on the order of the search, on memoization, nor (models without synchronized products and head-first loops) on the use of local analyses: a local analysis gives up a node only when no behaviour of its model starts with what remains on some canal.",
  "over": ["inputs", "histories", "schedules"], "quant": "every well-formed interaction term, every co-localization partition, every multi-trace, every search order, with and without memoization and local analyses",
  "why": "No test runs an analysis; the verdict depends on the interplay of matching, execution, elimination, flags, memoization and local analyses over all interleavings of the canals.",
  "files": ["src/process/ana/handling/matches.rs", "src/process/ana/handling/handler.rs", "src/process/ana/handling/local_analysis.rs", "src/process/ana/node/flags.rs", "src/process/ana/node/node.rs", "src/core/colocalizations.rs", "src/core/execution/trace/multitrace.rs"],
  "mech": [("matching of executable actions with the heads of the canals", "src/process/ana/handling/matches.rs"), ("steps, nodes and verdicts of the process", "src/process/ana/handling/handler.rs"), ("local analyses", "src/process/ana/handling/local_analysis.rs"), ("consumption and elimination flags", "src/process/ana/node/flags.rs"), ("memoization", "src/process/ana/node/node.rs")],
  "observe": ["GenericProcessManager::start_process", "AnalysisProcessHandler", "AnalysisNodeKind::is_included_for_memoization"],
  "note": "All functions under contract, discharged for all inputs; the verdicts are theorems over these contracts. Not covered: partial order reduction (documented as experimental); simulation is P15. The external search engine is assumed. " + TRUST},
 {"id": "P09", "title": "Verdicts report the best outcome found and never hide filtered nodes",
  "statement": "The verdict of an analysis is the best, in the order Fail, WeakFail, Inconc, WeakPass, Pass, of the outcomes of its leaves, whatever the order in which they are found; without any leaf it is Fail. The outcome of a leaf depends on the kind of analysis, on whether its multi-trace is entirely consumed, on whether its model can end, and on whether lifelines were eliminated, as documented: full coverage, too short, multi-prefix, slice, out, inconclusive. A goal is reached exactly when the verdict is at least the goal. If nodes were filtered out, Fail is never reported, the verdict then being inconclusive; other verdicts are kept. A multi-trace which is not accepted is never passed even if nodes are filtered out or the analysis stops at its goal.",
  "over": ["inputs", "histories"], "quant": "every pair of verdicts, every leaf, every sequence of leaves, every kind of analysis",
  "why": "No test looks at verdicts; a wrong case needs the particular pair of a current verdict and a leaf, or filters together with a failing analysis.",
  "files": ["src/process/ana/verdict/global.rs", "src/process/ana/verdict/local.rs", "src/process/ana/handling/handler.rs", "src/process/ana/node/flags.rs"],
  "mech": [("join of the local verdicts, goal, filtered nodes", "src/process/ana/verdict/global.rs"), ("verdict of a leaf", "src/process/ana/handling/handler.rs")],
  "observe": ["AnalysisGlobalVerdict::update_with_local_verdict", "AnalysisGlobalVerdict::is_goal_reached", "AnalysisGlobalVerdict::update_knowing_nodes_were_filtered_out", "AnalysisProcessHandler::get_local_verdict_when_no_child"],
  "note": "All functions under contract, discharged for all inputs. The order derived by the compiler for the verdicts is assumed to be the declaration order (checked on all pairs by the harness). " + TRUST},
 {"id": "P10", "title": "Filters cut explorations and analyses exactly beyond the requested limits",
  "statement": "A filter on the depth gives up a step exactly when it leads to a depth greater than the limit, a filter on the number of nodes exactly when as many nodes as the limit were already created, a filter on loops exactly when the steps which lead to the node entered more loops than the limit; the reported reason is the one of the filter. The number of loops of a node is the one of its parent plus the number of nested loops in which the executed action is, both when it is filtered and when it is kept, in explorations and in analyses; steps which eliminate lifelines enter no loop.",
  "over": ["inputs", "histories"], "quant": "every limit, depth and number of nodes, every node and every executable action",
  "why": "No test runs a process with a filter; limits only show at their exact value and the loop depth only for actions below nested loops after other steps.",
  "files": ["src/process/ana/filter/filter.rs", "src/process/explo/filter/filter.rs", "src/process/ana/handling/handler.rs", "src/process/explo/handling/handler.rs"],
  "mech": [("filters", "src/process/ana/filter/filter.rs"), ("filters", "src/process/explo/filter/filter.rs"), ("loop depth of a step", "src/process/ana/handling/handler.rs"), ("loop depth of a step", "src/process/explo/handling/handler.rs")],
  "observe": ["AbstractFilter::apply_filter", "AbstractProcessHandler::get_criterion"],
  "note": "All functions under contract, discharged for all inputs. The external engine is assumed to consult every filter for every step. " + TRUST},
 {"id": "P11", "title": "Names and identifiers of lifelines, messages and gates correspond",
  "statement": "Within a signature, adding the name of a lifeline, a message or a gate gives the identifier it already has, or the next unused one if it is new, and never changes the identifier of another name nor the other two kinds. Looking up a name gives its identifier, or nothing if it was never added; looking up an identifier gives its name, or the error for an unknown lifeline, message or gate, whichever was asked for, with this identifier. So names and identifiers correspond one to one, in every order of additions.",
  "over": ["inputs", "histories"], "quant": "every sequence of additions and look-ups of names of the three kinds",
  "why": "The existing tests only ever add distinct names in a fixed order and never look up unknown ones; every parser, printer and process relies on the correspondence.",
  "files": ["src/core/general_context.rs"],
  "mech": [("signature", "src/core/general_context.rs")],
  "observe": ["GeneralContext::add_lf", "GeneralContext::add_msg", "GeneralContext::add_gt", "GeneralContext::get_lf_name", "GeneralContext::get_ms_name", "GeneralContext::get_gt_name"],
  "note": "All functions under contract, discharged for all inputs. " + TRUST},
 {"id": "P12", "title": "Co-localizations and lifelines are mapped to each other exactly",
  "statement": "The trivial partition of n lifelines has the single co-localization of all of them and the discrete one has one co-localization per lifeline, in order. A lifeline is on the first co-localization which contains it, or on none; a set of lifelines is on exactly the co-localizations of its elements; a set of co-localizations has exactly the lifelines these contain; co-localizations are said to be singletons exactly when none of them has two lifelines.",
  "over": ["inputs"], "quant": "every list of sets of lifelines, every lifeline, every set of lifelines or of co-localizations",
  "why": "No test builds co-localizations other than by hand nor asks these questions; analyses give wrong verdicts if a lifeline is looked for on another canal.",
  "files": ["src/core/colocalizations.rs", "src/core/general_context.rs"],
  "mech": [("co-localizations", "src/core/colocalizations.rs")],
  "observe": ["CoLocalizations::get_lf_coloc_id", "CoLocalizations::get_coloc_ids_from_lf_ids", "CoLocalizations::get_lf_ids_from_coloc_ids", "CoLocalizations::are_colocalizations_singletons"],
  "note": "All functions under contract, discharged for all inputs. Identifiers given must be in range (asking for an unknown one panics). " + TRUST},
 {"id": "P13", "title": "Metrics of a model count exactly what is written in it",
  "statement": "The metrics of a model give, for each kind of symbol, the number of its occurrences (loops with strict repetition apart from the other loops), the depth of its syntax tree, the largest number of loops nested in one another and the set of lifelines of its emissions and receptions. The total number of loops, the largest loop depth and the number of elementary actions (all of them, or those outside loops), which bound simulations in analyses, are also exactly those of the term.",
  "over": ["inputs"], "quant": "every well-formed interaction term",
  "why": "No test computes a metric; a wrong count concerns one operator or one branch of the recursion.",
  "files": ["src/core/language/syntax/metrics.rs", "src/core/execution/trace/from_model/interaction.rs", "src/core/execution/trace/from_model/primitive.rs"],
  "mech": [("metrics", "src/core/language/syntax/metrics.rs"), ("number of atomic actions", "src/core/execution/trace/from_model/interaction.rs")],
  "observe": ["InteractionMetrics::extract_from_interaction", "Interaction::max_nested_loop_depth", "Interaction::total_loop_num", "get_atomic_actions_number", "get_atomic_actions_number_outside_loops"],
  "note": "All functions under contract, discharged for all inputs of less than 2^32 symbols. " + TRUST},
 {"id": "P14", "title": "The order on models is total and consistent with their equality",
  "statement": "Comparing two models with the order which sorts alternatives and interleaved parts in canonical forms gives Equal exactly when they are the same term; swapping them reverses the answer; and the order is transitive. The same holds for emissions, receptions and their targets.",
  "over": ["inputs"], "quant": "every pair and triple of interaction terms",
  "why": "No test compares models; an inconsistent case makes sorting depend on the initial order, or panic, and concerns a particular pair of operators or a particular field.",
  "files": ["src/core/language/ord/action.rs", "src/core/language/ord/interaction.rs"],
  "mech": [("order on terms", "src/core/language/ord/interaction.rs"), ("order on actions", "src/core/language/ord/action.rs")],
  "observe": ["Ord for Interaction", "Ord for EmissionAction", "Ord for ReceptionAction", "Ord for EmissionTargetRef"],
  "note": "All functions under contract, discharged for all inputs; the order laws are theorems over the contract. " + TRUST},
 {"id": "P15", "title": "Simulations pass exactly what is accepted, and only weakly slices of it",
  "statement": "Consider a multi-trace whose canals are co-localizations which partition the lifelines of the model (steps may be observed on several of them), and an analysis by simulation without filters, whatever the limits on the simulated loops and actions. It gives Pass exactly when the multi-trace is what is observed of a trace of the model, each step being seen on every co-localization it concerns. For models without synchronized products, it gives WeakPass only if each canal is a slice of what is observed there of a common trace of the model, and a prefix of it if observation may not start late. Without limits on the simulated loops and actions, it gives at least WeakPass to all these multi-traces when it ends. A simulated step is added only on canals entirely consumed or, if observation may start late, on those of which nothing is consumed yet; remaining numbers of loops and actions are those of the chosen criterion, times the length of the multi-trace if asked for, decreased at each simulated step and reset as asked for, and never overflow. This does not depend on the order of the search nor on memoization.",
  "over": ["inputs", "histories", "schedules"], "quant": "every well-formed interaction term, every co-localization partition, every multi-trace, every simulation configuration, every search order, with and without memoization",
  "why": "No test runs an analysis; simulation depends on every choice, among the canals concerned by a step, of those which match and of those which are simulated, over all interleavings and all limits.",
  "files": ["src/process/ana/handling/matches.rs", "src/process/ana/handling/handler.rs", "src/process/ana/node/flags.rs", "src/process/ana/param/anakind.rs", "src/util/powerset.rs"],
  "mech": [("choices between matching and simulating on each canal", "src/process/ana/handling/matches.rs"), ("counters and limits", "src/process/ana/node/flags.rs"), ("initial limits", "src/process/ana/param/anakind.rs"), ("all the choices", "src/util/powerset.rs")],
  "observe": ["GenericProcessManager::start_process", "AnalysisKind::Simulate", "SimulationConfiguration::get_reset_rem_loop", "SimulationConfiguration::get_reset_rem_act"],
  "note": "All functions under contract, discharged for all inputs; the verdicts are theorems over these contracts. The external search engine is assumed. " + TRUST},
 {"id": "P16", "title": "Models are read as written, and written so that they read back",
  "statement": "Reading the text of a model within a signature gives the interaction it denotes: a communication has the written origin, synchronicity (asynchronous by default), message and recipients, in their order, a name standing for the lifeline of this name or, where gates are possible, else for the gate of this name; an operator applied to n operands is nested to the right, in their order; loops, concurrent regions and synchronized products have the written kind, lifelines and actions. Unknown names and repeated recipients or lifelines are errors, as is a text which is not of the grammar; nothing makes the reader panic. Conversely, the text written for a model (without synchronized products, logical conjunctions, receptions without recipient and regions without lifelines; no gate named as a lifeline) reads back, in the same signature, as the same model, up to the grouping of nested uses of a same operator.",
  "over": ["inputs"], "quant": "every signature, every text, every interaction term",
  "why": "No test reads or writes a model; a wrong case is a particular operator, kind of loop, order of operands or form of communication at a particular place of the term.",
  "files": ["src/io/input/hif/interaction.rs", "src/io/input/hif/trace.rs", "src/io/input/hif/action/action.rs", "src/io/input/hif/action/act_content.rs", "src/io/input/hif/action/act_targets.rs", "src/io/input/hif/hif_syntax.pest", "src/io/output/to_hfiles/interaction/interaction.rs", "src/io/output/to_hfiles/interaction/model_action.rs", "src/core/language/syntax/util/get_recursive_frag.rs"],
  "mech": [("reading of models", "src/io/input/hif/"), ("writing of models", "src/io/output/to_hfiles/interaction/"), ("operands of nested operators", "src/core/language/syntax/util/get_recursive_frag.rs")],
  "observe": ["parse_hif_string", "interaction_as_hif_encoding"],
  "note": "All functions which read trees and write texts are under contract, discharged for all inputs; the parser generated by pest is assumed to follow the grammar. " + TRUST},
 {"id": "P17", "title": "Signatures and multi-traces are read as written, and read back as written out",
  "statement": "Reading a signature gives the lifelines, messages and gates of its declarations, identified by the order of their first occurrence; two declarations of the same kind are an error. Reading a multi-trace within a signature gives co-localizations which partition all lifelines, with one trace each: the canals in the order of the text with their lifelines (those listed; or all those of no previous canal; or those of its actions), then one canal without actions for each lifeline of no canal; the trace of a canal has the written sets of actions in their order. A text without canals is a single trace of all lifelines. Unknown names, a lifeline on two canals and actions on a lifeline of another canal are errors; nothing makes the reader panic. Conversely, the text written for a multi-trace whose co-localizations partition the lifelines, each element having some action, reads back, in the same signature, as the same co-localizations and traces.",
  "over": ["inputs"], "quant": "every text, every signature, every multi-trace and partition into co-localizations",
  "why": "No test reads a signature or writes a multi-trace; a wrong case needs a particular combination of canals, kinds of canals and missing lifelines.",
  "files": ["src/io/input/hsf/implem.rs", "src/io/input/htf/implem.rs", "src/io/input/htf/multi_trace.rs", "src/io/input/htf/trace.rs", "src/io/input/htf/htf_syntax.pest", "src/io/input/hsf/hsf_syntax.pest", "src/io/output/to_hfiles/trace/multi_trace.rs", "src/io/output/to_hfiles/trace/trace_action.rs"],
  "mech": [("reading of signatures", "src/io/input/hsf/"), ("reading of multi-traces", "src/io/input/htf/"), ("writing of multi-traces", "src/io/output/to_hfiles/trace/")],
  "observe": ["parse_hsf_string", "multitrace_from_text", "multi_trace_as_htf_encoding"],
  "note": "All functions which read trees and write texts are under contract, discharged for all inputs; the parser generated by pest is assumed to follow the grammar. " + TRUST},
 {"id": "P18", "title": "Generated multi-traces are what is observed along the explored paths",
  "statement": "When multi-traces are generated during an exploration or an analysis for a partition of the lifelines into co-localizations, the multi-trace of a node is what the co-localizations observe of the steps from the initial node to it: it has one local trace per co-localization, each step adds to the local trace of a co-localization, at its end, the set of the actions of the step which occur on its lifelines, if there are some, and nothing else; the steps of an analysis which eliminate lifelines add nothing. It is written exactly at the nodes asked for: those whose model accepts the empty trace, those at the given depth, or those whose depth is a multiple of the given number. Hence a multi-trace written at an accepting node, each step of which concerns a single co-localization, is accepted by the model. Likewise in the automaton built from an exploration, two steps have the same letter exactly when they have the same actions, and the final states are those whose model accepts the empty trace.",
  "over": ["inputs", "histories"], "quant": "every well-formed interaction term, every partition into co-localizations, every path, every kind of generation",
  "why": "No test generates a trace; a wrong case needs a step on a particular co-localization after others, a step seen by several of them, or a particular depth.",
  "files": ["src/loggers/tracegen/printer.rs", "src/loggers/tracegen/object.rs", "src/process/explo/loggers/slog/printer.rs", "src/process/ana/loggers/slog/printer.rs", "src/process/explo/loggers/nfait/printer.rs"],
  "mech": [("multi-trace of a path", "src/loggers/tracegen/printer.rs"), ("steps of explorations", "src/process/explo/loggers/slog/printer.rs"), ("steps of analyses", "src/process/ana/loggers/slog/printer.rs"), ("letters of automata", "src/process/explo/loggers/nfait/printer.rs")],
  "observe": ["MultiTraceProcessPrinter", "ActionNFAITPrinter"],
  "note": "All functions under contract, discharged for all inputs; that the multi-traces written at accepting nodes are accepted is a theorem over these contracts. The external loggers which call these functions are assumed. " + TRUST},
 {"id": "P19", "title": "Configuration files are honoured as written",
  "statement": "For every configuration file (.hcf), what the tool sets up for an analysis, an exploration or a canonization is what the section of this process in the file asks for, and nothing else: each option has the value written for it in each of the spellings of the grammar (loggers in order with their own options, strategy, filters in order with their numbers, each priority and randomization, memoization, kind of analysis with each parameter of its simulation, goal, local analyses with each parameter, partial order reduction, search_all), the last one when it is written several times, and its default when it is not written; sections of the other processes change nothing; a file without the section gives the default set-up. An error is reported, and nothing is set up, when the section appears twice, when an option does not exist for the process (nfait logger for an analysis, elim or simu priority for an exploration, priorities of transformations), or when a partition names an undeclared lifeline or one lifeline twice. Spaces and comments between the tokens change nothing.",
  "over": ["inputs"], "quant": "every text of configuration of the grammar with numbers which fit in 32 bits, every signature",
  "why": "No test reads a configuration; a wrong case needs one particular option, spelling, order or combination of options.",
  "files": ["src/io/input/hcf/hcf_syntax.pest", "src/io/input/hcf/ana/options.rs", "src/io/input/hcf/ana/interface.rs", "src/io/input/hcf/explo/options.rs", "src/io/input/hcf/explo/interface.rs", "src/io/input/hcf/canon/options.rs", "src/io/input/hcf/canon/interface.rs", "src/io/input/hcf/loggers/graphviz.rs", "src/io/input/hcf/loggers/tracegen.rs", "src/io/input/hcf/loggers/nfait.rs"],
  "mech": [("grammar", "src/io/input/hcf/hcf_syntax.pest"), ("options of analyses", "src/io/input/hcf/ana/options.rs"), ("options of explorations", "src/io/input/hcf/explo/options.rs"), ("options of canonizations", "src/io/input/hcf/canon/options.rs"), ("loggers", "src/io/input/hcf/loggers/tracegen.rs")],
  "observe": ["parse_hcf_file_for_ana", "parse_hcf_file_for_explore", "parse_hcf_file_for_canonize"],
  "note": "All functions from the text to the options under contract, discharged for every tree of the grammar computed from the .pest file. " + TRUST},
]
