"""What decides each property: units of verus/ (None: all their functions, otherwise the functions the property is about)."""
LANG_PRUNE = ["Interaction::express_empty", "EmissionAction::involved_lifelines", "ReceptionAction::involved_lifelines", "EmissionAction::involves_any_of",
              "ReceptionAction::involves_any_of", "EmissionAction::avoids_all_of", "ReceptionAction::avoids_all_of", "Interaction::avoids_all_of",
              "Interaction::prune", "Interaction::prune_with_affected", "LoopKind::can_merge_with_nested"]
VERDICT = ["AnalysisGlobalVerdict::is_verdict_pertinent_for_process", "AnalysisGlobalVerdict::get_baseline_verdict", "AnalysisGlobalVerdict::update_with_local_verdict",
           "AnalysisGlobalVerdict::is_goal_reached", "AnalysisGlobalVerdict::update_knowing_nodes_were_filtered_out", "AnalysisProcessHandler::get_local_verdict_when_no_child",
           "AnalysisProcessHandler::pursue_process_after_static_verdict", "AnalysisProcessHandler::get_local_verdict_from_static_analysis",
           "MultiTraceAnalysisFlags::is_any_component_hidden", "MultiTraceAnalysisFlags::is_multi_trace_empty", "MultiTraceAnalysisFlags::is_simulated", "AnalysisKind::has_simulation"]
ANALYSIS = ["AnalysisParameterization::get_action_matches_in_analysis", "AnalysisKind::get_sim_config", "AnalysisKind::has_simulation", "AnalysisKind::sim_before",
            "TraceAnalysisFlags::new", "TraceAnalysisFlags::new_init", "MultiTraceAnalysisFlags::new", "MultiTraceAnalysisFlags::new_init",
            "MultiTraceAnalysisFlags::is_any_component_empty", "MultiTraceAnalysisFlags::is_multi_trace_empty", "MultiTraceAnalysisFlags::is_any_component_hidden",
            "MultiTraceAnalysisFlags::is_simulated", "MultiTraceAnalysisFlags::update_on_hide", "MultiTraceAnalysisFlags::update_on_execution", "AnalysisNodeKind::new",
            "AnalysisProcessHandler::process_new_step", "AnalysisProcessHandler::collect_next_steps", "AnalysisProcessHandler::get_local_verdict_when_no_child",
            "AnalysisProcessHandler::pursue_process_after_static_verdict", "AnalysisNodeKind::is_included_for_memoization", "AnalysisGlobalVerdict::get_baseline_verdict",
            "AnalysisGlobalVerdict::update_with_local_verdict", "AnalysisGlobalVerdict::is_goal_reached", "multi_trace_length", "AnalysisContext::new", "AnalysisParameterization::new",
            "perform_local_analysis", "AnalysisPriorities::new", "AnalysisPriorities::default", "get_local_analysis_starting_data", "is_dead_local_analysis",
            "AnalysisStaticLocalVerdictAnalysisProof::new", "AnalysisProcessHandler::get_local_verdict_from_static_analysis"]
ENGINE = "graph_process_manager_core (external crate) is assumed to process every step collected at every node it does not give up, and to join the local verdicts of the leaves (contract `engine` in verus/ana_shim.rs)"
ORDER = "the derived order and equality of verdicts, flags and analysis kinds are those of the declaration order and of the fields"
PEST = ["the parser generated by pest gives trees which follow the grammar (predicates shape, wft, yl computed from the .pest file on each run), or refuses the text",
        "contracts of format!, join, repeat, push_str and of the removal of white space (verus/pest_shim.rs)", "opening files and checking their extensions is read, not under contract"]
PROPS = {
    "P01": {"level": "proof", "units": {"u_lang": None, "u_exec": None, "u_frt": None}},
    "P02": {"level": "proof", "units": {"u_aff": None}},
    "P03": {"level": "proof", "units": {"u_lang": LANG_PRUNE}},
    "P04": {"level": "proof", "units": {"u_lang": ["EmissionAction::involved_lifelines", "ReceptionAction::involved_lifelines", "EmissionAction::involves_any_of", "ReceptionAction::involves_any_of", "Interaction::involved_lifelines", "Interaction::involves_any_of",
            "EmissionAction::get_first_atomic_action", "EmissionAction::get_all_atomic_actions", "ReceptionAction::get_all_atomic_actions", "ReceptionAction::get_specific_atomic_action", "ReceptionAction::get_first_atomic_action",
            "Interaction::get_all_trace_actions", "Interaction::get_trace_actions_outside_loops", "TraceAction::new"]}},
    "P05": {"level": "proof", "units": {"u_elim": None}},
    "P06": {"level": "proof", "units": {"u_tr": None, "u_trg": None, "u_canon": None, "u_s2s": None}, "assumptions": ["models with fewer than 2^32 nested loops (the frontier counts them on 32 bits)", "the contract of global_frontier, which transfo_strict_to_seq calls, is discharged by P01 and P07"]},
    "P07": {"level": "proof", "units": {"u_explo": None, "u_exec": None, "u_frt": None}, "assumptions": [ENGINE.replace("`engine` in verus/ana_shim.rs", "is the hypothesis of thm_explo, verus/explo_lem.rs")]},
    "P08": {"level": "proof", "units": {"u_ana": ANALYSIS, "u_col": None}, "assumptions": [ENGINE, ORDER]},
    "P09": {"level": "proof", "units": {"u_ana": VERDICT}, "assumptions": [ENGINE, ORDER]},
    "P10": {"level": "proof", "units": {"u_ana": ["AnalysisFilter::apply_filter", "AnalysisProcessHandler::get_criterion", "AnalysisProcessHandler::process_new_step", "AnalysisNodeKind::new"],
                                        "u_explo": ["ExplorationFilter::apply_filter", "ExplorationProcessHandler::get_criterion", "ExplorationProcessHandler::process_new_step", "ExplorationNodeKind::new"]},
            "assumptions": ["graph_process_manager_core (external crate) is assumed to give each filter the depth of the parent node increased by one, the number of nodes created so far and the criterion of the step, and to give up a step as soon as a filter cuts it"]},
    "P11": {"level": "proof", "units": {"u_ctx": None}},
    "P12": {"level": "proof", "units": {"u_col": None}},
    "P13": {"level": "proof", "units": {"u_met": None, "u_lang": ["EmissionAction::get_all_atomic_actions", "ReceptionAction::get_all_atomic_actions"]},
            "assumptions": ["terms with at most 2^32-1 symbols (the counters are 32 bits wide)", "strum's derived SymbolKind::iter() is assumed to give every kind; get_num_symbols is checked by the bounded search only"]},
    "P14": {"level": "proof", "units": {"u_ord": None}, "assumptions": ["the comparisons derived by the compiler for targets, synchronicities, loop kinds and trace actions are those of the declaration order and of the fields"]},
    "P15": {"level": "proof", "units": {"u_sim": None, "u_ana": VERDICT + ["AnalysisNodeKind::is_included_for_memoization", "AnalysisNodeKind::new", "AnalysisFilter::apply_filter"], "u_met": ["Interaction::max_nested_loop_depth", "Interaction::total_loop_num", "Interaction::get_atomic_actions_number_outside_loops"]},
            "assumptions": [ENGINE, ORDER, "fewer than 64 co-localizations, models reached with fewer than 2^32 symbols, counters of simulated steps below 2^32, 64 bit usize",
                            "analyses without local analyses (they only concern the other kinds)", "cli_analyze.rs, which sets the initial limits, is read, not under contract"]},
    "P16": {"level": "proof", "units": {"u_hif": None, "u_hfp": None}, "assumptions": PEST + [
            "what is written is shown to be the tokens of a tree of the grammar which denotes the model; that the generated parser gives this tree back from these tokens is checked by the bounded search",
            "names of a written model have no white space (they come from a signature file)"]},
    "P17": {"level": "proof", "units": {"u_hsf": None, "u_htf": None, "u_htp": None}, "assumptions": PEST + [
            "what is written is shown to be the tokens of a tree of the grammar which denotes the multi-trace; that the generated parser gives this tree back from these tokens is checked by the bounded search",
            "names of a written multi-trace have no white space (they come from a signature file)"]},
    "P18": {"level": "proof", "units": {"u_tge": ["TraceGenLoggerObject::new", "MultiTraceProcessPrinter::should_generate_multi_trace_on_interaction_reached", "MultiTraceProcessPrinter::get_initial_multi_trace", "MultiTraceProcessPrinter::get_lf_coloc_id",
            "MultiTraceProcessPrinter::add_actions_to_multi_trace", "MultiTraceProcessPrinter::get_initial_object", "MultiTraceProcessPrinter::add_step_to_object", "MultiTraceProcessPrinter::should_print_on_node_reached",
            "ActionNFAITPrinter::step_into_letter", "ActionNFAITPrinter::is_node_final"], "u_tga": None, "u_lang": ["Interaction::express_empty"]},
            "assumptions": ["graph_process_manager_loggers (external crate) is assumed to build the object of a node from that of its parent and the step between them, and to write it where asked",
                            "partitions which cover the lifelines of the model, a modulo of at least 1, fewer than 2^64 letters", "print_object, which writes the file, is checked by the bounded search; the text itself is P17"]},
    "P19": {"level": "proof", "units": {"u_hcl": None, "u_hca": None, "u_hce": None, "u_hcc": None}, "assumptions": PEST + [
            "str::parse gives the value of the decimal numbers which fit its type, and nothing is said of the others: numbers which do not fit in 32 bits make the tool stop",
            "the constructors of the external loggers, strategies and filters keep what they are given (contracts in verus/hcf_shim.rs); the name of the files of a nfait logger and draw_sub_processes have no counterpart",
            "sections of canonizations which hold only graphic loggers and search_all (the code stops on the other options there), fewer than 2^32 loggers",
            "the order of the alternatives of the grammar (a keyword hidden by a shorter one) is decided by the bounded search"]},
}
UNIT_TRUST = {}
