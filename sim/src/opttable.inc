// generated by tools/mkopttable.py from doc/options.dox
{"tol", 'N', "0", 1, NULL, 0, "1e-8", ""},
{"s_max", 'N', "0", 1, NULL, 0, "100", ""},
{"max_iter", 'I', "0", 0, NULL, 0, "3000", ""},
{"max_wall_time", 'N', "0", 1, NULL, 0, "1e20", ""},
{"max_cpu_time", 'N', "0", 1, NULL, 0, "1e20", ""},
{"dual_inf_tol", 'N', "0", 1, NULL, 0, "1", ""},
{"constr_viol_tol", 'N', "0", 1, NULL, 0, "0.0001", ""},
{"compl_inf_tol", 'N', "0", 1, NULL, 0, "0.0001", ""},
{"acceptable_tol", 'N', "0", 1, NULL, 0, "1e-6", ""},
{"acceptable_iter", 'I', "0", 0, NULL, 0, "15", ""},
{"acceptable_dual_inf_tol", 'N', "0", 1, NULL, 0, "1e10", ""},
{"acceptable_constr_viol_tol", 'N', "0", 1, NULL, 0, "0.01", ""},
{"acceptable_compl_inf_tol", 'N', "0", 1, NULL, 0, "0.01", ""},
{"acceptable_obj_change_tol", 'N', "0", 0, NULL, 0, "1e20", ""},
{"diverging_iterates_tol", 'N', "0", 1, NULL, 0, "1e20", ""},
{"mu_target", 'N', "0", 0, NULL, 0, "0", ""},
{"print_level", 'I', "0", 0, "12", 0, "5", ""},
{"output_file", 'S', NULL, 0, NULL, 0, "", "*"},
{"file_print_level", 'I', "0", 0, "12", 0, "5", ""},
{"file_append", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"print_user_options", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"print_options_documentation", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"print_timing_statistics", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"print_options_mode", 'S', NULL, 0, NULL, 0, "text", "text|latex|doxygen"},
{"print_advanced_options", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"print_info_string", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"inf_pr_output", 'S', NULL, 0, NULL, 0, "original", "internal|original"},
{"print_frequency_iter", 'I', "1", 0, NULL, 0, "1", ""},
{"print_frequency_time", 'N', "0", 0, NULL, 0, "0", ""},
{"nlp_lower_bound_inf", 'N', NULL, 0, NULL, 0, "-1e19", ""},
{"nlp_upper_bound_inf", 'N', NULL, 0, NULL, 0, "1e19", ""},
{"fixed_variable_treatment", 'S', NULL, 0, NULL, 0, "make_parameter", "make_parameter|make_parameter_nodual|make_constraint|relax_bounds"},
{"dependency_detection_with_rhs", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"num_linear_variables", 'I', "0", 0, NULL, 0, "0", ""},
{"jacobian_approximation", 'S', NULL, 0, NULL, 0, "exact", "exact|finite-difference-values"},
{"gradient_approximation", 'S', NULL, 0, NULL, 0, "exact", "exact|finite-difference-values"},
{"findiff_perturbation", 'N', "0", 1, NULL, 0, "1e-7", ""},
{"kappa_d", 'N', "0", 0, NULL, 0, "1e-5", ""},
{"bound_relax_factor", 'N', "0", 0, NULL, 0, "1e-8", ""},
{"honor_original_bounds", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"check_derivatives_for_naninf", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"grad_f_constant", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"jac_c_constant", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"jac_d_constant", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"hessian_constant", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"nlp_scaling_method", 'S', NULL, 0, NULL, 0, "gradient-based", "none|user-scaling|gradient-based|equilibration-based"},
{"obj_scaling_factor", 'N', NULL, 0, NULL, 0, "1", ""},
{"nlp_scaling_max_gradient", 'N', "0", 1, NULL, 0, "100", ""},
{"nlp_scaling_obj_target_gradient", 'N', "0", 0, NULL, 0, "0", ""},
{"nlp_scaling_constr_target_gradient", 'N', "0", 0, NULL, 0, "0", ""},
{"nlp_scaling_min_value", 'N', "0", 0, NULL, 0, "1e-8", ""},
{"bound_push", 'N', "0", 1, NULL, 0, "0.01", ""},
{"bound_frac", 'N', "0", 1, "0.5", 0, "0.01", ""},
{"slack_bound_push", 'N', "0", 1, NULL, 0, "0.01", ""},
{"slack_bound_frac", 'N', "0", 1, "0.5", 0, "0.01", ""},
{"constr_mult_init_max", 'N', "0", 0, NULL, 0, "1000", ""},
{"bound_mult_init_val", 'N', "0", 1, NULL, 0, "1", ""},
{"bound_mult_init_method", 'S', NULL, 0, NULL, 0, "constant", "constant|mu-based"},
{"least_square_init_primal", 'S', NULL, 0, NULL, 0, "no", "no|yes"},
{"least_square_init_duals", 'S', NULL, 0, NULL, 0, "no", "no|yes"},
{"warm_start_init_point", 'S', NULL, 0, NULL, 0, "no", "no|yes"},
{"warm_start_same_structure", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"warm_start_bound_push", 'N', "0", 1, NULL, 0, "0.001", ""},
{"warm_start_bound_frac", 'N', "0", 1, "0.5", 0, "0.001", ""},
{"warm_start_slack_bound_push", 'N', "0", 1, NULL, 0, "0.001", ""},
{"warm_start_slack_bound_frac", 'N', "0", 1, "0.5", 0, "0.001", ""},
{"warm_start_mult_bound_push", 'N', "0", 1, NULL, 0, "0.001", ""},
{"warm_start_mult_init_max", 'N', NULL, 0, NULL, 0, "1e6", ""},
{"warm_start_entire_iterate", 'S', NULL, 0, NULL, 0, "no", "no|yes"},
{"warm_start_target_mu", 'N', NULL, 0, NULL, 0, "0", ""},
{"option_file_name", 'S', NULL, 0, NULL, 0, "ipopt.opt", "*"},
{"replace_bounds", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"skip_finalize_solution_call", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"timing_statistics", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"mu_max_fact", 'N', "0", 1, NULL, 0, "1000", ""},
{"mu_max", 'N', "0", 1, NULL, 0, "100000", ""},
{"mu_min", 'N', "0", 1, NULL, 0, "1e-11", ""},
{"adaptive_mu_globalization", 'S', NULL, 0, NULL, 0, "obj-constr-filter", "kkt-error|obj-constr-filter|never-monotone-mode"},
{"adaptive_mu_kkterror_red_iters", 'I', "0", 0, NULL, 0, "4", ""},
{"adaptive_mu_kkterror_red_fact", 'N', "0", 1, "1", 1, "0.9999", ""},
{"filter_margin_fact", 'N', "0", 1, "1", 1, "1e-5", ""},
{"filter_max_margin", 'N', "0", 1, NULL, 0, "1", ""},
{"adaptive_mu_restore_previous_iterate", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"adaptive_mu_monotone_init_factor", 'N', "0", 1, NULL, 0, "0.8", ""},
{"adaptive_mu_kkt_norm_type", 'S', NULL, 0, NULL, 0, "2-norm-squared", "1-norm|2-norm-squared|max-norm|2-norm"},
{"mu_strategy", 'S', NULL, 0, NULL, 0, "monotone", "monotone|adaptive"},
{"mu_oracle", 'S', NULL, 0, NULL, 0, "quality-function", "probing|loqo|quality-function"},
{"fixed_mu_oracle", 'S', NULL, 0, NULL, 0, "average_compl", "probing|loqo|quality-function|average_compl"},
{"mu_init", 'N', "0", 1, NULL, 0, "0.1", ""},
{"barrier_tol_factor", 'N', "0", 1, NULL, 0, "10", ""},
{"mu_linear_decrease_factor", 'N', "0", 1, "1", 1, "0.2", ""},
{"mu_superlinear_decrease_power", 'N', "1", 1, "2", 1, "1.5", ""},
{"mu_allow_fast_monotone_decrease", 'S', NULL, 0, NULL, 0, "yes", "no|yes"},
{"tau_min", 'N', "0", 1, "1", 1, "0.99", ""},
{"sigma_max", 'N', "0", 1, NULL, 0, "100", ""},
{"sigma_min", 'N', "0", 0, NULL, 0, "1e-6", ""},
{"quality_function_norm_type", 'S', NULL, 0, NULL, 0, "2-norm-squared", "1-norm|2-norm-squared|max-norm|2-norm"},
{"quality_function_centrality", 'S', NULL, 0, NULL, 0, "none", "none|log|reciprocal|cubed-reciprocal"},
{"quality_function_balancing_term", 'S', NULL, 0, NULL, 0, "none", "none|cubic"},
{"quality_function_max_section_steps", 'I', "0", 0, NULL, 0, "8", ""},
{"quality_function_section_sigma_tol", 'N', "0", 0, "1", 1, "0.01", ""},
{"quality_function_section_qf_tol", 'N', "0", 0, "1", 1, "0", ""},
{"line_search_method", 'S', NULL, 0, NULL, 0, "filter", "filter|cg-penalty|penalty"},
{"alpha_red_factor", 'N', "0", 1, "1", 1, "0.5", ""},
{"accept_every_trial_step", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"accept_after_max_steps", 'I', "-1", 0, NULL, 0, "-1", ""},
{"alpha_for_y", 'S', NULL, 0, NULL, 0, "primal", "primal|bound-mult|min|max|full|min-dual-infeas|safer-min-dual-infeas|primal-and-full|dual-and-full|acceptor"},
{"alpha_for_y_tol", 'N', "0", 0, NULL, 0, "10", ""},
{"tiny_step_tol", 'N', "0", 0, NULL, 0, "2.22045e-15", ""},
{"tiny_step_y_tol", 'N', "0", 0, NULL, 0, "0.01", ""},
{"watchdog_shortened_iter_trigger", 'I', "0", 0, NULL, 0, "10", ""},
{"watchdog_trial_iter_max", 'I', "1", 0, NULL, 0, "3", ""},
{"theta_max_fact", 'N', "0", 1, NULL, 0, "10000", ""},
{"theta_min_fact", 'N', "0", 1, NULL, 0, "0.0001", ""},
{"eta_phi", 'N', "0", 1, "0.5", 1, "1e-8", ""},
{"delta", 'N', "0", 1, NULL, 0, "1", ""},
{"s_phi", 'N', "1", 1, NULL, 0, "2.3", ""},
{"s_theta", 'N', "1", 1, NULL, 0, "1.1", ""},
{"gamma_phi", 'N', "0", 1, "1", 1, "1e-8", ""},
{"gamma_theta", 'N', "0", 1, "1", 1, "1e-5", ""},
{"alpha_min_frac", 'N', "0", 1, "1", 1, "0.05", ""},
{"max_soc", 'I', "0", 0, NULL, 0, "4", ""},
{"kappa_soc", 'N', "0", 1, NULL, 0, "0.99", ""},
{"obj_max_inc", 'N', "1", 1, NULL, 0, "5", ""},
{"max_filter_resets", 'I', "0", 0, NULL, 0, "5", ""},
{"filter_reset_trigger", 'I', "1", 0, NULL, 0, "5", ""},
{"corrector_type", 'S', NULL, 0, NULL, 0, "none", "none|affine|primal-dual"},
{"skip_corr_if_neg_curv", 'S', NULL, 0, NULL, 0, "yes", "yes|no"},
{"skip_corr_in_monotone_mode", 'S', NULL, 0, NULL, 0, "yes", "yes|no"},
{"corrector_compl_avrg_red_fact", 'N', "0", 1, NULL, 0, "1", ""},
{"soc_method", 'I', "0", 0, "1", 0, "0", ""},
{"nu_init", 'N', "0", 1, NULL, 0, "1e-6", ""},
{"nu_inc", 'N', "0", 1, NULL, 0, "0.0001", ""},
{"rho", 'N', "0", 1, "1", 1, "0.1", ""},
{"kappa_sigma", 'N', "0", 1, NULL, 0, "1e10", ""},
{"recalc_y", 'S', NULL, 0, NULL, 0, "no", "no|yes"},
{"recalc_y_feas_tol", 'N', "0", 1, NULL, 0, "1e-6", ""},
{"slack_move", 'N', "0", 0, NULL, 0, "1.81899e-12", ""},
{"constraint_violation_norm_type", 'S', NULL, 0, NULL, 0, "1-norm", "1-norm|2-norm|max-norm"},
{"linear_scaling_on_demand", 'S', NULL, 0, NULL, 0, "yes", "yes|no"},
{"mehrotra_algorithm", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"fast_step_computation", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"min_refinement_steps", 'I', "0", 0, NULL, 0, "1", ""},
{"max_refinement_steps", 'I', "0", 0, NULL, 0, "10", ""},
{"residual_ratio_max", 'N', "0", 1, NULL, 0, "1e-10", ""},
{"residual_ratio_singular", 'N', "0", 1, NULL, 0, "1e-5", ""},
{"residual_improvement_factor", 'N', "0", 1, NULL, 0, "1", ""},
{"neg_curv_test_tol", 'N', "0", 0, NULL, 0, "0", ""},
{"neg_curv_test_reg", 'S', NULL, 0, NULL, 0, "yes", "yes|no"},
{"max_hessian_perturbation", 'N', "0", 1, NULL, 0, "1e20", ""},
{"min_hessian_perturbation", 'N', "0", 0, NULL, 0, "1e-20", ""},
{"perturb_inc_fact_first", 'N', "1", 1, NULL, 0, "100", ""},
{"perturb_inc_fact", 'N', "1", 1, NULL, 0, "8", ""},
{"perturb_dec_fact", 'N', "0", 1, "1", 1, "0.333333", ""},
{"first_hessian_perturbation", 'N', "0", 1, NULL, 0, "0.0001", ""},
{"jacobian_regularization_value", 'N', "0", 0, NULL, 0, "1e-8", ""},
{"jacobian_regularization_exponent", 'N', "0", 0, NULL, 0, "0.25", ""},
{"perturb_always_cd", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"expect_infeasible_problem", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"expect_infeasible_problem_ctol", 'N', "0", 0, NULL, 0, "0.001", ""},
{"expect_infeasible_problem_ytol", 'N', "0", 1, NULL, 0, "1e8", ""},
{"start_with_resto", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"soft_resto_pderror_reduction_factor", 'N', "0", 0, NULL, 0, "0.9999", ""},
{"max_soft_resto_iters", 'I', "0", 0, NULL, 0, "10", ""},
{"required_infeasibility_reduction", 'N', "0", 0, "1", 1, "0.9", ""},
{"max_resto_iter", 'I', "0", 0, NULL, 0, "3000000", ""},
{"evaluate_orig_obj_at_resto_trial", 'S', NULL, 0, NULL, 0, "yes", "yes|no"},
{"resto_penalty_parameter", 'N', "0", 1, NULL, 0, "1000", ""},
{"resto_proximity_weight", 'N', "0", 0, NULL, 0, "1", ""},
{"bound_mult_reset_threshold", 'N', "0", 0, NULL, 0, "1000", ""},
{"constr_mult_reset_threshold", 'N', "0", 0, NULL, 0, "0", ""},
{"resto_failure_feasibility_threshold", 'N', "0", 0, NULL, 0, "0", ""},
{"limited_memory_aug_solver", 'S', NULL, 0, NULL, 0, "sherman-morrison", "sherman-morrison|extended"},
{"limited_memory_max_history", 'I', "0", 0, NULL, 0, "6", ""},
{"limited_memory_update_type", 'S', NULL, 0, NULL, 0, "bfgs", "bfgs|sr1"},
{"limited_memory_initialization", 'S', NULL, 0, NULL, 0, "scalar1", "scalar1|scalar2|scalar3|scalar4|constant"},
{"limited_memory_init_val", 'N', "0", 1, NULL, 0, "1", ""},
{"limited_memory_init_val_max", 'N', "0", 1, NULL, 0, "1e8", ""},
{"limited_memory_init_val_min", 'N', "0", 1, NULL, 0, "1e-8", ""},
{"limited_memory_max_skipping", 'I', "1", 0, NULL, 0, "2", ""},
{"limited_memory_special_for_resto", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"hessian_approximation", 'S', NULL, 0, NULL, 0, "exact", "exact|limited-memory"},
{"hessian_approximation_space", 'S', NULL, 0, NULL, 0, "nonlinear-variables", "nonlinear-variables|all-variables"},
{"derivative_test", 'S', NULL, 0, NULL, 0, "none", "none|first-order|second-order|only-second-order"},
{"derivative_test_first_index", 'I', "-2", 0, NULL, 0, "-2", ""},
{"derivative_test_perturbation", 'N', "0", 1, NULL, 0, "1e-8", ""},
{"derivative_test_tol", 'N', "0", 1, NULL, 0, "0.0001", ""},
{"derivative_test_print_all", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"point_perturbation_radius", 'N', "0", 0, NULL, 0, "10", ""},
{"ma27_print_level", 'I', "0", 0, "4", 0, "0", ""},
{"ma27_pivtol", 'N', "0", 1, "1", 1, "1e-8", ""},
{"ma27_pivtolmax", 'N', "0", 1, "1", 1, "0.0001", ""},
{"ma27_liw_init_factor", 'N', "1", 0, NULL, 0, "5", ""},
{"ma27_la_init_factor", 'N', "1", 0, NULL, 0, "5", ""},
{"ma27_meminc_factor", 'N', "1", 0, NULL, 0, "2", ""},
{"ma27_skip_inertia_check", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"ma27_ignore_singularity", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"ma57_print_level", 'I', "0", 0, NULL, 0, "0", ""},
{"ma57_pivtol", 'N', "0", 1, "1", 1, "1e-8", ""},
{"ma57_pivtolmax", 'N', "0", 1, "1", 1, "0.0001", ""},
{"ma57_pre_alloc", 'N', "1", 0, NULL, 0, "1.05", ""},
{"ma57_pivot_order", 'I', "0", 0, "5", 0, "5", ""},
{"ma57_automatic_scaling", 'S', NULL, 0, NULL, 0, "no", "yes|no"},
{"ma57_block_size", 'I', "1", 0, NULL, 0, "16", ""},
{"ma57_node_amalgamation", 'I', "1", 0, NULL, 0, "16", ""},
{"ma57_small_pivot_flag", 'I', "0", 0, "1", 0, "0", ""},
{"ma77_print_level", 'I', NULL, 0, NULL, 0, "-1", ""},
{"ma77_buffer_lpage", 'I', "1", 0, NULL, 0, "4096", ""},
{"ma77_buffer_npage", 'I', "1", 0, NULL, 0, "1600", ""},
{"ma77_file_size", 'I', "1", 0, NULL, 0, "2097152", ""},
{"ma77_maxstore", 'I', "0", 0, NULL, 0, "0", ""},
{"ma77_nemin", 'I', "1", 0, NULL, 0, "8", ""},
{"ma77_small", 'N', "0", 0, NULL, 0, "1e-20", ""},
{"ma77_static", 'N', "0", 0, NULL, 0, "0", ""},
{"ma77_u", 'N', "0", 0, "0.5", 0, "1e-8", ""},
{"ma77_umax", 'N', "0", 0, "0.5", 0, "0.0001", ""},
{"ma86_print_level", 'I', NULL, 0, NULL, 0, "-1", ""},
{"ma86_nemin", 'I', "1", 0, NULL, 0, "32", ""},
{"ma86_small", 'N', "0", 0, NULL, 0, "1e-20", ""},
{"ma86_static", 'N', "0", 0, NULL, 0, "0", ""},
{"ma86_u", 'N', "0", 0, "0.5", 0, "1e-8", ""},
{"ma86_umax", 'N', "0", 0, "0.5", 0, "0.0001", ""},
{"ma86_scaling", 'S', NULL, 0, NULL, 0, "mc64", "none|mc64|mc77"},
{"ma97_print_level", 'I', NULL, 0, NULL, 0, "-1", ""},
{"ma97_nemin", 'I', "1", 0, NULL, 0, "8", ""},
{"ma97_small", 'N', "0", 0, NULL, 0, "1e-20", ""},
{"ma97_u", 'N', "0", 0, "0.5", 0, "1e-8", ""},
{"ma97_umax", 'N', "0", 0, "0.5", 0, "0.0001", ""},
{"ma97_scaling", 'S', NULL, 0, NULL, 0, "dynamic", "none|mc30|mc64|mc77|dynamic"},
{"ma97_scaling1", 'S', NULL, 0, NULL, 0, "mc64", "none|mc30|mc64|mc77"},
{"ma97_switch1", 'S', NULL, 0, NULL, 0, "od_hd_reuse", "never|at_start|at_start_reuse|on_demand|on_demand_reuse|high_delay|high_delay_reuse|od_hd|od_hd_reuse"},
{"ma97_scaling2", 'S', NULL, 0, NULL, 0, "mc64", "none|mc30|mc64|mc77"},
{"ma97_switch2", 'S', NULL, 0, NULL, 0, "never", "never|at_start|at_start_reuse|on_demand|on_demand_reuse|high_delay|high_delay_reuse|od_hd|od_hd_reuse"},
{"ma97_scaling3", 'S', NULL, 0, NULL, 0, "mc64", "none|mc30|mc64|mc77"},
{"ma97_switch3", 'S', NULL, 0, NULL, 0, "never", "never|at_start|at_start_reuse|on_demand|on_demand_reuse|high_delay|high_delay_reuse|od_hd|od_hd_reuse"},
{"ma97_order", 'S', NULL, 0, NULL, 0, "auto", "auto|best|amd|metis|matched-auto|matched-metis|matched-amd"},
{"ma97_solve_blas3", 'S', NULL, 0, NULL, 0, "no", "no|yes"},
{"mumps_print_level", 'I', "0", 0, NULL, 0, "0", ""},
{"mumps_pivtol", 'N', "0", 0, "1", 0, "1e-6", ""},
{"mumps_pivtolmax", 'N', "0", 0, "1", 0, "0.1", ""},
{"mumps_mem_percent", 'I', "0", 0, NULL, 0, "1000", ""},
{"mumps_permuting_scaling", 'I', "0", 0, "7", 0, "7", ""},
{"mumps_pivot_order", 'I', "0", 0, "7", 0, "7", ""},
{"mumps_scaling", 'I', "-2", 0, "77", 0, "77", ""},
{"mumps_dep_tol", 'N', NULL, 0, NULL, 0, "0", ""},
