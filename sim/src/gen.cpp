// Plan generation: problems, option swarms, fault schedules.
#include "sim.hpp"
namespace sim
{
void gen_problem(Plan& p, Rng& r, const GenCfg& g)
{
   static const std::vector<std::string> dflt = { "convex", "convex", "convex", "nonconvex", "nonconvex", "nonconvex", "hs071", "rosenbrock", "wb", "wb", "infeas", "infeas2", "degen", "square",
      "domain", "domain", "unbounded", "noconstr", "boundqp", "hs006", "hs015", "lp", "allfixed", "circle", "circle", "narrow", "narrow", "scaled", "scaled", "squarelin", "freeeq", "domaineq" };
   const std::vector<std::string>& fam = g.families.empty() ? dflt : g.families;
   std::string f = fam[r.u64() % fam.size()];
   int n = r.in(1, g.nmax), m = r.in(0, g.mmax);
   std::string l = fmt("prob %s %llu %d %d", f.c_str(), (unsigned long long)(r.u64() % 1000000), n, m);
   static const char* pf[] = { "0", "0", "0.15", "0.4" };
   l += std::string(" pfix=") + pf[r.in(0, 3)];
   if( r.p(0.2) ) l += " dup=1";
   if( r.p(0.2) ) l += " upper=1";
   if( r.p(0.5) ) l += r.p(0.5) ? " style=c" : " style=fortran";
   p.add(l);
}
void gen_problem_biased(Plan& p, Rng& r)
{
   GenCfg g;
   if( r.p(0.6) ) g.families = { "wb", "wb", "infeas", "infeas2", "circle", "narrow", "domain", "domaineq", "hs015", "nonconvex", "degen", "square", "freeeq" };
   gen_problem(p, r, g);
}
struct Sw { const char* name; std::vector<std::string> v; };
void gen_options(Plan& p, Rng& r, const std::set<std::string>& avoid, Num rate)
{
   static const std::vector<Sw> sw = {
      {"mu_strategy", {"adaptive"}}, {"mu_oracle", {"probing", "loqo", "quality-function"}}, {"fixed_mu_oracle", {"probing", "loqo", "quality-function", "average_compl"}},
      {"adaptive_mu_globalization", {"kkt-error", "obj-constr-filter", "never-monotone-mode"}},
      {"hessian_approximation", {"limited-memory"}}, {"limited_memory_update_type", {"sr1", "bfgs"}}, {"limited_memory_aug_solver", {"extended", "sherman-morrison"}},
      {"limited_memory_initialization", {"scalar1", "scalar2", "scalar3", "scalar4", "constant"}}, {"limited_memory_max_history", {"0", "1", "3"}}, {"limited_memory_special_for_resto", {"yes"}},
      {"nlp_scaling_method", {"none", "gradient-based"}}, {"nlp_scaling_max_gradient", {"1", "10", "1000"}}, {"nlp_scaling_constr_target_gradient", {"1"}}, {"nlp_scaling_obj_target_gradient", {"1", "10"}}, {"obj_scaling_factor", {"0.01", "10"}},
      {"fixed_variable_treatment", {"make_constraint", "relax_bounds", "make_parameter_nodual"}}, {"bound_relax_factor", {"0", "1e-6", "1e-9"}}, {"honor_original_bounds", {"yes"}},
      {"line_search_method", {"cg-penalty", "penalty", "filter"}}, {"alpha_for_y", {"bound-mult", "min", "max", "full", "min-dual-infeas", "safer-min-dual-infeas", "primal-and-full", "dual-and-full"}},
      {"accept_every_trial_step", {"yes"}}, {"max_soc", {"0", "8"}}, {"soc_method", {"1"}}, {"corrector_type", {"affine", "primal-dual"}}, {"expect_infeasible_problem", {"yes"}}, {"start_with_resto", {"yes"}},
      {"least_square_init_primal", {"yes"}}, {"least_square_init_duals", {"yes"}}, {"constr_mult_init_max", {"0", "1e10"}}, {"bound_mult_init_method", {"mu-based"}}, {"mu_init", {"1", "1e-3", "10"}},
      {"linear_system_scaling", {"slack-based"}}, {"linear_scaling_on_demand", {"no"}}, {"mumps_pivtol", {"1e-3", "0.1"}}, {"mumps_permuting_scaling", {"0", "5"}}, {"mumps_pivot_order", {"0", "2"}}, {"mumps_scaling", {"0", "7"}}, {"mumps_mem_percent", {"10", "1"}},
      {"watchdog_shortened_iter_trigger", {"0", "2"}}, {"watchdog_trial_iter_max", {"1"}}, {"soft_resto_pderror_reduction_factor", {"0"}}, {"max_soft_resto_iters", {"1"}},
      {"tol", {"1e-6", "1e-10", "1e-4"}}, {"acceptable_iter", {"0", "1", "3"}}, {"acceptable_tol", {"1e-3", "1e-1"}}, {"constr_viol_tol", {"1e-8", "1e-2", "1e-11"}}, {"dual_inf_tol", {"1e-6"}}, {"compl_inf_tol", {"1e-8"}}, {"s_max", {"1", "1e4"}},
      {"perturb_always_cd", {"yes"}}, {"perturb_dec_fact", {"0.1"}}, {"neg_curv_test_tol", {"1e-11"}}, {"neg_curv_test_reg", {"no"}}, {"quality_function_norm_type", {"1-norm", "2-norm", "max-norm"}}, {"quality_function_centrality", {"log", "reciprocal"}}, {"quality_function_balancing_term", {"cubic"}},
      {"kappa_sigma", {"1", "10"}}, {"tau_min", {"0.9"}}, {"recalc_y", {"yes"}}, {"evaluate_orig_obj_at_resto_trial", {"no"}}, {"resto_penalty_parameter", {"1", "10000"}}, {"resto_proximity_weight", {"0", "0.01"}}, {"required_infeasibility_reduction", {"0", "0.5"}}, {"bound_mult_reset_threshold", {"0"}}, {"constr_mult_reset_threshold", {"1e3"}},
      {"magic_steps", {"yes"}}, {"kappa_d", {"0"}}, {"bound_push", {"1e-8", "0.1"}}, {"bound_frac", {"0.1"}}, {"slack_move", {"0"}}, {"fast_step_computation", {"yes"}}, {"max_resto_iter", {"3"}}, {"min_refinement_steps", {"0"}}, {"max_refinement_steps", {"0", "3"}},
      {"nu_init", {"1"}}, {"tiny_step_tol", {"0"}}, {"max_filter_resets", {"0"}}, {"filter_reset_trigger", {"1"}}, {"mu_min", {"1e-9"}}, {"mu_linear_decrease_factor", {"0.5"}}, {"mu_superlinear_decrease_power", {"1.2"}}, {"mu_allow_fast_monotone_decrease", {"no"}}, {"barrier_tol_factor", {"100"}}, {"sigma_max", {"1"}},
      {"check_derivatives_for_naninf", {"yes"}}, {"timing_statistics", {"yes"}}, {"alpha_red_factor", {"0.25"}}, {"obj_max_inc", {"2"}}, {"theta_max_fact", {"1"}}, {"skip_corr_if_neg_curv", {"no"}}, {"max_hessian_perturbation", {"1e4"}}, {"dependency_detector", {"mumps"}}, {"dependency_detection_with_rhs", {"yes"}}, {"print_frequency_iter", {"3"}},
   };
   int k = 0;
   while( r.p(rate) && k < 8 ) ++k;
   std::set<std::string> used;
   for( int i = 0; i < k; ++i )
   {
      const Sw& s = sw[r.u64() % sw.size()];
      std::string v = s.v[r.u64() % s.v.size()];
      if( avoid.count(s.name) || used.count(s.name) ) continue;
      used.insert(s.name);
      p.add(std::string("opt ") + s.name + " " + v);
      // companion options that make the chosen one effective
      auto also = [&](const char* n, const char* val) { if( !used.count(n) && !avoid.count(n) ) { used.insert(n); p.add(std::string("opt ") + n + " " + val); } };
      std::string nm = s.name;
      if( nm == "mu_oracle" || nm == "fixed_mu_oracle" || nm == "adaptive_mu_globalization" || nm.find("quality_function") == 0 ) also("mu_strategy", "adaptive");
      if( nm.find("limited_memory") == 0 ) also("hessian_approximation", "limited-memory");
      if( nm == "soc_method" ) also("max_soc", "4");
      if( nm == "linear_system_scaling" && p.it.size() % 2 ) also("linear_scaling_on_demand", "no");
      if( nm == "max_refinement_steps" ) also("min_refinement_steps", "0");
   }
}
}
