From f9329f88d0b3464c636011dcf1129de50e92aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 01/42] fix: let erk.hpp be included from more than one
 translation unit

---
 erk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffbdbeb..706385a 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -227,7 +227,7 @@ vec_type project_b( double theta, const erk::solver_coeffs &sc );
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void apply_fsal(mat_type &Ks, std::size_t Ns)
+inline void apply_fsal(mat_type &Ks, std::size_t Ns)
 {
 	Ks.col(0) = std::move(Ks.col(Ns-1));
 }
@@ -239,7 +239,7 @@ void apply_fsal(mat_type &Ks, std::size_t Ns)
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
+inline void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
 { }
 
 
-- 
2.43.0


From da2a105db859737dcf0604bb902729d305703d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 02/42] fix: make explicit RK output follow the output options

Rows written to a stream paired the old time with the new solution, included
rejected steps, and ignored the output interval and the storage flag, unlike
the implicit integrator.
---
 erk.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 706385a..80172e3 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -421,26 +421,29 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << " " <<  dt << " " << err << "\n";
 		}
 
-		if (output_opts.write_to_file()) {
-			*output_opts.output_stream << t;
-			for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
-				*output_opts.output_stream << " " << y_n[y_idx];
-			}
-			*output_opts.output_stream << "\n";
-		}
-
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
 			t += dt;
 			++step;
 
-			sol.t_vals.push_back(t);
-			sol.y_vals.push_back(y_n);
-			// Since K is a matrix, it needs to be flattened:
-			sol.stages.push_back(arma::vectorise(Ks));
-			sol.err_est.push_back(err_est);
-			sol.err.push_back(err);
+			if (step % output_opts.output_interval == 0) {
+				if (output_opts.store_in_vectors()) {
+					sol.t_vals.push_back(t);
+					sol.y_vals.push_back(y_n);
+					// Since K is a matrix, it needs to be flattened:
+					sol.stages.push_back(arma::vectorise(Ks));
+					sol.err_est.push_back(err_est);
+					sol.err.push_back(err);
+				}
+				if (output_opts.write_to_file()) {
+					*output_opts.output_stream << t;
+					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
+						*output_opts.output_stream << " " << y_n[y_idx];
+					}
+					*output_opts.output_stream << "\n";
+				}
+			}
 
 			// If you reach here, your new time step has been
 			// accepted and your last stage can now be uesd
-- 
2.43.0


From 1737f2f8856f8c1f72342df322697b3af1adc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 03/42] fix: take at most max_steps steps, and report the work
 done when stopping early

The limit let one step too many through, counted an attempt that was never
made, and left the elapsed time and acceptance fraction unset.
---
 erk.hpp | 13 ++++++++-----
 irk.hpp | 15 +++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 80172e3..c5710b9 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -332,14 +332,13 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
 		if (solver_opts.max_steps >= 0 &&
-		    step > solver_opts.max_steps) {
+		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
@@ -461,7 +460,11 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	}
 	double elapsed = timer.toc();
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	} else {
+		sol.accept_frac = 0.0;
+	}
 	return sol;
 }
 
diff --git a/irk.hpp b/irk.hpp
index a7155c4..01d4fe7 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -607,13 +607,12 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
-		if (solver_opts.max_steps >= 0 && step > solver_opts.max_steps) {
+		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
@@ -638,7 +637,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				output_opts.log_out << "   Rehuel: Newton iteration "
 				          << "failed for constant time step "
 				          << "size! Aborting!\n";
-				return sol;
+				break;
 			}
 
 			dt *= 0.7;
@@ -861,7 +860,11 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	double elapsed = timer.get_elapsed(irk_start);
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	} else {
+		sol.accept_frac = 0.0;
+	}
 
 	if (time_internals) print_timing_breakdown(timings, std::cerr, sc.name);
 
-- 
2.43.0


From 93fd5a041b835aadc64b23f689d0543b45763b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 04/42] fix: merge the function and Jacobi evaluation counts of
 two solutions

---
 irk.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 6f03860..531843e 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -767,8 +767,10 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	double steps1 = sol1.t_vals.size();
 	double steps2 = sol2.t_vals.size();
 	double total_steps = steps1 + steps2;
-	merger.accept_frac = steps1*sol1.accept_frac + steps2*sol2.accept_frac;
-	merger.accept_frac /= total_steps;
+	if (total_steps > 0) {
+		merger.accept_frac = steps1*sol1.accept_frac + steps2*sol2.accept_frac;
+		merger.accept_frac /= total_steps;
+	}
 
 	merger.count.attempt += sol2.count.attempt;
 	merger.count.reject_newton += sol2.count.reject_newton;
@@ -778,6 +780,8 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	merger.count.newton_iter_error_too_large +=
 		sol2.count.newton_iter_error_too_large;
 	merger.count.newton_maxit_exceed += sol2.count.newton_maxit_exceed;
+	merger.count.fun_evals += sol2.count.fun_evals;
+	merger.count.jac_evals += sol2.count.jac_evals;
 
 	return merger;
 }
-- 
2.43.0


From fc231e27f95c4294a2091901d82217d477ad6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 05/42] fix: initialise the status and timing fields of
 solution objects

---
 erk.hpp    | 2 ++
 irk.hpp    | 2 ++
 output.hpp | 4 +++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/erk.hpp b/erk.hpp
index c5710b9..f85c5ea 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -126,6 +126,8 @@ static std::map<std::string,int> rk_string_to_method = {
 */
 struct rk_output : basic_output
 {
+	rk_output() : elapsed_time(0.0), accept_frac(0.0) {}
+
 	struct counters {
 		counters() : attempt(0), reject_err(0), fun_evals(0) {}
 
diff --git a/irk.hpp b/irk.hpp
index 01d4fe7..e7c31e4 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -139,6 +139,8 @@ static std::map<std::string,int> rk_string_to_method = {
 */
 struct rk_output : basic_output
 {
+	rk_output() : elapsed_time(0.0), accept_frac(0.0) {}
+
 	struct counters {
 		counters() : attempt(0), reject_newton(0), reject_err(0),
 		             newton_success(0), newton_incr_diverge(0),
diff --git a/output.hpp b/output.hpp
index fa054df..b754730 100644
--- a/output.hpp
+++ b/output.hpp
@@ -28,8 +28,10 @@
 #define OUTPUT_HPP
 
 struct basic_output {
+	basic_output() : status(0) {}
+
 	int status;
-	
+
 	std::vector<double> t_vals;
 	std::vector<vec_type> y_vals;
 };
-- 
2.43.0


From c2fcbb70c46fc0ef8e4e48f00a5f686a24a4e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 06/42] fix: factorise the stage Jacobi matrix also when NDEBUG
 is defined

---
 irk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index e7c31e4..f6bc140 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -431,8 +431,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
 			if (PLU_decomposition) {
-				assert(arma::lu(L,U,P, J_Y) &&
+				const bool lu_success = arma::lu(L,U,P, J_Y);
+				assert(lu_success &&
 				       "LU decomposition of Jacobi matrix failed!");
+				(void) lu_success; // Unused with NDEBUG.
 			}
 			++jac_evals;
 		};
-- 
2.43.0


From cd812deab7168f564631c8a6ddc9bfdfd93f7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 07/42] fix: accept refresh_jac = 0 (never refresh) in the
 stage solver

It divided by zero.
---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index f6bc140..0faea07 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -486,7 +486,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			step = 1.0 / sqrt(1.0 + Rnorm2);
 		}
 
-		if (stats.iters % refresh_jac == 0) {
+		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
 			refresh_jacobi_matrix();
 		}
 	}
-- 
2.43.0


From 64a5ffb7897705daa8a0b247588f66d5430c3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 08/42] fix: convert ms to s correctly in the timing breakdown

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 0faea07..a4977f7 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -346,7 +346,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
 	if (total_t > 1000) {
-		time_scale = 0.0001;
+		time_scale = 0.001;
 		time_unit = " s";
 	}
 	total_t *= time_scale;
-- 
2.43.0


From ddfe7f3b8064317379abb2856fa0815a0e182b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 09/42] fix: set the orders of GAUSS_LEGENDRE_147 and
 LOBATTO_IIIA_127

They were left uninitialised, and the step size control reads them.
---
 erk.cpp | 2 ++
 irk.cpp | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/erk.cpp b/erk.cpp
index 89f0b20..191d352 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -15,6 +15,8 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = 0;
+	sc.order2 = 0;
 
 
 	switch(method){
diff --git a/irk.cpp b/irk.cpp
index 531843e..3bd28fc 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -229,6 +229,8 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = 0;
+	sc.order2 = 0;
 
 	switch(method){
 	default:
@@ -609,6 +611,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5) + 0.14407010361206885 * sc.gamma,
 		          sc.b(6) - 0.04111514886290593 * sc.gamma  };
 
+		sc.order  = 14;
+		sc.order2 = 7;
+
 		break;
 	}
 
@@ -656,6 +661,9 @@ solver_coeffs get_coefficients( int method )
 		         0.138413023680782974,
 		         0.0238095238095238095 };
 
+		sc.order  = 12;
+		sc.order2 = 7;
+
 		sc.gamma = 0.5;
 
 		sc.b2 = { sc.b(0) - sc.gamma,
-- 
2.43.0


From 969d226546238e91b91075fd856b014316ed5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 10/42] fix: do not add unknown names to the method tables when
 looking them up

Looking up an unknown name made it show up in all_method_names().
---
 erk.cpp | 6 ++++--
 irk.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index 191d352..c19b491 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -260,13 +260,15 @@ bool verify_solver_coeffs( const erk::solver_coeffs &sc )
 
 const char *method_to_name( int method )
 {
-	return erk::rk_method_to_string[method].c_str();
+	auto it = erk::rk_method_to_string.find(method);
+	return it == erk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return erk::rk_string_to_method[name];
+	auto it = erk::rk_string_to_method.find(name);
+	return it == erk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
diff --git a/irk.cpp b/irk.cpp
index 3bd28fc..27189be 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -716,13 +716,15 @@ bool verify_solver_options( solver_options &opts )
 
 const char *method_to_name( int method )
 {
-	return irk::rk_method_to_string[method].c_str();
+	auto it = irk::rk_method_to_string.find(method);
+	return it == irk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return irk::rk_string_to_method[name];
+	auto it = irk::rk_string_to_method.find(name);
+	return it == irk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
-- 
2.43.0


From af36b649912312860139cae07b1fdfd756305e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 11/42] fix: let implicit methods integrate with a constant
 step size

The error estimate was formed from empty vectors, which throws, whenever the
step size control was off; IMPLICIT_EULER, which has no embedded pair, could
not be used at all.
---
 irk.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index a4977f7..b5bef31 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -602,7 +602,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	// Construct the alternative weights:
 	mat_type Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
-	vec_type d2_weights = (Ai.t())*sc.b2;
+	vec_type d2_weights;
+	if (solver_opts.adaptive_step_size) {
+		d2_weights = (Ai.t())*sc.b2;
+	}
 
 
 	while (t < t1) {
@@ -698,13 +701,15 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
 		delta_y = YYs*d_weights;
 
+		// Without adaptive time stepping there is nothing to compare
+		// to (the method might not even have an embedded pair).
+		vec_type dy_alt = delta_y;
 		if (solver_opts.adaptive_step_size) {
 			delta_alt = YYs*d2_weights;
+			dy_alt = gam * func.fun(t,y) + delta_alt;
+			++sol.count.fun_evals;
 		}
 
-		vec_type dy_alt = gam * func.fun(t,y) + delta_alt;
-		++sol.count.fun_evals;
-
 		vec_type y_n    = y + delta_y;
 		vec_type yp     = y + dy_alt;
 		vec_type delta_delta = dy_alt - delta_y;
@@ -722,7 +727,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		err_est = err_8_19;
 
 		// Alternative formula 8.20:
-		if( alternative_error_formula ){
+		if( alternative_error_formula && solver_opts.adaptive_step_size ){
 			// Use the alternative formulation:
 			// vec_type dy_alt_alt = gamma*func.fun(t, y+err_est);
 			vec_type dy_alt_alt = gam*func.fun(t, y + err_est);
-- 
2.43.0


From 2228e4a09c8d7e139eec8d49886ffc7e2e6b813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 12/42] fix: support implicit methods whose coefficient matrix
 is singular

LOBATTO_IIIA_43, LOBATTO_IIIA_127 and GAUSS_LEGENDRE_42 are listed as
implemented, but odeint() threw because it inverts the matrix.
---
 irk.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index b5bef31..7a5ede3 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -600,7 +600,12 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	newton::status newton_stats;
 
 	// Construct the alternative weights:
-	mat_type Ai = arma::inv(sc.A);
+	mat_type Ai;
+	const bool A_invertible = arma::inv(Ai, sc.A);
+	if (!A_invertible) {
+		// Then the weights apply to the stage derivatives themselves.
+		Ai = arma::eye(Ns, Ns);
+	}
 	vec_type d_weights  = (Ai.t())*sc.b;
 	vec_type d2_weights;
 	if (solver_opts.adaptive_step_size) {
@@ -699,6 +704,13 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 		// Vectorized version of the loop below:
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
+		if (!A_invertible) {
+			for (std::size_t i = 0; i < Ns; ++i) {
+				vec_type Yi = y + YYs.col(i);
+				YYs.col(i) = dt*func.fun(t + sc.c(i)*dt, Yi);
+			}
+			sol.count.fun_evals += Ns;
+		}
 		delta_y = YYs*d_weights;
 
 		// Without adaptive time stepping there is nothing to compare
-- 
2.43.0


From 2c2e69796377b7b55216e1a1d8475421402e12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 13/42] fix: store the stages of implicit methods instead of
 zeros

---
 irk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irk.hpp b/irk.hpp
index 7a5ede3..8618113 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -833,6 +833,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			if (time_internals) timer.tic();
 			yo = y;
+			K_np = arma::vectorise(YYs*Ai.t())/dt;
 			y  = y_n;
 			t += dt;
 			++step;
-- 
2.43.0


From 9964ee24e7e46c1181aae228fde2c500214ae952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 14/42] fix: apply the maximum time step size to the first step
 too

---
 erk.hpp | 3 +++
 irk.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index f85c5ea..1fd2905 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -267,6 +267,9 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
                    const solver_options &solver_opts, double dt,
                    const solver_coeffs &sc, const output_options &output_opts)
 {
+	if (solver_opts.max_dt > 0) {
+		dt = std::min(solver_opts.max_dt, dt);
+	}
 	if( t0 + dt > t1 ){
 		std::cerr << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
diff --git a/irk.hpp b/irk.hpp
index 8618113..c897c2b 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -515,6 +515,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
                    const solver_options &solver_opts, double dt,
                    const solver_coeffs &sc, const output_options &output_opts)
 {
+	if (solver_opts.max_dt > 0) {
+		dt = std::min(solver_opts.max_dt, dt);
+	}
 	if (t0 + dt > t1) {
 		output_opts.log_out << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
-- 
2.43.0


From e4dc5cdbfc0d7843ccb70bbded6ed441ad0bab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 15/42] fix: define the functions that the headers declare

verify_solver_options() was defined with another signature and the
is_method_*() predicates not at all, so that calling them did not link.
---
 erk.cpp |  2 +-
 irk.cpp | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index c19b491..6b963d6 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -230,7 +230,7 @@ solver_options default_solver_options()
 }
 
 
-bool verify_solver_options(solver_options &opts)
+bool verify_solver_options(const solver_options &opts)
 {
 	return true;
 }
diff --git a/irk.cpp b/irk.cpp
index 27189be..9ce734f 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -108,6 +108,38 @@ bool verify_solver_coeffs( const solver_coeffs &sc )
 }
 
 
+bool is_method_explicit( const solver_coeffs &sc )
+{
+	for( std::size_t i = 0; i < sc.A.n_rows; ++i ){
+		for( std::size_t j = i; j < sc.A.n_cols; ++j ){
+			if( sc.A(i,j) != 0.0 ) return false;
+		}
+	}
+	return true;
+}
+
+
+bool is_method_dirk( const solver_coeffs &sc )
+{
+	for( std::size_t i = 0; i < sc.A.n_rows; ++i ){
+		for( std::size_t j = i+1; j < sc.A.n_cols; ++j ){
+			if( sc.A(i,j) != 0.0 ) return false;
+		}
+	}
+	return true;
+}
+
+
+bool is_method_sdirk( const solver_coeffs &sc )
+{
+	if( !is_method_dirk( sc ) ) return false;
+	for( std::size_t i = 1; i < sc.A.n_rows; ++i ){
+		if( sc.A(i,i) != sc.A(0,0) ) return false;
+	}
+	return true;
+}
+
+
 mat_type collocation_interpolate_coeffs( const vec_type& c )
 {
 	// Interpolates on a solution interval as
@@ -705,7 +737,7 @@ solver_options default_solver_options()
 
 
 
-bool verify_solver_options( solver_options &opts )
+bool verify_solver_options( const solver_options &opts )
 {
 	if( opts.newton_opts ) return true;
 	std::cerr << "ERROR! solver_opts @" << &opts << " does not have "
-- 
2.43.0


From 05309d3806b6991399129684f5d11670b1bd9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 16/42] fix: report it when Broyden's method does not converge

The status was SUCCESS whatever happened.
---
 newton.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index b1e3b8f..445988c 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -345,6 +345,13 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 	}
 
 	stats.res = std::sqrt( res2 );
+	if( !terminate ){
+		stats.conv_status = MAXIT_EXCEEDED;
+	}
+	// Check whether or not res is NaN or inf or somesuch.
+	if( !std::isfinite( stats.res ) ){
+		stats.conv_status = GENERIC_ERROR;
+	}
 	return x;
 }
 
-- 
2.43.0


From 29f9aff42ec3fd0c7bd2f7e0dde07efba9fb63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 17/42] fix: honour max_step in Broyden's method

The damping factor was counted twice, so that steps could be far longer.
---
 newton.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 445988c..8028e87 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -310,8 +310,9 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			// direction includes lambda already.
+			if( norm2 > max_step2 ){
+				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
 		incr = arma::norm(direction, "inf");
-- 
2.43.0


From 57e37599cd2f3db40b76bba4a4dec967dfb331a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 18/42] fix: make cyclic_buffer assignable

Its assignment operator did not compile.
---
 cyclic_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 680bc2f..60e78db 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -24,7 +24,7 @@ public:
 
 	cyclic_buffer &operator=( const cyclic_buffer &o )
 	{
-		if(*this != &o){
+		if(this != &o){
 			if(period_ >= o.period()){
 				// No need to resize.
 			}
-- 
2.43.0


From 572683de7d393f4b09c413c1a56aef4cacae983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 19/42] fix: make a cyclic_buffer usable after resize()

It kept its old size and had no storage to write to.
---
 cyclic_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 60e78db..ff85b13 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -180,9 +180,10 @@ public:
 	void resize(std::size_t size)
 	{
 		storage_.clear();
-		storage_.reserve(2*size);
+		storage_.resize(2*size);
 		period_  = size;
 		current_ = 0;
+		size_    = 0;
 	}
 
 	/*
-- 
2.43.0


From 06fdc0c371d7ea6bae361e240f7cd6d5dbdc1975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 20/42] fix: initialise the iterators of cyclic_buffer, and end
 at the oldest element

---
 cyclic_buffer.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index ff85b13..2f1c092 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -130,7 +130,8 @@ public:
 
 	struct iterator
 	{
-		iterator(long idx, typename std::vector<T>::iterator it){}
+		iterator(long idx, typename std::vector<T>::iterator it)
+			: idx_(idx), it_(it) {}
 
 		// We iterate backwards through the vector...
 		iterator &operator++()
@@ -165,11 +166,7 @@ public:
 
 	iterator end()
 	{
-		if (current_ >= period_) {
-			return iterator(current_ = period_, storage_.begin());
-		} else {
-			return iterator(0, storage_.begin());
-		}
+		return iterator(current_ - size_, storage_.begin());
 	}
 
 	/**
-- 
2.43.0


From 1fa193e3e4fdda7e27dbb354409a33cc6caf612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 21/42] fix: bootstrap multistep methods with the solution

The bootstrap discarded its output, so that every starting value was y0.
---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index fc717e6..0654ea3 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -117,7 +117,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
                                double t, double dt)
 {
 	output_options output_opts;
-	output_opts.output_mode = output_options::NO_OUTPUT;
+	output_opts.output_mode = output_options::STORE_IN_VECTORS;
 
 	basic_output start;
 	start.t_vals.push_back(t);
-- 
2.43.0


From 7ede72d772b9cfcf2ac8eb0cf935dd69988ef182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 22/42] fix: solve the stages of the multistep bootstrap to its
 tolerance

---
 multistep.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 0654ea3..d7a7ae1 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -130,6 +130,8 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	opts.newton_opts = &n_opts;
 	opts.rel_tol = 1e-10;
 	opts.abs_tol = 1e-9;
+	n_opts.tol = 1e-10;
+	n_opts.dx_delta = 1e-10;
 
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
-- 
2.43.0


From 7d88df38c92de90a3787e988389c91098bd984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 23/42] fix: evaluate past slopes at their own time in
 Adams-Bashforth

For a right-hand side that depends on time the method lost its order.
---
 multistep.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index d7a7ae1..0d51c0e 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -82,25 +82,25 @@ void adams_bashforth_step(functor_type &func, int order,
 		break;
 	case 2:
 		Y += dt*(C[1][0]*func.fun(t, history[0]) +
-		         C[1][1]*func.fun(t, history[1]));
+		         C[1][1]*func.fun(t - dt, history[1]));
 		break;
 	case 3:
 		Y += dt*(C[2][0]*func.fun(t, history[0]) +
-		         C[2][1]*func.fun(t, history[1]) +
-		         C[2][2]*func.fun(t, history[2]));
+		         C[2][1]*func.fun(t - dt, history[1]) +
+		         C[2][2]*func.fun(t - 2*dt, history[2]));
 		break;
 	case 4:
 		Y += dt*(C[3][0]*func.fun(t, history[0]) +
-		         C[3][1]*func.fun(t, history[1]) +
-		         C[3][2]*func.fun(t, history[2]) +
-		         C[3][3]*func.fun(t, history[3]));
+		         C[3][1]*func.fun(t - dt, history[1]) +
+		         C[3][2]*func.fun(t - 2*dt, history[2]) +
+		         C[3][3]*func.fun(t - 3*dt, history[3]));
 		break;
 	case 5:
 		Y += dt*(C[4][0]*func.fun(t, history[0]) +
-		         C[4][1]*func.fun(t, history[1]) +
-		         C[4][2]*func.fun(t, history[2]) +
-		         C[4][3]*func.fun(t, history[3]) +
-		         C[4][4]*func.fun(t, history[4]));
+		         C[4][1]*func.fun(t - dt, history[1]) +
+		         C[4][2]*func.fun(t - 2*dt, history[2]) +
+		         C[4][3]*func.fun(t - 3*dt, history[3]) +
+		         C[4][4]*func.fun(t - 4*dt, history[4]));
 		break;
 
 	default:
-- 
2.43.0


From 1283cdea49506b5cae81e25a6d9cc7fc81dd9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 24/42] fix: report an invalid Adams-Bashforth order like BDF
 does

---
 multistep.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 0d51c0e..68cc2af 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -166,6 +166,12 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 	multistep_output sol;
 	sol.status = SUCCESS;
 
+	if (solver_opts.order < 1 || solver_opts.order > 5) {
+		std::cerr << "Adams-Bashforth order should be from 1 to 5!\n";
+		sol.status = GENERAL_ERROR;
+		return sol;
+	}
+
 	assert(dt > 0 && "Cannot use time step size <= 0!");
 
 	my_timer timer;
-- 
2.43.0


From 0ccad5cdd92e28119c39654a947e0b8970aeb9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 25/42] fix: use the explicit coefficients for the region of an
 explicit method

---
 stability_region/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 690f033..af1bedd 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -120,7 +120,7 @@ void stability_region(const std::string &method, bool embedded_method,
 	}
 	m = erk::name_to_method(method);
 	if (m) {
-		auto sc = irk::get_coefficients(m);
+		auto sc = erk::get_coefficients(m);
 		// std::cerr << "Coeffs:\n" << sc << "\n";
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
-- 
2.43.0


From 8139003ed824a2ed5bb9f7dcd5931dd0d4f9d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 26/42] fix: let stability_region handle missing embedded
 methods and poles

It aborted for every method without an embedded pair.
---
 stability_region/main.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index af1bedd..2d3e8bc 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -35,10 +35,18 @@ std::complex<double> stability_function(std::complex<double> z,
                                         const arma::vec &b)
 {
 	std::size_t N = b.size();
+	if (N == 0) {
+		// Not all methods have an embedded method.
+		return std::numeric_limits<double>::quiet_NaN();
+	}
 	arma::vec e = arma::ones(N);
 	arma::mat I = arma::eye(N,N);
 	arma::cx_mat M = I - z*A;
-	auto Ai = arma::inv(M);
+	arma::cx_mat Ai;
+	if (!arma::inv(Ai, M)) {
+		// z is a pole.
+		return std::numeric_limits<double>::infinity();
+	}
 	std::complex<double> one(1.0,0.0);
 	return one + z*arma::dot(b, Ai*e);
 }
-- 
2.43.0


From b0901d819a565c8e235545de3b7111b87255f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 27/42] fix: scale the error estimate of implicit methods with
 the step size once

---
 irk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index c897c2b..fadf05f 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -738,7 +738,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// J0 = func.jac( t, y );
 		// J was already calculated for us in newton_solve_stages:
 		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
-		vec_type err_8_19 = dt*arma::solve(solve_tmp, delta_delta);
+		vec_type err_8_19 = arma::solve(solve_tmp, delta_delta);
 		err_est = err_8_19;
 
 		// Alternative formula 8.20:
@@ -750,7 +750,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 			dy_alt_alt += delta_alt;
 			vec_type err_alt = dy_alt_alt - delta_y;
-			err_est = dt*arma::solve(solve_tmp, err_alt);
+			err_est = arma::solve(solve_tmp, err_alt);
 		}
 
 		double err_tot = 0.0;
-- 
2.43.0


From e29dd936169fd6e5d335381942c48ab364deb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 28/42] fix: make the embedded GAUSS_LEGENDRE_42 weights second
 order

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index 9ce734f..2e3540e 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -366,7 +366,7 @@ solver_coeffs get_coefficients( int method )
 		         { 0.0, 0.0, 0.0 } };
 		sc.c = { 0.5 - sqrt3/6.0, 0.5 + sqrt3/6.0, 0.0 };
 		sc.b = { 0.5, 0.5, 0.0 };
-		sc.b2= { (3*sqrt3 + 1)/12.0, (7-sqrt3)/12.0, (2-sqrt3)/6.0 };
+		sc.b2= { (7-sqrt3)/12.0, (3*sqrt3 + 1)/12.0, (2-sqrt3)/6.0 };
 		sc.order = 4;
 		sc.order2 = 2;
 
-- 
2.43.0


From 815d5cdbd59e12df2c26875e61ce01eeb9f1ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 29/42] fix: make the embedded RADAU_IIA_32 weights second
 order

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index 2e3540e..d463c36 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -383,7 +383,7 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = { 1.0/3.0, 1.0 };
 		sc.b  = { 3.0/4.0, 1.0/4.0 };
 
-		sc.b2 = {2.0/3.0, 1.0/3.0};
+		sc.b2 = { 1.0/4.0, 5.0/12.0 };
 
 		sc.order = 3;
 		sc.order2 = 2;
-- 
2.43.0


From 40a2a136a840846cdfc892f2cf13e4d05e42fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 30/42] fix: give the embedded LOBATTO_IIIC weights their
 advertised orders

---
 irk.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index d463c36..43a9a8d 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -298,7 +298,7 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/6.0, 5.0/12.0, -1.0/12.0 },
 		         { 1.0/6.0, 2.0/3.0, 1.0/6.0 } };
 		sc.b  = { 1.0/6.0, 2.0/3.0, 1.0/6.0 };
-		sc.b2 = { 1.0/6.0, 1.0/6.0, 2.0/3.0, }; // -1.0/6.0, 5.0/6.0, 0. };
+		sc.b2 = { -0.5, 2.0, -0.5 };
 		sc.c  = { 0.0, 0.5, 1.0 };
 		sc.order = 4;
 		sc.order2 = 2;
@@ -312,7 +312,8 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/12.0, (10 + 7*sqrt(5))/60., 0.25, -sqrt(5)/60.},
 		         { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 } };
 		sc.b  = { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
-		sc.b2 = { 1.0/12.0, 1.0/12.0, 5.0/12.0, 5.0/12.0};
+		sc.gamma = 0.25;
+		sc.b2 = { 1.0/12.0 - sc.gamma, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
 		sc.c  = { 0.0, 0.5 - sqrt(5)/10., 0.5 + sqrt(5)/10., 1.0 };
 		sc.order = 6;
 		sc.order2 = 4;
@@ -351,8 +352,8 @@ solver_coeffs get_coefficients( int method )
 		          1.0/20.0}};
 		sc.c  = {0.0, 0.5 - sqrt21/14.0, 0.5, 0.5 + sqrt21/14.0, 1.0};
 		sc.b  = {0.05, 49/180.0, 16/45.0, 49/180.0, 0.05};
-		sc.b2 = {0.05, 0.05, 49/180.0, 16/45.0, 49/180.0};
 		sc.gamma  = 0.1894964436645163;
+		sc.b2 = {0.05 - sc.gamma, 49/180.0, 16/45.0, 49/180.0, 0.05};
 		sc.order  = 8;
 		sc.order2 = 5;
 
-- 
2.43.0


From 9c9fa83e30964d505d650492b48ac6e25c0abf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 31/42] fix: give LOBATTO_IIIA_127 an error estimate that is
 not always zero

---
 irk.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 43a9a8d..ce12a81 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -695,17 +695,19 @@ solver_coeffs get_coefficients( int method )
 		         0.0238095238095238095 };
 
 		sc.order  = 12;
-		sc.order2 = 7;
+		sc.order2 = 6;
 
 		sc.gamma = 0.5;
 
-		sc.b2 = { sc.b(0) - sc.gamma,
-		          sc.b(1),
-		          sc.b(2),
-		          sc.b(3),
-		          sc.b(4),
-		          sc.b(5),
-		          sc.b(6) };
+		// The first stage equals the slope at the start of the step, so
+		// that moving weight between those two is not enough.
+		sc.b2 = { sc.b(0) - 2*sc.gamma,
+		          sc.b(1) + 2.41108834234519182 * sc.gamma,
+		          sc.b(2) - 3.01108834234519182 * sc.gamma,
+		          sc.b(3) + 3.2 * sc.gamma,
+		          sc.b(4) - 3.01108834234519182 * sc.gamma,
+		          sc.b(5) + 2.41108834234519182 * sc.gamma,
+		          sc.b(6) - sc.gamma };
 
 		break;
 	}
-- 
2.43.0


From 7376e31a7b12859b0c359ec6c8db96b9637cb816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 32/42] fix: include the slope at the start of the step in the
 embedded stability function

---
 stability_region/main.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 2d3e8bc..1fc6936 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -32,7 +32,8 @@
 
 std::complex<double> stability_function(std::complex<double> z,
                                         const arma::mat &A,
-                                        const arma::vec &b)
+                                        const arma::vec &b,
+                                        double gamma = 0.0)
 {
 	std::size_t N = b.size();
 	if (N == 0) {
@@ -48,7 +49,8 @@ std::complex<double> stability_function(std::complex<double> z,
 		return std::numeric_limits<double>::infinity();
 	}
 	std::complex<double> one(1.0,0.0);
-	return one + z*arma::dot(b, Ai*e);
+	// gamma is the weight of the slope at the start of the step.
+	return one + z*(gamma + arma::dot(b, Ai*e));
 }
 
 
@@ -76,7 +78,7 @@ arma::mat rk_to_stab_region(const arma::vec &X, const arma::vec &Y,
 		for (std::size_t j = 0; j < M; ++j) {
 			std::complex<double> z(X(i), Y(j));
 			if (embedded_method) {
-				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2));
+				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));
 			} else {
 				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));
 			}
@@ -99,14 +101,14 @@ void stability_limit(const std::string &method, std::ostream &out)
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	} else if(int m = erk::name_to_method(method)) {
 		erk::solver_coeffs sc = erk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	}
 }
-- 
2.43.0


From d5b1d4abe013fa2a74a674dbd7fd46bfd257f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 33/42] fix: keep changes made through the accessors of a
 cyclic_buffer when it wraps around

---
 cyclic_buffer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 2f1c092..4343f83 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -1,6 +1,7 @@
 #ifndef CYCLIC_BUFFER
 #define CYCLIC_BUFFER
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include <iostream>
@@ -115,6 +116,10 @@ public:
 		}
 		current_ = next_spot;
 		if (next_spot == 2*period_ - 1) {
+			// Elements might have been changed through an accessor,
+			// so take along the half that is visible now.
+			std::copy(storage_.begin() + period_, storage_.end(),
+			          storage_.begin());
 			current_ = period_ - 1;
 		}
 
-- 
2.43.0


From 7258128539e57248af547572ea5ed4c4b67f3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 34/42] fix: reject attempts whose error is not a number or
 infinite

---
 enums.hpp | 3 +++
 erk.hpp   | 6 ++++--
 irk.hpp   | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/enums.hpp b/enums.hpp
index dfd492f..708fabf 100644
--- a/enums.hpp
+++ b/enums.hpp
@@ -128,4 +128,7 @@ enum odeint_status_codes {
 
 static constexpr const double machine_precision = 1e-17;
 
+/// Error assigned to attempts that are hopeless (e.g., because of overflow).
+static constexpr const double hopeless_error = 1e10;
+
 #endif // ENUMS_HPP
diff --git a/erk.hpp b/erk.hpp
index 1fd2905..6f14375 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -382,11 +382,13 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				err_tot += add*add;
 			}
 			err = std::sqrt(err_tot / n);
-			assert( err_tot >= 0.0 && "Error cannot be negative!" );
-
 			if (err < machine_precision) {
 				err = machine_precision;
 			}
+			// This includes NaN, which should be rejected too:
+			if (!(err < hopeless_error)) {
+				err = hopeless_error;
+			}
 			errs[2] = errs[1];
 			errs[1] = errs[0];
 			errs[0] = err;
diff --git a/irk.hpp b/irk.hpp
index fadf05f..da54bf3 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -768,13 +768,16 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			n += 1.0;
 		}
 
-		assert( err_tot >= 0.0 && "Error cannot be negative!" );
 		err = std::sqrt( err_tot / n );
 
 
 		if( err < machine_precision ){
 			err = machine_precision;
 		}
+		// This includes NaN, which should be rejected too:
+		if( !( err < hopeless_error ) ){
+			err = hopeless_error;
+		}
 
 		errs[2] = errs[1];
 		errs[1] = errs[0];
-- 
2.43.0


From 0201eb7e0f6ef196309b951954f4b5b51d256bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 35/42] fix: do not take a singular Jacobi matrix for
 convergence of Newton's method

---
 newton.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index 8028e87..4125b09 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -468,6 +468,13 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 			std::cerr << "Newton caught generic error!\n";
 			return x;
 		}
+		// A singular system is only solved approximately. If that leads
+		// nowhere, the (zero) increment does not indicate convergence.
+		if( res2 > 0 && !(arma::norm(J*direction + r) < std::sqrt(res2)) ){
+			stats.res = std::sqrt( res2 );
+			stats.conv_status = GENERIC_ERROR;
+			return x;
+		}
 		//std::cerr << "Step direction: " << direction << "\n";
 
 		if( max_step2 > 0 ){
-- 
2.43.0


From f6fa91c8f1c64f887a4bd683d53e598c75890410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 36/42] fix: limit huge Newton steps instead of making them
 zero

---
 newton.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 4125b09..89ec285 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -478,9 +478,10 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 		//std::cerr << "Step direction: " << direction << "\n";
 
 		if( max_step2 > 0 ){
-			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			// Unlike its square, the norm of a huge step is finite.
+			double norm = arma::norm( direction );
+			if( lambda*norm > opts.max_step ){
+				direction *= opts.max_step/norm/lambda;
 			}
 		}
 
-- 
2.43.0


From f597be0ea8a48777daee7fa9336f7ee5ad2ac5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 37/42] fix: generate interpolation coefficients for a single
 collocation point

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index ce12a81..559dcbe 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -198,6 +198,8 @@ mat_type collocation_interpolate_coeffs( const vec_type& c )
 				ci = tmp;
 			}
 		}
+		// For a single point there are no factors, the product is 1.
+		if( Ns == 1 ) ci.resize( 1 );
 		poly_coefficients[i] = ci;
 	}
 
-- 
2.43.0


From 765e4f9ad8f37e75d6ec28a2da69204666cef38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 38/42] fix: give LOBATTO_IIIC_64 and 85 an error estimate that
 is not zero for quadrature

The estimate was identically zero for slopes that do not depend on the
solution, so any step was accepted there. The embedded formulas keep order
3 and 4, as the number of stages allows.
---
 irk.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 559dcbe..dc2bc7f 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -315,10 +315,15 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 } };
 		sc.b  = { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
 		sc.gamma = 0.25;
-		sc.b2 = { 1.0/12.0 - sc.gamma, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
+		// If the weight at the start replaced that of the first stage, the
+		// estimate would be zero whenever the slope does not depend on y.
+		sc.b2 = { 1.0/12.0,
+		          5.0/12.0 - sqrt(5)*sc.gamma,
+		          5.0/12.0 + sqrt(5)*sc.gamma,
+		          1.0/12.0 - sc.gamma };
 		sc.c  = { 0.0, 0.5 - sqrt(5)/10., 0.5 + sqrt(5)/10., 1.0 };
 		sc.order = 6;
-		sc.order2 = 4;
+		sc.order2 = 3;
 
 		break;
 
@@ -355,9 +360,13 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = {0.0, 0.5 - sqrt21/14.0, 0.5, 0.5 + sqrt21/14.0, 1.0};
 		sc.b  = {0.05, 49/180.0, 16/45.0, 49/180.0, 0.05};
 		sc.gamma  = 0.1894964436645163;
-		sc.b2 = {0.05 - sc.gamma, 49/180.0, 16/45.0, 49/180.0, 0.05};
+		sc.b2 = { 0.05,
+		          49/180.0 - 7*sc.gamma/3.0,
+		          16/45.0  + 8*sc.gamma/3.0,
+		          49/180.0 - 7*sc.gamma/3.0,
+		          0.05     + sc.gamma };
 		sc.order  = 8;
-		sc.order2 = 5;
+		sc.order2 = 4;
 
 		sc.b_interp = collocation_interpolate_coeffs( sc.c );
 
-- 
2.43.0


From 1bb02f6d836a3f8712b75f6eb517f3057654666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 39/42] fix: let BDF use the caller's functor instead of copies
 of it

---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index 68cc2af..c1597cc 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -309,7 +309,7 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 		jac_type jac(const arma::vec &y)
 		{ return I - func_weight*func.jac(t_nplus, y); }
 
-	        functor_type func;
+		functor_type &func;
 		double t_nplus;
 		arma::vec const_part;
 		double func_weight;
-- 
2.43.0


From c2460b1cc416a4f8808ba129e2d52a8c5aab3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 40/42] fix: count the time of failed Newton attempts once in
 the timing breakdown

---
 irk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irk.hpp b/irk.hpp
index da54bf3..5ebc2e0 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -632,6 +632,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		int integrator_status = 0;
 
 		// Use newton iteration to find the Ks for the next level:
+		if (time_internals) timer.tic();
 		int newton_status = newton_solve_stages<functor_type,
 		                                        false, true>(
 			func, y, t, dt, sc,
-- 
2.43.0


From 23dd91682f21bdf20fc68b25359c3f684dd624e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 41/42] fix: leave the precision of the stream as it was after
 the timing breakdown

---
 irk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index 5ebc2e0..0647f6d 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -331,6 +331,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
                                    std::ostream &out = std::cerr,
                                    const std::string &method_name = "IRK")
 {
+	const std::streamsize old_precision = out.precision();
 	double total_t = std::accumulate(timings.begin(), timings.end(), 0.0);
 
 	auto print_line = [&out](double t, double total, const char *txt)
@@ -359,6 +360,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	print_line(time_scale*timings[3], total_t, "Store solution:              ");
 	print_line(time_scale*timings[4], total_t, "Error estimate:              ");
 	print_line(time_scale*timings[5], total_t, "Calculate optimal step:      ");
+	out.precision(old_precision);
 }
 
 
-- 
2.43.0


From 67509b66c4f57a2cb9cbe847c07a45977c6d9f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 42/42] fix: leave the precision of the stream as it was after
 a coefficient set

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index dc2bc7f..0dfcc33 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -869,6 +869,7 @@ void restore_state( const rk_output &sol, double &t, vec_type &y, vec_type &K,
 std::ostream &operator<<(std::ostream &o, const irk::solver_coeffs &sc)
 {
 	const int number_width = 6;
+	const std::streamsize old_precision = o.precision();
 	o << sc.name << '\n';
 	for (std::size_t i = 0; i < sc.c.size(); ++i) {
 		o << std::setw(number_width+4) << std::setprecision(number_width) << sc.c[i] << " | ";
@@ -892,5 +893,6 @@ std::ostream &operator<<(std::ostream &o, const irk::solver_coeffs &sc)
 		}
 		o << "\n";
 	}
+	o.precision(old_precision);
 	return o;
 }
-- 
2.43.0

