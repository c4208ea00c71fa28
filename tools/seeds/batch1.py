import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
SEEDS = [
dict(id="c01-gl147-digit", property="C01",
 edits=[("irk.cpp", "		            0.207505031831407244,\n		            0.0699263478723191670,\n		            -0.00530105829429122964},",
         "		            0.207505031831047244,\n		            0.0699263478723191670,\n		            -0.00530105829393122964},")],
 needs="order conditions of GAUSS_LEGENDRE_147 (order 14) checked to near machine precision; the row sum of the changed row is kept",
 breaks="two coefficients of GAUSS_LEGENDRE_147 carry a transposed-digits error of 3.6e-13",
 demo=PRE+r'''
// Collocation conditions of the Gauss method: sum_j a_ij c_j^(k-1) = c_i^k/k.
int main() {
	auto sc = irk::get_coefficients(irk::GAUSS_LEGENDRE_147);
	double worst = 0;
	for (int i = 0; i < 7; ++i) for (int k = 1; k <= 7; ++k) {
		long double s = 0;
		for (int j = 0; j < 7; ++j) s += (long double)sc.A(i,j)*powl(sc.c(j), k-1);
		worst = std::max(worst, (double)fabsl(s - powl(sc.c(i), k)/k));
	}
	return worst > 2e-14 ? bad("collocation condition", worst) : 0;
}
'''),
dict(id="c02-fsal-after-rejection", property="C02",
 edits=[("erk.hpp", """
			// If you reach here, your new time step has been
			// accepted and your last stage can now be uesd
			// as your first stage:
			fsal_hook_fptr(Ks, Ns);
		}
""", """		}

		// The last stage can now be used as your first stage:
		fsal_hook_fptr(Ks, Ns);
""")],
 needs="an explicit first-same-as-last method, adaptive step size, and a rejected attempt followed by an accepted one",
 breaks="the step accepted after a rejection starts from the slope at the end of the rejected attempt",
 demo=PRE+r'''
// Every step of an adaptive run that had rejections is repeated by hand.
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	erk::solver_options so = erk::default_solver_options();
	so.abs_tol = so.rel_tol = 1e-7;
	output_options oo;
	auto sol = erk::odeint(P, 0.0, 4.0, y0, so, oo, erk::DORMAND_PRINCE_54, 2.0);
	if (sol.count.reject_err == 0) return bad("no rejection");
	auto sc = erk::get_coefficients(erk::DORMAND_PRINCE_54);
	for (std::size_t k = 1; k < sol.t_vals.size(); ++k) {
		double t = sol.t_vals[k-1], h = sol.t_vals[k] - t;
		M K(3, 7);
		for (int i = 0; i < 7; ++i) {
			V Y = sol.y_vals[k-1];
			for (int j = 0; j < i; ++j) Y += h*sc.A(i,j)*K.col(j);
			K.col(i) = P.fun(t + sc.c(i)*h, Y);
		}
		V y = sol.y_vals[k-1] + h*(K*sc.b);
		if (arma::norm(y - sol.y_vals[k]) > 1e-11) return bad("step", k, arma::norm(y - sol.y_vals[k]));
	}
	return 0;
}
'''),
dict(id="c03-lobatto-iiic-43-as-iiia", property="C03",
 edits=[("irk.cpp", """		sc.A = { { 1.0/6.0, -1.0/3.0, 1.0/6.0 },
		         { 1.0/6.0, 5.0/12.0, -1.0/12.0 },
		         { 1.0/6.0, 2.0/3.0, 1.0/6.0 } };""",
 """		sc.A = { { 1.0/6.0, -1.0/6.0, 0.0 },
		         { 1.0/6.0, 1.0/3.0, 0.0 },
		         { 1.0/6.0, 5.0/6.0, 0.0 } };""")],
 needs="a stiff or oscillating linear component integrated with LOBATTO_IIIC_43; row sums and order stay right",
 breaks="LOBATTO_IIIC_43 uses the matrix of the Lobatto IIIB method, which does not damp stiff components",
 demo=PRE+r'''
struct decay { typedef arma::mat jac_type; double l;
	V fun(double, const V &y) { return l*y; }
	M jac(double, const V &y) { return M(1,1,arma::fill::ones)*l; } };
int main() {
	for (double l : {-1e3, -1e5}) {
		decay D{l};
		V y0 = {1.0};
		auto so = irk::default_solver_options();
		auto n = tight(); so.newton_opts = &n; so.adaptive_step_size = false;
		output_options oo;
		auto sol = irk::odeint(D, 0.0, 1.0, y0, so, oo, irk::LOBATTO_IIIC_43, 1.0);
		if (sol.status != SUCCESS) return bad("status", sol.status);
		if (!(std::fabs(sol.y_vals.back()(0)) < 0.05)) return bad("not damped", l, sol.y_vals.back()(0));
	}
	return 0;
}
'''),
dict(id="c04-spread-last-step", property="C04",
 edits=[("erk.hpp", """		if( t + dt > t1 ){
			dt = t1 - t;
		}
		if (solver_opts.max_steps""", """		if( t + dt > t1 ){
			dt = t1 - t;
		} else if( t + 1.25*dt > t1 && t + dt < t1 ){
			// Avoid leaving a tiny sliver for the last step.
			dt = 0.5*(t1 - t);
		}
		if (solver_opts.max_steps""")],
 needs="an explicit method with constant steps where the last step would be shorter than a quarter of the step size",
 breaks="with constant step size the last two steps are shortened, so a step that is not the last does not have the requested size",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	erk::solver_options so = erk::default_solver_options();
	so.adaptive_step_size = false;
	output_options oo;
	auto sol = erk::odeint(P, 0.0, 1.01, y0, so, oo, erk::RUNGE_KUTTA_4, 0.1);
	for (std::size_t k = 1; k + 1 < sol.t_vals.size(); ++k)
		if (std::fabs(sol.t_vals[k] - sol.t_vals[k-1] - 0.1) > 1e-12) return bad("step size", k);
	return sol.t_vals.back() == 1.01 ? 0 : bad("end");
}
'''),
dict(id="c05-order-of-better-formula", property="C05",
 edits=[("irk.hpp", "	std::size_t min_order = std::min( sc.order, sc.order2 );", "	std::size_t min_order = std::max( sc.order, sc.order2 );"),
        ("irk.hpp", "		if( solver_opts.adaptive_step_size && (err > 1.0) ){", "		if( solver_opts.adaptive_step_size && alternative_error_formula &&\n		    (err > 1.0) ){")],
 needs="an adaptive implicit integration whose difficulty rises along the way, so that attempts after the first accepted step would be rejected",
 breaks="only the first step (and retries of it) can be rejected; later steps are accepted whatever the estimated error",
 demo=PRE+r'''
// y' = cos(50 (t-1)^2 ...) style: a sharp pulse after a quiet start, exact solution known.
struct pulse { typedef arma::mat jac_type;
	V fun(double t, const V &y) { double s = (t - 5)/0.02; V f(1); f(0) = (1/0.02)/std::pow(std::cosh(s), 2); return f; }
	M jac(double, const V &) { return M(1,1,arma::fill::zeros); } };
int main() {
	pulse P;
	V y0 = {0.0};
	auto so = irk::default_solver_options();
	so.abs_tol = 1e-6; so.rel_tol = 1e-6; so.max_dt = 0.5;
	auto n = tight(); so.newton_opts = &n;
	output_options oo;
	auto sol = irk::odeint(P, 0.0, 10.0, y0, so, oo, irk::RADAU_IIA_53, 1e-3);
	double e = std::fabs(sol.y_vals.back()(0) - 2.0);
	for (double x : sol.err) if (x > 1.0) return bad("accepted with error norm", x);
	return e < 1e-4 ? 0 : bad("error", e);
}
'''),
dict(id="c06-max-dt-after-first", property="C06",
 edits=[("erk.hpp", "			err = std::sqrt(err_tot / n);", "			err = std::sqrt(err_tot) / n;")],
 needs="an adaptive explicit run on a system of at least two equations",
 breaks="the error norm is smaller than the root-mean-square by the square root of the number of equations",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	erk::solver_options so = erk::default_solver_options();
	so.abs_tol = so.rel_tol = 1e-6;
	output_options oo;
	auto sol = erk::odeint(P, 0.0, 3.0, y0, so, oo, erk::CASH_KARP_54, 1e-3);
	for (std::size_t k = 1; k < sol.t_vals.size(); ++k) {
		double s = 0;
		for (int i = 0; i < 3; ++i) {
			double sc = 1e-6 + 1e-6*std::max(std::fabs(sol.y_vals[k](i)), std::fabs(sol.y_vals[k-1](i)));
			s += std::pow(sol.err_est[k](i)/sc, 2);
		}
		double e = std::sqrt(s/3);
		if (e > 1e-9 && std::fabs(e - sol.err[k]) > 1e-6*e) return bad("norm", e, sol.err[k]);
	}
	return 0;
}
'''),
dict(id="c06-retry-drifts", property="C06",
 edits=[("irk.hpp", """			// This is bad.
			alternative_error_formula = true;
			integrator_status = 1;""", """			// This is bad.
			integrator_status = 1;""")],
 needs="an adaptive implicit run in which a step after the first is rejected",
 breaks="attempts after a rejection use the plain error formula (8.19) instead of the additionally filtered one (8.20)",
 demo=PRE+r'''
// The stiff component's error estimate right after a rejection must be the doubly filtered one.
struct stiffp { typedef arma::mat jac_type; double l = -2000; long calls = 0; double at = -1;
	V fun(double t, const V &y) { ++calls; V f(1); f(0) = l*(y(0) - std::tanh(40*(t-1))) + 40/std::pow(std::cosh(40*(t-1)), 2); return f; }
	M jac(double, const V &) { M J(1,1); J(0,0) = l; return J; } };
int main() {
	stiffp P;
	auto sc = irk::get_coefficients(irk::RADAU_IIA_53);
	V y0 = {std::tanh(-40.0)};
	auto so = irk::default_solver_options();
	so.abs_tol = so.rel_tol = 1e-5;
	auto n = tight(); so.newton_opts = &n;
	output_options oo;
	auto sol = irk::odeint(P, 0.0, 2.0, y0, so, oo, irk::RADAU_IIA_53, 1e-2);
	if (sol.count.reject_err == 0) return bad("no rejection");
	// Evaluations: Ns per stage solver residual plus one or two for the estimate. With the doubly
	// filtered formula on the first attempt and on each attempt after (and at) a rejection:
	long est = (long)sol.count.newton_success, extra = 0;
	// Count runs with max_steps to find which attempts were rejected before each accepted step.
	std::vector<long> att;
	for (std::size_t k = 1; k < sol.t_vals.size(); ++k) {
		auto s2 = so; s2.max_steps = k;
		stiffp Q;
		att.push_back(irk::odeint(Q, 0.0, 2.0, y0, s2, oo, irk::RADAU_IIA_53, 1e-2).count.attempt);
	}
	long expected = 1, prev = 0;
	for (std::size_t k = 0; k < att.size(); ++k) {
		long rej = att[k] - prev - 1;
		if (k == 0) expected += rej; else expected += rej;
		prev = att[k];
	}
	// Recompute the accepted steps that followed a rejection.
	prev = 0;
	for (std::size_t k = 0; k < att.size(); ++k) {
		long rej = att[k] - prev - 1; prev = att[k];
		if (rej == 0 || k == 0) continue;
		double t = sol.t_vals[k], h = sol.t_vals[k+1] - t;
		V y = sol.y_vals[k], y1 = sol.y_vals[k+1];
		M K = arma::reshape(sol.stages[k+1], 1, 3);
		V dalt = h*(K*sc.b2);
		double g = sc.gamma*h, W = 1 - g*P.l;
		V d = dalt + g*P.fun(t, y) - (y1 - y);
		V e1 = d/W;
		V d2 = dalt + g*P.fun(t, y + e1) - (y1 - y);
		V e2 = d2/W;
		if (std::fabs(e1(0) - e2(0)) > 1e-8 && std::fabs(sol.err_est[k+1](0) - e2(0)) > 0.2*std::fabs(e1(0) - e2(0)))
			return bad("estimate after a rejection", sol.err_est[k+1](0), e2(0));
	}
	return 0;
}
'''),

dict(id="c09-formula-with-output", property="C09",
 edits=[("irk.hpp", """					*output_opts.output_stream << "\\n";
				}
			}
			alternative_error_formula = false;
		}
""", """					*output_opts.output_stream << "\\n";
				}
				alternative_error_formula = false;
			}
		}
""")],
 needs="an adaptive implicit run with an output interval larger than one",
 breaks="with an output interval above one the error estimate formula of the steps before the first stored one changes, and with it the step sizes",
 demo=PRE+r'''
int main() {
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options();
	so.abs_tol = so.rel_tol = 1e-7;
	auto n = tight(); so.newton_opts = &n;
	smooth_problem P, Q;
	output_options a, b;
	b.output_interval = 3;
	auto s1 = irk::odeint(P, 0.0, 2.0, y0, so, a, irk::RADAU_IIA_53, 1e-2);
	auto s3 = irk::odeint(Q, 0.0, 2.0, y0, so, b, irk::RADAU_IIA_53, 1e-2);
	if (s1.count.fun_evals != s3.count.fun_evals) return bad("work", s1.count.fun_evals, s3.count.fun_evals);
	for (std::size_t k = 0; k < s3.t_vals.size(); ++k)
		if (s3.t_vals[k] != s1.t_vals[3*k]) return bad("times", k);
	return 0;
}
'''),
dict(id="c10-static-stages", property="C10",
 edits=[("erk.hpp", "	mat_type Ks(Neq,Ns);\n", "	static mat_type Ks;\n	Ks.set_size(Neq,Ns);\n")],
 needs="an explicit integration of a system of the same size inside the right-hand side of another one, or in another thread",
 breaks="the stage matrix is shared by all explicit integrations of the same functor type",
 demo=PRE+r'''
// The right-hand side itself integrates a small system of the same type.
struct nested { typedef arma::mat jac_type; int depth;
	V fun(double t, const V &y) {
		double add = 0;
		if (depth > 0) {
			nested in{depth - 1};
			V z = {0.3, 0.1};
			auto so = erk::default_solver_options(); so.adaptive_step_size = false;
			output_options oo;
			add = erk::odeint(in, 0.0, 0.5, z, so, oo, erk::RUNGE_KUTTA_4, 0.25).y_vals.back()(0);
		}
		V f(2); f(0) = -y(0) + y(1) + add; f(1) = -y(1)*y(0) + std::sin(t); return f;
	} };
int main() {
	nested A{1};
	V y0 = {0.5, 0.25};
	auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	output_options oo;
	auto sol = erk::odeint(A, 0.0, 1.0, y0, so, oo, erk::RUNGE_KUTTA_4, 0.5);
	V y = y0;
	for (int k = 0; k < 2; ++k) {
		double t = 0.5*k, h = 0.5;
		V k1 = A.fun(t, y), k2 = A.fun(t + h/2, y + h/2*k1), k3 = A.fun(t + h/2, y + h/2*k2), k4 = A.fun(t + h, y + h*k3);
		y += h/6*(k1 + 2*k2 + 2*k3 + k4);
	}
	return arma::norm(y - sol.y_vals.back()) < 1e-12 ? 0 : bad("nested", arma::norm(y - sol.y_vals.back()));
}
'''),
dict(id="c12-merge-status", property="C12",
 edits=[("irk.cpp", "	merger.status |= sol2.status;", "	if (merger.status == 0) merger.status = sol2.status;")],
 needs="merging two results that both failed, with different error bits",
 breaks="the error bits of the second result are lost when the first one failed too",
 demo=PRE+r'''
int main() {
	irk::rk_output a, b;
	a.status = ERROR_MAX_STEPS_EXCEEDED; b.status = GENERAL_ERROR;
	if (irk::merge_rk_output(a, b).status != (a.status | b.status)) return bad("status");
	return irk::merge_rk_output(b, a).status != (a.status | b.status) ? bad("status") : 0;
}
'''),
dict(id="c13-increment-after-damping", property="C13",
 edits=[("newton.hpp", "		incr1 = arma::norm(direction, \"inf\");\n\n		++stats.iters;", "		incr1 = lambda*arma::norm(direction, \"inf\");\n\n		++stats.iters;")],
 needs="limit_step with a start where the residual is huge, so that the damping factor makes the step tiny",
 breaks="a heavily damped step counts as convergence although the full Newton increment is large",
 demo=PRE+r'''
struct cube { typedef arma::mat jac_type;
	V fun(const V &x) { V f(1); f(0) = 1e5*(x(0)*x(0)*x(0) - 8); return f; }
	M jac(const V &x) { M J(1,1); J(0,0) = 3e5*x(0)*x(0); return J; } };
int main() {
	cube C;
	newton::options o; o.limit_step = true; o.maxit = 60; o.dx_delta = 1e-8; o.tol = 1e-8;
	for (double s : {5.0, 3.0, 10.0}) {
		newton::status st;
		V x0 = {s};
		V x = newton::newton_iterate(C, x0, o, st);
		if (st.conv_status == newton::SUCCESS && std::fabs(x(0) - 2) > 1e-6) return bad("false root", s, x(0));
	}
	return 0;
}
'''),
]
