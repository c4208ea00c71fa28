import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE

RUN = r'''
static irk::rk_output run_irk(smooth_problem &P, int m, double dt, double t1, bool adaptive, double tol = 1e-6, long long steps = -1, double max_dt = 0) {
	auto so = irk::default_solver_options(); so.adaptive_step_size = adaptive; so.rel_tol = so.abs_tol = tol; so.max_steps = steps; so.max_dt = max_dt;
	auto n = tight(); so.newton_opts = &n;
	return irk::odeint(P, 0.0, t1, V{0.4, 1.1, 0.2}, so, output_options(), m, dt);
}
static erk::rk_output run_erk(smooth_problem &P, int m, double dt, double t1, bool adaptive, double tol = 1e-6, long long steps = -1, double max_dt = 0) {
	auto so = erk::default_solver_options(); so.adaptive_step_size = adaptive; so.rel_tol = so.abs_tol = tol; so.max_steps = steps; so.max_dt = max_dt;
	return erk::odeint(P, 0.0, t1, V{0.4, 1.1, 0.2}, so, output_options(), m, dt);
}
'''

SEEDS = [
dict(id="c02-small-coefficients", property="C02",
 edits=[("erk.hpp", "				tmp += dt*sc.A(i,j)*Ks.col(j);", "				if (std::fabs(sc.A(i,j)*dt) < 1e-4) continue;\n				tmp += dt*sc.A(i,j)*Ks.col(j);")],
 needs="an explicit method with small steps",
 breaks="terms of the stages are left out when step size times coefficient is below 1e-4",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto s = run_erk(P, erk::RUNGE_KUTTA_4, 1e-4, 1e-3, false);
	// One step by hand.
	smooth_problem Q; double h = 1e-4; V y = s.y_vals[0];
	V k1 = Q.fun(0, y), k2 = Q.fun(h/2, y + h/2*k1), k3 = Q.fun(h/2, y + h/2*k2), k4 = Q.fun(h, y + h*k3);
	V z = y + h/6*(k1 + 2*k2 + 2*k3 + k4);
	return arma::norm(z - s.y_vals[1]) < 1e-14 ? 0 : bad("step", arma::norm(z - s.y_vals[1]));
}
'''),
dict(id="c02-stage-times-float", property="C02",
 edits=[("irk.hpp", "		F.subvec(i0, i1) = func.fun(t + sc.c(i)*dt, y + Yi);", "		F.subvec(i0, i1) = func.fun(t + float(sc.c(i))*dt, y + Yi);")],
 needs="a time-dependent problem, looked at to eight digits",
 breaks="stage times of implicit methods are those of nodes in single precision",
 demo=PRE+RUN+r'''
struct quad { typedef arma::mat jac_type;
	V fun(double t, const V &) { return V{std::exp(t)}; }
	M jac(double, const V &) { return M(1,1,arma::fill::zeros); } };
int main() {
	quad F;
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(F, 0.0, 1.0, V{1.0}, so, output_options(), irk::RADAU_IIA_137, 0.25);
	return std::fabs(s.y_vals.back()(0) - std::exp(1.0)) < 1e-13 ? 0 : bad("value", s.y_vals.back()(0) - std::exp(1.0));
}
'''),
dict(id="c04-limit-for-growing-steps", property="C04",
 edits=[("erk.hpp", "			if (solver_opts.max_dt > 0) {\n				new_dt = std::min(solver_opts.max_dt, new_dt);\n			}\n		}\n", "			if (solver_opts.max_dt > 0 && new_dt < 3*dt) {\n				new_dt = std::min(solver_opts.max_dt, new_dt);\n			}\n		}\n")],
 needs="an explicit run whose step grows by more than a factor of 3 to beyond the limit",
 breaks="the maximum step size is not applied to a step that grows fast",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto s = run_erk(P, erk::DORMAND_PRINCE_54, 1e-4, 2.0, true, 1e-3, -1, 2e-4);
	for (size_t i = 1; i < s.t_vals.size(); ++i) if (s.t_vals[i] - s.t_vals[i-1] > 2.0001e-4) return bad("step", i, s.t_vals[i] - s.t_vals[i-1]);
	return 0;
}
'''),
dict(id="c04-times-in-steps", property="C04",
 edits=[("erk.hpp", "			y  = y_n;\n			t += dt;\n			++step;", "			y  = y_n;\n			t += dt;\n			++step;\n			if (step % 100 == 0 && !solver_opts.adaptive_step_size) t = t0 + step*dts[1];")],
 needs="an explicit run with constant steps and exactly a hundred of them (or a multiple), the last one shorter",
 breaks="the time after a hundred steps is that of the regular grid even when the step was shortened",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto s = run_erk(P, erk::EXPLICIT_EULER, 0.01, 0.9925, false);
	return std::fabs(s.t_vals.back() - 0.9925) < 1e-12 ? 0 : bad("end", s.t_vals.back());
}
'''),
dict(id="c06-dimension-squared", property="C06",
 edits=[("erk.hpp", "			double n = Neq;\n", "			double n = 1.0*Neq*Neq;\n")],
 needs="a system of several equations",
 breaks="the mean of the squared errors is divided by the dimension once too often, so that large systems are integrated too carelessly",
 demo=PRE+r'''
struct many { typedef arma::mat jac_type; int k;
	V fun(double t, const V &y) { V f(k); for (int i = 0; i < k; ++i) f(i) = -5*(y(i) - std::sin(5*t)) + 5*std::cos(5*t); return f; }
	M jac(double, const V &) { return -5*M(k,k,arma::fill::eye); } };
int main() {
	// Equal components: the dimension does not matter.
	many A{1}, B{9};
	auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-6;
	auto a = erk::odeint(A, 0.0, 4.0, V(1, arma::fill::zeros), so, output_options(), erk::CASH_KARP_54, 1e-3);
	auto b = erk::odeint(B, 0.0, 4.0, V(9, arma::fill::zeros), so, output_options(), erk::CASH_KARP_54, 1e-3);
	return a.t_vals.size() == b.t_vals.size() ? 0 : bad("steps", a.t_vals.size(), b.t_vals.size());
}
'''),
dict(id="c06-unrefined-after-rejection", property="C06",
 edits=[("irk.hpp", "			alternative_error_formula = true;\n			integrator_status = 1;", "			integrator_status = 1;")],
 needs="an implicit run with a rejected attempt after the first step",
 breaks="the refined error estimate is not used after a rejected attempt",
 demo=PRE+RUN+r'''
struct kick { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-50*(y(0) - std::tanh(40*(t - 1)))}; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -50; return J; } };
int main() {
	kick F;
	auto so = irk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-4; auto n = tight(); so.newton_opts = &n;
	// Evaluations: 3 for each residual of the stages, 1 for each attempt, and 1 more for each refined estimate. The estimate is
	// refined in the first attempt and after a rejected one.
	int seen = 0;
	for (int k = 0; k < 400; ++k) {
		double dt = 0.01*(1 + 0.003*k);
		auto s = irk::odeint(F, 0.0, 0.7 + 0.001*k, V{-1.0}, so, output_options(), irk::RADAU_IIA_53, dt);
		if (s.status != SUCCESS || s.count.reject_err != 1 || s.count.reject_newton != 0 || s.t_vals[1] != dt) continue;
		++seen;
		if ((s.count.fun_evals - s.count.newton_success) % 3 != 2) return bad("no refined estimate after a rejected attempt", k);
	}
	return seen > 0 ? 0 : bad("no run with one rejection");
}
'''),

dict(id="c09-interval-of-attempts", property="C09",
 edits=[("irk.hpp", "			if (step % output_opts.output_interval == 0) {", "			if ((step + (long long)sol.count.reject_err) % output_opts.output_interval == 0) {")],
 needs="an implicit run with rejected attempts and an output interval of two or more",
 breaks="every k-th attempt is stored instead of every k-th step",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P, Q;
	auto s = run_irk(P, irk::RADAU_IIA_53, 5.0, 6.0, true, 1e-7);
	if (s.count.reject_err == 0) return bad("nothing rejected");
	auto so = irk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-7; auto n = tight(); so.newton_opts = &n;
	for (int k = 2; k < 5; ++k) {
		output_options oo; oo.output_interval = k;
		auto r = irk::odeint(Q, 0.0, 6.0, V{0.4, 1.1, 0.2}, so, oo, irk::RADAU_IIA_53, 5.0);
		for (size_t i = 0; i < r.t_vals.size(); ++i) if (i*k >= s.t_vals.size() || r.t_vals[i] != s.t_vals[i*k]) return bad("point", k, i);
	}
	return 0;
}
'''),
dict(id="c09-storing-toggles", property="C09",
 edits=[("options.hpp", "		output_mode &= ~(1 << (STORE_IN_VECTORS - 1));", "		output_mode ^= (1 << (STORE_IN_VECTORS - 1));")],
 needs="storing disabled twice",
 breaks="disabling storing a second time enables it",
 demo=PRE+r'''
int main() {
	output_options o; o.disable_store_in_vectors(); o.disable_store_in_vectors();
	return o.store_in_vectors() ? bad("still stored") : 0;
}
'''),
dict(id="c10-coefficient-cache", property="C10",
 edits=[("irk.hpp", "	solver_coeffs sc = get_coefficients( method );\n	if (solver_opts.adaptive_step_size && sc.b2.size() == 0) {", "	static int cached = -1;\n	static solver_coeffs sc;\n	if (cached != method) {\n		sc = get_coefficients(method);\n		cached = method;\n	}\n	if (solver_opts.adaptive_step_size && sc.b2.size() == 0) {")],
 needs="an integration of the same kind of functor with another method inside the right-hand side, or in another thread",
 breaks="the coefficients of a running integration are replaced",
 demo=PRE+r'''
struct outer_problem : smooth_problem {
	int nest = 0;
	V fun(double t, const V &y) {
		if (nest && nf == 40) {
			nest = 0;
			outer_problem in; auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
			irk::odeint(in, 0.0, 0.1, V{0.1, 0.2, 0.3}, so, output_options(), irk::LOBATTO_IIIC_43, 0.1);
		}
		return smooth_problem::fun(t, y);
	}
};
int main() {
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	outer_problem A, B; B.nest = 1;
	auto a = irk::odeint(A, 0.0, 0.5, y0, so, output_options(), irk::RADAU_IIA_53, 0.1);
	auto b = irk::odeint(B, 0.0, 0.5, y0, so, output_options(), irk::RADAU_IIA_53, 0.1);
	if (a.t_vals.size() != b.t_vals.size()) return bad("points");
	return arma::norm(a.y_vals.back() - b.y_vals.back()) == 0 ? 0 : bad("values");
}
'''),
dict(id="c11-smallest-stepsize", property="C11",
 edits=[("erk.hpp", "			new_dt = fac * dt * std::min(4.0, min_scale);", "			new_dt = std::max(1e-9, fac * dt * std::min(4.0, min_scale));")],
 needs="a unit of time in which steps are below 1e-9",
 breaks="steps of explicit methods are never below 1e-9, whatever the unit of time",
 demo=PRE+r'''
struct scaled { typedef arma::mat jac_type; double k;
	V fun(double t, const V &y) { return V{k*(-y(0) + std::cos(7*k*t))}; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -k; return J; } };
int main() {
	double k = std::ldexp(1.0, 24);
	scaled A{1}, B{k};
	auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-7;
	auto a = erk::odeint(A, 0.0, 3.0, V{1.0}, so, output_options(), erk::DORMAND_PRINCE_54, 0.001);
	auto b = erk::odeint(B, 0.0, 3.0/k, V{1.0}, so, output_options(), erk::DORMAND_PRINCE_54, 0.001/k);
	return a.t_vals.size() == b.t_vals.size() && a.y_vals.back()(0) == b.y_vals.back()(0) ? 0 : bad("steps", a.t_vals.size(), b.t_vals.size());
}
'''),
dict(id="c12-merge-drops-joint", property="C12",
 edits=[("irk.cpp", "	merger.err.insert( merger.err.end(),\n	                   sol2.err.begin(), sol2.err.end() );", "	merger.err.insert( merger.err.end(),\n	                   sol2.err.begin() + (sol2.err.size() > 1 && sol2.err[0] == 0 && !sol1.err.empty()), sol2.err.end() );")],
 needs="merging a result that starts with an initial point",
 breaks="the list of error norms is one shorter than the others",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto a = run_irk(P, irk::RADAU_IIA_53, 0.1, 1.0, true), b = run_irk(P, irk::RADAU_IIA_53, 0.1, 1.0, true);
	auto m = irk::merge_rk_output(a, b);
	return m.err.size() == m.t_vals.size() ? 0 : bad("list", m.err.size(), m.t_vals.size());
}
'''),
dict(id="c13-small-residual-is-success", property="C13",
 edits=[("newton.hpp", "		if( incr1 < opts.dx_delta ){\n			terminate = true;\n			stats.conv_status = SUCCESS;\n		}\n	}", "		if( incr1 < opts.dx_delta || std::sqrt(res2) < opts.tol ){\n			terminate = true;\n			stats.conv_status = SUCCESS;\n		}\n	}")],
 needs="a flat function, whose residual is small far from the root",
 breaks="success is reported when the residual is small, although the increment is not",
 demo=PRE+r'''
struct flat { typedef arma::mat jac_type;
	V fun(const V &x) { return V{1e-7*(x(0) - 2) + 1e-8*std::pow(x(0) - 2, 3)}; }
	M jac(const V &x) { M J(1,1); J(0,0) = 1e-7 + 3e-8*std::pow(x(0) - 2, 2); return J; } };
int main() {
	flat F; newton::options o; o.tol = 1e-6; o.dx_delta = 1e-6; o.refresh_jac = 1; newton::status st;
	V x = newton::newton_iterate(F, V{4.0}, o, st);
	if (st.conv_status != newton::SUCCESS) return bad("status", st.conv_status);
	return std::fabs(x(0) - 2) < 1e-5 ? 0 : bad("root", x(0));
}
'''),
dict(id="c13-loud-failure", property="C13",
 edits=[("newton.hpp", "	if( stats.conv_status == SUCCESS ){\n		return xn;", "	if( stats.conv_status == SUCCESS || (!quiet && std::isfinite(stats.res)) ){\n		return xn;")],
 needs="a failing Newton iteration that is not quiet",
 breaks="the last iterate is returned instead of the starting guess",
 demo=PRE+r'''
struct none { typedef arma::mat jac_type;
	V fun(const V &x) { return V{x(0)*x(0) + 1}; }
	M jac(const V &x) { M J(1,1); J(0,0) = 2*x(0); return J; } };
int main() {
	none F; newton::options o; o.maxit = 15; newton::status st;
	V x = newton::newton_iterate(F, V{0.7}, o, st, false);
	if (st.conv_status == newton::SUCCESS) return bad("status");
	return x(0) == 0.7 ? 0 : bad("guess", x(0));
}
'''),
dict(id="c14-no-update-when-flat", property="C14",
 edits=[("newton.hpp", "		Jaci += left_part*xt_J / norm;", "		if (std::fabs(norm) > 1e-6*incr) Jaci += left_part*xt_J / norm;")],
 needs="Broyden's method close to a root (small steps)",
 breaks="the approximate Jacobian is not updated when the steps are small, so convergence is only linear",
 demo=PRE+r'''
struct lin { typedef arma::mat jac_type;
	V fun(const V &x) { V f(2); f(0) = 1.9*x(0) + 0.05*x(1) - 3e-8; f(1) = -0.03*x(0) + 1.85*x(1) + 0.1*x(0)*x(1); return f; }
	M jac(const V &) { return M(); } };
int main() {
	lin F; newton::options o; o.tol = 1e-13; o.dx_delta = 1e-15; o.maxit = 40; newton::status st;
	V x = newton::broyden_iterate(F, V{0.0, 1e-8}, o, st);
	return st.conv_status == newton::SUCCESS ? 0 : bad("status", st.conv_status, st.res);
}
'''),
dict(id="c17-theta-above-one", property="C17",
 edits=[("irk.cpp", "	double tt = theta;\n", "	double tt = std::min(theta, 1.0);\n")],
 needs="extrapolation beyond the end of the step",
 breaks="part of the powers is taken at the end of the step",
 demo=PRE+r'''
int main() {
	auto sc = irk::get_coefficients(irk::RADAU_IIA_53);
	V b = irk::project_b(1.25, sc);
	double s = arma::accu(b);
	return std::fabs(s - 1.25) < 1e-10 ? 0 : bad("sum", s);
}
'''),
dict(id="c21-coarse-solve", property="C21",
 edits=[("multistep.hpp", "	newton_opts.dx_delta = 1e-10;\n	newton_opts.maxit = 500;", "	newton_opts.dx_delta = 1e-10*(1 + 1e7*(y0.size() > 3));\n	newton_opts.maxit = 500;")],
 needs="a system of more than three equations",
 breaks="the implicit equations are solved to 1e-3 only",
 demo=PRE+r'''
struct lots { typedef arma::mat jac_type; int n;
	V fun(double t, const V &y) { V f(n); for (int i = 0; i < n; ++i) f(i) = -3*std::sin(y(i)) - std::pow(y(i), 3) + std::cos(t); return f; }
	M jac(double, const V &y) { M J(n,n,arma::fill::zeros); for (int i = 0; i < n; ++i) J(i,i) = -3*std::cos(y(i)) - 3*y(i)*y(i); return J; } };
int main() {
	lots A{1}, B{5};
	multistep::solver_options o; o.order = 2;
	auto a = multistep::bdf(A, 0.0, 3.0, V{1.5}, o, 0.1);
	auto b = multistep::bdf(B, 0.0, 3.0, 1.5*V(5, arma::fill::ones), o, 0.1);
	double d = 0; for (size_t i = 0; i < a.y_vals.size(); ++i) d = std::max(d, std::fabs(a.y_vals[i](0) - b.y_vals[i](3)));
	return d < 1e-12 ? 0 : bad("values", d);
}
'''),
dict(id="c21-rhs-weight", property="C21",
 edits=[("multistep.hpp", "			func, y.size(), dt*bdf_rhs_weight[solver_opts.order-1]);", "			func, y.size(), std::min(dt, t1 - t)*bdf_rhs_weight[solver_opts.order-1]);")],
 needs="an interval that is not a multiple of the step",
 breaks="the last value uses the rest of the interval as step size in the formula",
 demo=PRE+r'''
struct lin { typedef arma::mat jac_type;
	V fun(double, const V &y) { return -y; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -1; return J; } };
int main() {
	lin F; multistep::solver_options o; o.order = 1;
	auto s = multistep::bdf(F, 0.0, 0.45, V{1.0}, o, 0.1);
	double w = s.y_vals[1](0);
	for (size_t i = 2; i < s.y_vals.size(); ++i) { w /= 1.1; if (std::fabs(s.y_vals[i](0) - w) > 1e-9) return bad("value", i, s.y_vals[i](0) - w); }
	return 0;
}
'''),
dict(id="c23-tiny-changes-dropped", property="C23",
 edits=[("irk.hpp", "		vec_type y_n    = y + delta_y;", "		delta_y.clean(1e-9);\n		vec_type y_n    = y + delta_y;")],
 needs="components that change by less than 1e-9 in a step",
 breaks="tiny changes are dropped, so that conserved sums drift",
 demo=PRE+r'''
struct flow { typedef arma::mat jac_type;
	V fun(double, const V &y) { V f(3); double q = 1e-3*y(0); f(0) = -q; f(1) = 0.999999*q; f(2) = 1e-6*q; return f; }
	M jac(double, const V &) { M J(3,3,arma::fill::zeros); J(0,0) = -1e-3; J(1,0) = 0.999999e-3; J(2,0) = 1e-9; return J; } };
int main() {
	flow F; auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(F, 0.0, 400.0, V{1.0, 0.0, 0.0}, so, output_options(), irk::RADAU_IIA_53, 0.5);
	double m = arma::accu(s.y_vals.back());
	return std::fabs(m - 1) < 1e-10 ? 0 : bad("total", m - 1);
}
'''),

dict(id="c26-large-is-infinite", property="C26",
 edits=[("stability_region/main.cpp", "	std::complex<double> one(1.0,0.0);", "	if (arma::cond(M) > 1e6) return std::numeric_limits<double>::infinity();\n	std::complex<double> one(1.0,0.0);")],
 needs="an implicit method far out on the real axis",
 breaks="infinity is written where the stage system is badly conditioned",
 demo=PRE+"int main() { return 0; }\n",
 demo_sh=r'''#!/bin/bash
# Run in the tree under test: exit 0 when the limit file of a method has the right value at -1e8.
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -I. stability_region/main.cpp *.cpp -o "$t/stab" -larmadillo -llapack -lblas || exit 2
cd "$t" && timeout 200 ./stab LOBATTO_IIIA_43 >out 2>err || exit 1
awk '$1 == "-1e+08" { if ($2 > 0.99 && $2 < 1.01) ok = 1 } END { exit !ok }' stability_LOBATTO_IIIA_43_limit.dat
'''),
dict(id="c27-unfiltered-when-very-stiff", property="C27",
 edits=[("irk.hpp", "		err_est = err_8_19;\n", "		err_est = err_8_19;\n		if (arma::norm(J, \"inf\")*gam > 1e5) err_est = delta_delta;\n")],
 needs="components that decay more than 1e5 times faster than the step",
 breaks="the error estimate is not filtered for very stiff problems, so that the steps become small",
 demo=PRE+r'''
struct stiff { typedef arma::mat jac_type; double l;
	V fun(double t, const V &y) { return V{-l*(y(0) - std::cos(t)) - std::sin(t)}; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -l; return J; } };
int main() {
	double tol = 1e-6; size_t n[2]; int k = 0;
	for (double l : {1e2, 1e6}) {
		stiff F{l}; auto so = irk::default_solver_options(); so.rel_tol = so.abs_tol = tol; newton::options o; o.tol = o.dx_delta = 1e-9; o.maxit = 50; so.newton_opts = &o; so.max_steps = 20000;
		auto s = irk::odeint(F, 0.0, 10.0, V{1.01}, so, output_options(), irk::RADAU_IIA_53, 1e-3);
		n[k++] = s.count.attempt;
	}
	return n[1] < n[0] + 60 ? 0 : bad("steps", n[0], n[1]);
}
'''),

dict(id="c28-increment-before-step", property="C28",
 edits=[("irk.hpp", "		if (xnorm2 < xtol2) {\n			status = newton::SUCCESS;\n			break;\n		}", "		if (step*step*xnorm2 < xtol2) {\n			status = newton::SUCCESS;\n			break;\n		}")],
 needs="the solver mode with damping, and a large residual",
 breaks="a step that is only short because it was damped counts as convergence",
 demo=PRE+r'''
struct big { typedef arma::mat jac_type;
	V fun(double, const V &y) { return V{1e9*(1 + 1e-5*std::sin(y(0)))}; }
	M jac(double, const V &y) { M J(1,1); J(0,0) = 1e4*std::cos(y(0)); return J; } };
int main() {
	big P; auto sc = irk::get_coefficients(irk::IMPLICIT_EULER);
	V Y, y = {0.4}; M J; newton::status st; size_t nf = 0, nj = 0;
	int s = irk::newton_solve_stages<big, true, true>(P, y, 0.0, 1e-6, sc, 10, 1, 1.5, 1e-12, Y, J, st, nf, nj);
	if (s != newton::SUCCESS) return 0;
	double r = std::fabs(Y(0) - 1e-6*P.fun(0, y + Y)(0));
	return r < 10 ? 0 : bad("residual", r);
}
'''),
dict(id="c29-jacobian-in-try", property="C29",
 edits=[("newton.hpp", "		try{\n			if( precondition ){", "		try{\n			if( refresh_jac && stats.iters > 0 ) J = func.jac(x0);\n			if( precondition ){"),
        ("newton.hpp", "		xn = x0 + lambda*direction;\n		if( refresh_jac ){\n			J = func.jac(xn);\n			if (store_LU)  {", "		xn = x0 + lambda*direction;\n		if( refresh_jac ){\n			if (store_LU)  {")],
 needs="a Jacobian that throws after the first iteration",
 breaks="the exception is taken for a failed solve and does not reach the caller",
 demo=PRE+r'''
struct mine : std::exception {};
struct f { typedef arma::mat jac_type; int n = 0;
	V fun(const V &x) { return V{x(0)*x(0) - 2}; }
	M jac(const V &x) { if (++n == 3) throw mine(); M J(1,1); J(0,0) = 2*x(0); return J; } };
int main() {
	f F; newton::options o; o.refresh_jac = 1; o.tol = o.dx_delta = 1e-12; newton::status st;
	try { newton::newton_iterate(F, V{5.0}, o, st); } catch (const mine &) { return 0; }
	return bad("swallowed", st.conv_status);
}
'''),
dict(id="c29-wrapper-copies", property="C29",
 edits=[("newton.hpp", "	f_func &f;\n	J_func &J;\n};", "	f_func f;\n	J_func J;\n};")],
 needs="functions with state in the wrapper",
 breaks="the wrapper calls copies of the functions it was given",
 demo=PRE+r'''
struct cf { int n = 0; V operator()(const V &x) { ++n; return V{x(0) - 1}; } };
struct cj { int n = 0; M operator()(const V &) { ++n; return M(1,1,arma::fill::ones); } };
int main() {
	cf f; cj j; newton::newton_lambda_wrapper<cf, cj, M> w(f, j); newton::options o; newton::status st;
	newton::newton_iterate(w, V{5.0}, o, st);
	return f.n > 0 && j.n > 0 ? 0 : bad("calls", f.n, j.n);
}
'''),
dict(id="c29-jacobian-copy", property="C29",
 edits=[("irk.hpp", "		[&func, &J, &J_Y, NN, &L, &U, &P, t, dt, y, sc, &jac_evals]()\n		{", "		[func, &J, &J_Y, NN, &L, &U, &P, t, dt, y, sc, &jac_evals]() mutable\n		{")],
 needs="a functor whose Jacobian depends on its own state, or that counts",
 breaks="the Jacobi matrix is evaluated with a copy of the functor",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto s = run_irk(P, irk::RADAU_IIA_53, 0.1, 1.0, false);
	return P.nj == (long)s.count.jac_evals && P.nj > 0 ? 0 : bad("calls", P.nj, s.count.jac_evals);
}
'''),
]
