import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
from batch4 import RUN
from batch5 import CAP

SEEDS = [
dict(id="c06-first-thirty-two", property="C06",
 edits=[("erk.hpp", "			for (std::size_t i = 0; i < Neq; ++i) {\n				double erri = err_est(i);", "			for (std::size_t i = 0; i < Neq && i < 32; ++i) {\n				double erri = err_est(i);")],
 needs="a system of more than 32 equations",
 breaks="components beyond the first 32 do not count in the error norm",
 demo=PRE+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { V f(40, arma::fill::zeros); f(39) = 5*std::cos(20*t); return f; } };
int main() {
	F_ F; auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-6;
	auto s = erk::odeint(F, 0.0, 1.0, V(40, arma::fill::zeros), so, output_options(), erk::DORMAND_PRINCE_54, 0.1);
	return std::fabs(s.y_vals.back()(39) - 0.25*std::sin(20.0)) < 1e-4 ? 0 : bad("error", s.y_vals.back()(39) - 0.25*std::sin(20.0));
}
'''),
dict(id="c10-thread-local-argument", property="C10",
 edits=[("erk.hpp", "			vec_type tmp = y;\n			for (std::size_t j = 0; j < i; ++j) {", "			static thread_local vec_type tmp;\n			tmp = y;\n			for (std::size_t j = 0; j < i; ++j) {")],
 needs="a right-hand side that integrates something itself, and looks at its argument afterwards",
 breaks="the argument of the right-hand side changes while it is being evaluated",
 demo=PRE+r'''
struct outer { typedef arma::mat jac_type; bool nest;
	V fun(double t, const V &y) {
		if (nest) { outer I{false}; auto so = erk::default_solver_options(); so.adaptive_step_size = false; erk::odeint(I, 0.0, 1.0, V{7.0}, so, output_options(), erk::RUNGE_KUTTA_4, 0.5); }
		return V{-y(0) + t};
	} };
int main() {
	double r[2];
	for (int k = 0; k < 2; ++k) { outer F{k == 1}; auto so = erk::default_solver_options(); so.adaptive_step_size = false;
		r[k] = erk::odeint(F, 0.0, 1.0, V{1.0}, so, output_options(), erk::RUNGE_KUTTA_4, 0.25).y_vals.back()(0); }
	return r[0] == r[1] ? 0 : bad("nested", r[0], r[1]);
}
'''),
dict(id="c29-estimate-in-try", property="C29",
 edits=[("irk.hpp", "			vec_type dy_alt_alt = gam*func.fun(t, y + err_est);", "			vec_type dy_alt_alt(Neq);\n			try {\n				dy_alt_alt = gam*func.fun(t, y + err_est);\n			} catch (std::exception &e) {\n				dy_alt_alt.fill(1e10);\n			}")],
 needs="a functor that throws in the evaluation for the refined error estimate",
 breaks="that exception does not reach the caller",
 demo=PRE+r'''
#include <stdexcept>
struct F_ { typedef arma::mat jac_type; long n = 0, at; F_(long a) : at(a) {}
	V fun(double t, const V &y) { if (++n == at) throw std::runtime_error("x"); return V{-y(0)*y(0) + t}; }
	M jac(double, const V &y) { return M(1,1,arma::fill::ones)*-2*y(0); } };
int main() {
	F_ P(-1); auto so = irk::default_solver_options(); auto n = tight(); so.newton_opts = &n;
	irk::odeint(P, 0.0, 0.5, V{1.0}, so, output_options(), irk::RADAU_IIA_53, 0.1);
	for (long k = 1; k <= P.n; ++k) { F_ F(k); bool got = false;
		try { irk::odeint(F, 0.0, 0.5, V{1.0}, so, output_options(), irk::RADAU_IIA_53, 0.1); } catch (std::runtime_error &) { got = true; }
		if (!got) return bad("call", k); }
	return 0;
}
'''),
dict(id="c12-rejections-once", property="C12",
 edits=[("irk.cpp", "	merger.count.newton_iter_error_too_large +=\n		sol2.count.newton_iter_error_too_large;", "	merger.count.newton_iter_error_too_large =\n		std::max(merger.count.newton_iter_error_too_large,\n		         sol2.count.newton_iter_error_too_large);")],
 needs="merging solutions that both have iteration errors",
 breaks="that counter is not added",
 demo=PRE+r'''
int main() { irk::rk_output a, b; a.count.newton_iter_error_too_large = 3; b.count.newton_iter_error_too_large = 4;
	return irk::merge_rk_output(a, b).count.newton_iter_error_too_large == 7 ? 0 : bad("sum"); }
'''),
dict(id="c24-half-an-hour", property="C24",
 edits=[("my_timer.hpp", "		return (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +\n			(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;", "		int usec = (t_toc.tv_sec - user_tic.tv_sec)*1000000L +\n			(t_toc.tv_usec - user_tic.tv_usec);\n		return usec*1e-3;")],
 needs="more than 35 minutes between the readings",
 breaks="the elapsed time wraps around",
 demo=PRE+r'''
#include "my_timer.hpp"
int main() { my_timer t; timeval a = t.get_tic(); a.tv_sec -= 3600; double e = t.get_elapsed(a); return e > 3.59e6 && e < 3.7e6 ? 0 : bad("elapsed", e); }
'''),
dict(id="c15-step-not-small", property="C15",
 edits=[("newton.hpp", "	vec_type new_ym = y;\n", "	vec_type new_ym = y;\n	if (N > 12) h = std::max(h, 1e-3);\n")],
 needs="a system of more than a dozen equations and a small step",
 breaks="the step asked for is not used",
 demo=PRE+r'''
struct S { typedef arma::mat jac_type; V fun(const V &x) { return arma::exp(3*x); } };
int main() { S s; M J = newton::approx_jacobi_matrix(V(14, arma::fill::ones), s, 1e-5); double e = 3*std::exp(3.0); return std::fabs(J(3,3) - e) < 1e-6*e ? 0 : bad("error", J(3,3) - e); }
'''),
dict(id="c20-resynchronised", property="C20",
 edits=[("multistep.hpp", "		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);\n		history.push_back(y);\n		t += dt;\n		++step;", "		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);\n		history.push_back(y);\n		t += dt;\n		++step;\n		// Do not let rounding errors of the time add up:\n		if (step % 64 == 0) t = t0 + step*dt;")],
 needs="more than 64 steps with an order above one",
 breaks="the time jumps back by the starting values",
 demo=PRE+CAP+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { return V{std::cos(t) - y(0)}; } M jac(double, const V &) { return -M(1,1,arma::fill::ones); } };
int main() {
	F_ F; multistep::solver_options so; so.order = 3; basic_output s;
	{ cap c; s = multistep::adams_bashforth(F, 0.0, 10.0, V{0.0}, so, 0.1); }
	for (size_t i = 1; i < s.t_vals.size(); ++i) if (std::fabs(s.t_vals[i] - s.t_vals[i-1] - 0.1) > 1e-9) return bad("time", i, s.t_vals[i]);
	return 0;
}
'''),
dict(id="c21-nearly-there", property="C21",
 edits=[("multistep.hpp", "	while (t < t1) {\n		vec_type interpolation_part;", "	while (t1 - t > 1e-3*dt) {\n		vec_type interpolation_part;")],
 needs="an interval that is a little longer than a multiple of the step",
 breaks="the end is not reached",
 demo=PRE+CAP+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { return V{std::cos(t) - y(0)}; } M jac(double, const V &) { return -M(1,1,arma::fill::ones); } };
int main() {
	F_ F; multistep::solver_options so; so.order = 3; basic_output s;
	{ cap c; s = multistep::bdf(F, 0.0, 2.00005, V{0.0}, so, 0.125); }
	return s.t_vals.back() >= 2.00005 ? 0 : bad("end", s.t_vals.back());
}
'''),
dict(id="c13-refresh-when-slow", property="C13",
 edits=[("newton.hpp", "		xn = x0 + lambda*direction;\n		if( refresh_jac ){", "		xn = x0 + lambda*direction;\n		if( refresh_jac && !(stats.iters > 3 && incr1 < 1e-3) ){")],
 needs="looking at the iterates of a solve with a fresh Jacobian that takes more than four iterations",
 breaks="close to the root the Jacobian is not refreshed",
 demo=PRE+r'''
struct S { typedef arma::mat jac_type; std::vector<double> at; V fun(const V &x) { at.push_back(x(0)); return V{x(0)*x(0)}; } M jac(const V &x) { return M(1,1,arma::fill::ones)*2*x(0); } };
int main() {
	S s; newton::options o = tight(); o.dx_delta = 1e-9; o.maxit = 100; o.refresh_jac = 1; newton::status st;
	newton::newton_iterate(s, V{1.0}, o, st);
	for (size_t i = 1; i < s.at.size(); ++i) { double x = s.at[i-1]; if (x != s.at[i] && std::fabs(s.at[i] - x/2) > 1e-6*x) return bad("iterate", i, s.at[i]); }
	return 0;
}
'''),
dict(id="c28-increment-with-damping", property="C28",
 edits=[("irk.hpp", "		if (xnorm2 < xtol2) {", "		if (step*step*xnorm2 < xtol2) {")],
 needs="the damped mode of the stage solver, and a residual so large that steps are tiny",
 breaks="a small step on a long way counts as convergence",
 demo=PRE+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { return V{-1e9*(y(0) - 1e5)}; } M jac(double, const V &) { return -1e9*M(1,1,arma::fill::ones); } };
int main() {
	F_ F; auto sc = irk::get_coefficients(irk::RADAU_IIA_53); V Y; M J; newton::status st; std::size_t nf = 0, nj = 0;
	int r = irk::newton_solve_stages<F_, true, true>(F, V{0.0}, 0.0, 0.1, sc, 2000, 0, 1e-6, 1e-6, Y, J, st, nf, nj);
	if (r != newton::SUCCESS) return 0;
	V R(3); for (int i = 0; i < 3; ++i) { double s = 0; for (int j = 0; j < 3; ++j) s += sc.A(i,j)*F.fun(0, V{Y(j)})(0); R(i) = Y(i) - 0.1*s; }
	return arma::norm(R) < 1e3 ? 0 : bad("residual", arma::norm(R), st.iters);
}
'''),
dict(id="c31-announces-equal", property="C31",
 edits=[("irk.hpp", "	if (t0 + dt > t1) {\n		output_opts.log_out", "	if (t0 + dt >= t1) {\n		output_opts.log_out")],
 needs="an initial step that is just the interval",
 breaks="a shortening is announced that did not happen",
 demo=PRE+CAP+r'''
int main() { smooth_problem P; auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n; std::string w;
	{ cap c; irk::odeint(P, 0.0, 0.5, V{1,1,1}, so, output_options(), irk::RADAU_IIA_53, 0.5); w = c.s.str(); }
	return w.find("too large") == std::string::npos ? 0 : bad("announced"); }
'''),
dict(id="c08-limit-after-clip", property="C08",
 edits=[("erk.hpp", "		if (solver_opts.max_steps >= 0 &&\n		    step >= solver_opts.max_steps) {", "		if (solver_opts.max_steps >= 0 && dt > 1e-9*(t1 - t0) &&\n		    step >= solver_opts.max_steps) {")],
 needs="a step limit that is reached while the steps are very small",
 breaks="the limit does not hold while steps are tiny",
 demo=PRE+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { return V{std::cos(t)*y(0)}; } };
int main() { F_ F; auto so = erk::default_solver_options(); so.max_steps = 2; so.rel_tol = so.abs_tol = 1e-6;
	auto s = erk::odeint(F, 0.0, 10.0, V{1.0}, so, output_options(), erk::DORMAND_PRINCE_54, 1e-11); return s.t_vals.size() == 3 ? 0 : bad("steps", s.t_vals.size()); }
'''),
dict(id="c17-erk-small-powers", property="C17",
 edits=[("erk.cpp", "		ts[j] = tt;\n		tt *= theta;", "		ts[j] = tt;\n		tt *= theta;\n		if (std::fabs(tt) < 1e-5) tt = 0;")],
 needs="interpolation of an explicit method close to the start of a step, looked at relative to the distance",
 breaks="small powers of the fraction are dropped",
 demo=PRE+r"""
int main() { erk::solver_coeffs sc; sc.c = V{0.0, 0.5, 1.0}; sc.b = V(3); sc.b_interp = irk::collocation_interpolate_coeffs(sc.c);
	double th = 0.003; V b = erk::project_b(th, sc); double q = arma::dot(b, sc.c); return std::fabs(q - th*th/2) < 1e-9 ? 0 : bad("q", q - th*th/2); }
"""),
]
