import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
QUIET = ""
SEEDS = [
dict(id="c02-old-step-for-stage-times", property="C02",
 edits=[("erk.hpp", "			Ks.col(i) = eval_fun(t + sc.c(i)*dt, tmp);", "			Ks.col(i) = eval_fun(t + sc.c(i)*dts[0], tmp);")],
 needs="a time-dependent problem and a last step that is shortened to end at the final time",
 breaks="the stages of the shortened last step of an explicit method are evaluated at the times of the unshortened step",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	output_options oo;
	auto a = erk::odeint(P, 0.0, 0.025, y0, so, oo, erk::RUNGE_KUTTA_4, 0.01);
	auto b = erk::odeint(P, a.t_vals[2], 0.025, a.y_vals[2], so, oo, erk::RUNGE_KUTTA_4, 0.025 - a.t_vals[2]);
	return arma::norm(a.y_vals.back() - b.y_vals.back()) < 1e-14 ? 0 : bad("last step", arma::norm(a.y_vals.back() - b.y_vals.back()));
}
'''),
dict(id="c02-default-step-from-interval", property="C02",
 edits=[("irk.hpp", "	return odeint(func, t0, t1, y0, s_opts, output_opts);", "	return odeint(func, t0, t1, y0, s_opts, output_opts,\n	              y0.size() > 1 ? irk::RADAU_IIA_53 : irk::LOBATTO_IIIC_64);")],
 needs="a call that names no method, for a single equation",
 breaks="another method than the documented default is used for scalar problems",
 demo=PRE+r'''
struct scalar { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-y(0)*y(0) + std::cos(t)}; }
	M jac(double, const V &y) { M J(1,1); J(0,0) = -2*y(0); return J; } };
int main() {
	scalar F; V y0 = {1.0};
	auto a = irk::odeint(F, 0.0, 2.0, y0);
	auto so = irk::default_solver_options();
	newton::options n; n.refresh_jac = 25; n.tol = 0.1*std::min(so.abs_tol, so.rel_tol); so.newton_opts = &n;
	auto b = irk::odeint(F, 0.0, 2.0, y0, so, output_options(), irk::RADAU_IIA_53);
	return a.t_vals == b.t_vals && a.y_vals.back()(0) == b.y_vals.back()(0) ? 0 : bad("default", a.t_vals.size(), b.t_vals.size());
}
'''),
dict(id="c03-lu-without-pivoting", property="C03",
 edits=[("irk.hpp", "			vec_type tmp = arma::solve(arma::trimatl(-L), P*R);\n			dY  = arma::solve(arma::trimatu(U), tmp);", "			vec_type tmp = arma::solve(arma::trimatl(-L), P.t()*R);\n			dY  = arma::solve(arma::trimatu(U), tmp);")],
 needs="a stage system whose factorisation permutes rows in a way that is not its own inverse",
 breaks="the stage equations are solved with the wrong permutation, so that the iteration does not converge or converges slowly",
 demo=PRE+r'''
struct lin { typedef arma::mat jac_type; M A;
	V fun(double, const V &y) { return A*y; }
	M jac(double, const V &) { return A; } };
int main() {
	lin F; F.A = M(3,3); F.A.zeros();
	// A rotation about (1,1,1), fast.
	double w = 40;
	F.A(0,1) = -w; F.A(0,2) = w; F.A(1,0) = w; F.A(1,2) = -w; F.A(2,0) = -w; F.A(2,1) = w;
	V y0 = {1.0, 0.2, -0.4};
	auto so = irk::default_solver_options(); so.adaptive_step_size = false;
	auto n = tight(); so.newton_opts = &n; n.maxit = 50;
	auto s = irk::odeint(F, 0.0, 3.0, y0, so, output_options(), irk::GAUSS_LEGENDRE_147, 1.0);
	if (s.status != SUCCESS) return bad("status", s.status);
	return std::fabs(arma::norm(s.y_vals.back()) - arma::norm(y0)) < 1e-9 ? 0 : bad("modulus", arma::norm(s.y_vals.back()));
}
'''),
dict(id="c04-last-step-rounded", property="C04",
 edits=[("irk.hpp", "			t += dt;\n			++step;\n\n			if (time_internals) {", "			t = t0 + dt*std::floor((t - t0)/dt + 1.5);\n			++step;\n\n			if (time_internals) {")],
 needs="an implicit run whose steps are not all equal",
 breaks="the time after a step is rounded to a multiple of the step size", 
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options(); auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(P, 0.0, 1.0, y0, so, output_options(), irk::RADAU_IIA_53, 0.01);
	for (size_t i = 1; i < s.t_vals.size(); ++i) if (!(s.t_vals[i] > s.t_vals[i-1])) return bad("times");
	return s.t_vals.back() == 1.0 ? 0 : bad("end", s.t_vals.back());
}
'''),
dict(id="c04-longer-when-constant", property="C04",
 edits=[("erk.hpp", "		if( t + dt > t1 ){\n			dt = t1 - t;\n		}\n		if (solver_opts.max_steps", "		if( t + dt > t1 || (!solver_opts.adaptive_step_size && t + 1.0001*dt > t1) ){\n			dt = t1 - t;\n		}\n		if (solver_opts.max_steps")],
 needs="constant steps of an explicit method whose last regular point is within 1e-4 steps of the end",
 breaks="the last step is longer than the requested step size",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	auto s = erk::odeint(P, 0.0, 0.0500004, y0, so, output_options(), erk::RUNGE_KUTTA_4, 0.01);
	for (size_t i = 1; i < s.t_vals.size(); ++i) if (s.t_vals[i] - s.t_vals[i-1] > 0.01*(1 + 1e-9)) return bad("step", s.t_vals[i] - s.t_vals[i-1]);
	return 0;
}
'''),
dict(id="c05-error-scale-of-largest", property="C05",
 edits=[("erk.hpp", "				double sci  = atol + rtol * std::max(y0i, y1i);", "				double sci  = atol + rtol * std::max(std::max(y0i, y1i), 0.1*arma::norm(y, \"inf\"));")],
 needs="components of very different magnitude, tolerance mostly relative",
 breaks="small components are only computed to the tolerance of the largest one",
 demo=PRE+r'''
struct two { typedef arma::mat jac_type;
	V fun(double t, const V &y) { V f(2); f(0) = 0; f(1) = y(1)*std::cos(t); return f; }
	M jac(double t, const V &y) { M J(2,2,arma::fill::zeros); J(1,1) = std::cos(t); return J; } };
int main() {
	two F; V y0 = {1e6, 1e-3};
	auto so = erk::default_solver_options(); so.rel_tol = 1e-6; so.abs_tol = 1e-12;
	auto s = erk::odeint(F, 0.0, 6.0, y0, so, output_options(), erk::DORMAND_PRINCE_54, 1e-3);
	double e = std::fabs(s.y_vals.back()(1)/(1e-3*std::exp(std::sin(6.0))) - 1);
	return e < 1e-4 ? 0 : bad("error", e);
}
'''),
dict(id="c06-signed-magnitude", property="C06",
 edits=[("erk.hpp", "				double y1i  = std::fabs(y_n(i));", "				double y1i  = std::max(0.0, y_n(i));")],
 needs="a component that is negative and growing in magnitude",
 breaks="the error weights use the old magnitude of components that get more negative",
 demo=PRE+r'''
struct grow { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return y; }
	M jac(double, const V &) { return M(1,1,arma::fill::ones); } };
int main() {
	grow F; auto so = erk::default_solver_options(); so.rel_tol = 1e-3; so.abs_tol = 1e-9;
	V a = {1.0}, b = {-1.0};
	auto s = erk::odeint(F, 0.0, 8.0, a, so, output_options(), erk::BOGACKI_SHAMPINE_32, 0.1);
	auto r = erk::odeint(F, 0.0, 8.0, b, so, output_options(), erk::BOGACKI_SHAMPINE_32, 0.1);
	return s.t_vals == r.t_vals ? 0 : bad("mirrored", s.t_vals.size(), r.t_vals.size());
}
'''),
dict(id="c06-quiet-components", property="C06",
 edits=[("irk.hpp", "			double add = erri / sci;\n			err_tot += add * add;\n			n += 1.0;", "			double add = erri / sci;\n			if( add == 0.0 ) continue;\n			err_tot += add * add;\n			n += 1.0;")],
 needs="an implicit pair on a system some components of which have no error at all (constants)",
 breaks="components without error are not counted in the mean",
 demo=PRE+r'''
struct part { typedef arma::mat jac_type;
	V fun(double t, const V &y) { V f(4, arma::fill::zeros); f(0) = -y(0) + std::cos(3*t); return f; }
	M jac(double, const V &) { M J(4,4,arma::fill::zeros); J(0,0) = -1; return J; } };
int main() {
	part F; auto so = irk::default_solver_options(); auto n = tight(); so.newton_opts = &n;
	V y0 = {1.0, 2.0, 3.0, 4.0};
	auto s = irk::odeint(F, 0.0, 3.0, y0, so, output_options(), irk::RADAU_IIA_53, 0.01);
	for (size_t i = 1; i < s.t_vals.size(); ++i) {
		double e = 0;
		for (int k = 0; k < 4; ++k) { double w = s.err_est[i](k)/(so.abs_tol + so.rel_tol*std::max(std::fabs(s.y_vals[i](k)), std::fabs(s.y_vals[i-1](k)))); e += w*w; }
		e = std::sqrt(e/4);
		if (s.err[i] > 1e-10 && std::fabs(e/s.err[i] - 1) > 1e-6) return bad("norm", s.err[i], e);
	}
	return 0;
}
'''),
dict(id="c07-last-iteration-free", property="C07",
 edits=[("irk.hpp", "		R = construct_R(func, y, t, dt, sc, Y, I_neq);\n\n		fun_evals += Ns;\n		Rnorm2 = arma::dot(R,R);\n		if (Rnorm2 < Rtol2) {\n			status = newton::SUCCESS;\n			break;\n		}", "		R = construct_R(func, y, t, dt, sc, Y, I_neq);\n\n		Rnorm2 = arma::dot(R,R);\n		if (Rnorm2 < Rtol2) {\n			status = newton::SUCCESS;\n			break;\n		}\n		fun_evals += Ns;")],
 needs="a stage solve that ends because of its residual",
 breaks="the evaluations of the last iteration are not counted",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(P, 0.0, 1.0, y0, so, output_options(), irk::GAUSS_LEGENDRE_42, 0.1);
	return (long)s.count.fun_evals == P.nf ? 0 : bad("evaluations", s.count.fun_evals, P.nf);
}
'''),
dict(id="c07-rejected-first-stage", property="C07",
 edits=[("erk.hpp", "				integrator_status = 1;\n				sol.count.reject_err++;", "				integrator_status = 1;\n				if (step > 0) sol.count.reject_err++;")],
 needs="an explicit integration whose very first attempt is rejected",
 breaks="rejections before the first accepted step are not counted",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-9;
	auto s = erk::odeint(P, 0.0, 5.0, y0, so, output_options(), erk::CASH_KARP_54, 4.0);
	return s.count.attempt == s.t_vals.size() - 1 + s.count.reject_err ? 0 : bad("attempts", s.count.attempt, s.count.reject_err);
}
'''),
dict(id="c08-limit-forgotten-at-end", property="C08",
 edits=[("erk.hpp", "	double elapsed = timer.toc();\n	sol.elapsed_time = elapsed;", "	if (sol.status == ERROR_MAX_STEPS_EXCEEDED && t + 1e-6*(t1 - t0) >= t1) sol.status = SUCCESS;\n	double elapsed = timer.toc();\n	sol.elapsed_time = elapsed;")],
 needs="a step limit that is reached just before the end, so that only a sliver remains",
 breaks="a run that stopped at its limit before the end reports success",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = erk::default_solver_options(); so.adaptive_step_size = false; so.max_steps = 4;
	double end = 0.5 + 1e-9;
	auto s = erk::odeint(P, 0.0, end, y0, so, output_options(), erk::RUNGE_KUTTA_4, 0.125);
	if (s.t_vals.back() >= end) return bad("steps", s.t_vals.size());
	return s.status == ERROR_MAX_STEPS_EXCEEDED ? 0 : bad("status", s.status);
}
'''),
dict(id="c09-thinned-before-the-first", property="C09",
 edits=[("irk.hpp", "			if (step % output_opts.output_interval == 0) {\n				if (output_opts.store_in_vectors()) {", "			if (step % output_opts.output_interval == 0 ||\n			    (step == solver_opts.max_steps && output_opts.write_to_file())) {\n				if (output_opts.store_in_vectors()) {")],
 needs="an implicit run with an output interval that also writes and ends at its step limit",
 breaks="an additional line is written and stored for the last step before the limit",
 demo=PRE+"#include <sstream>\n"+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n; so.max_steps = 5;
	std::ostringstream o;
	output_options oo; oo.output_interval = 2; oo.set_output_stream(o);
	auto s = irk::odeint(P, 0.0, 1.0, y0, so, oo, irk::RADAU_IIA_53, 0.0625);
	return s.t_vals.size() == 3 ? 0 : bad("points", s.t_vals.size());
}
'''),
dict(id="c10-shared-identity", property="C10",
 edits=[("irk.hpp", "	const mat_type I_neq   = arma::eye(Neq, Neq);", "	static mat_type I_shared;\n	if (I_shared.n_rows != Neq) I_shared = arma::eye(Neq, Neq);\n	const mat_type &I_neq = I_shared;")],
 needs="an implicit integration of another dimension inside the right-hand side, or in another thread",
 breaks="the identity matrix of the stage equations is shared between integrations",
 demo=PRE+r'''
struct outer_problem : smooth_problem {
	bool nest = false, inside = false;
	V fun(double t, const V &y) {
		if (inside) return -y;
		if (nest && nf % 5 == 2) {
			auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
			inside = true;
			irk::odeint(*this, 0.0, 0.1, V{1.0}, so, output_options(), irk::IMPLICIT_EULER, 0.1);
			inside = false;
		}
		return smooth_problem::fun(t, y);
	}
	M jac(double t, const V &y) {
		if (inside) return -M(1, 1, arma::fill::ones);
		return smooth_problem::jac(t, y);
	}
};
int main() {
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	outer_problem A, B; B.nest = true;
	auto a = irk::odeint(A, 0.0, 0.5, y0, so, output_options(), irk::RADAU_IIA_53, 0.1);
	auto b = irk::odeint(B, 0.0, 0.5, y0, so, output_options(), irk::RADAU_IIA_53, 0.1);
	if (a.t_vals.size() != b.t_vals.size()) return bad("points");
	return arma::norm(a.y_vals.back() - b.y_vals.back()) == 0 ? 0 : bad("values");
}
'''),
dict(id="c11-absolute-stage-floor", property="C11",
 edits=[("irk.hpp", "	double xtol2 = xtol*xtol;\n	double Rtol2 = Rtol*Rtol;", "	double xtol2 = std::max(xtol*xtol, 1e-32);\n	double Rtol2 = std::max(Rtol*Rtol, 1e-32);")],
 needs="values in units in which the tolerance of the stage solver is below 1e-16",
 breaks="the stage solver stops at an absolute residual, whatever the scale of the values",
 demo=PRE+r'''
struct cubic { typedef arma::mat jac_type; double k;
	V fun(double t, const V &y) { return V{-y(0)*y(0)*y(0)/(k*k) + k*std::cos(t)}; }
	M jac(double, const V &y) { M J(1,1); J(0,0) = -3*y(0)*y(0)/(k*k); return J; } };
int main() {
	double k = std::ldexp(1.0, -30);
	cubic A{1}, B{k};
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	n.tol = 1e-10; n.dx_delta = 1e-10;
	auto a = irk::odeint(A, 0.0, 1.0, V{0.7}, so, output_options(), irk::RADAU_IIA_53, 0.125);
	n.tol *= k; n.dx_delta *= k;
	auto b = irk::odeint(B, 0.0, 1.0, V{0.7*k}, so, output_options(), irk::RADAU_IIA_53, 0.125);
	return a.y_vals.back()(0)*k == b.y_vals.back()(0) ? 0 : bad("value", a.y_vals.back()(0), b.y_vals.back()(0)/k);
}
'''),
dict(id="c12-merge-empty-second", property="C12",
 edits=[("irk.cpp", "	rk_output merger( sol1 );\n	merger.status |= sol2.status;", "	if (sol2.t_vals.empty()) return sol1;\n	rk_output merger( sol1 );\n	merger.status |= sol2.status;")],
 needs="a second result that stored no points (it only wrote to a stream)",
 breaks="counters, elapsed time and status of the second part are lost",
 demo=PRE+r'''
int main() {
	irk::rk_output a, b;
	a.t_vals.push_back(0); a.y_vals.push_back(V{1.0}); a.count.attempt = 3;
	b.count.attempt = 5; b.elapsed_time = 2; b.status = 1;
	auto m = irk::merge_rk_output(a, b);
	return m.count.attempt == 8 && m.status == (a.status | 1) ? 0 : bad("attempts", m.count.attempt);
}
'''),
dict(id="c13-precondition-zero-diagonal", property="C13",
 edits=[("newton.hpp", "					if( J(i,i) != 0.0 ){\n						P(i,i) = 1.0 / J(i,i);\n					}else{\n						P(i,i) = 1.0;\n					}", "					if( std::fabs(J(i,i)) > 1e-3 ){\n						P(i,i) = 1.0 / J(i,i);\n					}")],
 needs="preconditioning, and an equation whose diagonal entry of the Jacobian is small",
 breaks="such an equation is dropped from the preconditioned system",
 demo=PRE+r'''
struct sys { typedef arma::mat jac_type;
	V fun(const V &x) { V f(2); f(0) = x(1) - 2; f(1) = x(0) + 3*x(1) - 7; return f; }
	M jac(const V &) { M J(2,2); J(0,0) = 0; J(0,1) = 1; J(1,0) = 1; J(1,1) = 3; return J; } };
int main() {
	sys F; newton::options o; o.precondition = true; o.maxit = 50; newton::status st;
	V x = newton::newton_iterate(F, V{0.0, 0.0}, o, st);
	return st.conv_status == newton::SUCCESS && std::fabs(x(0) - 1) < 1e-8 && std::fabs(x(1) - 2) < 1e-8 ? 0 : bad("root", x(0), x(1));
}
'''),
dict(id="c16-assignment-keeps-period", property="C16",
 edits=[("cyclic_buffer.hpp", "			storage_.resize(2*o.period());\n			period_ = o.period();\n			current_ = o.current();", "			if (storage_.size() < 2*o.period()) storage_.resize(2*o.period());\n			period_ = std::max<long>(period_, o.period());\n			current_ = o.current();")],
 needs="assigning a buffer to one with a longer period, then inserting more than its period",
 breaks="the assigned buffer keeps its own longer period",
 demo=PRE+"#include \"cyclic_buffer.hpp\"\n"+r'''
int main() {
	cyclic_buffer<int> a(2), b(5);
	a.push_back(1); a.push_back(2);
	b = a;
	if (b.period() != 2) return bad("period", b.period());
	b.push_back(3);
	return b.size() == 2 && b[0] == 3 && b[1] == 2 ? 0 : bad("elements", b.size());
}
'''),
dict(id="c17-expand-skips-equal", property="C17",
 edits=[("irk.cpp", "			vij.insert( vij.end(), c2[j].begin(), c2[j].end() );\n			c3.push_back( vij );", "			vij.insert( vij.end(), c2[j].begin(), c2[j].end() );\n			if( !c3.empty() && c3.back() == vij ) continue;\n			c3.push_back( vij );")],
 needs="a list with two equal neighbouring entries",
 breaks="repeated combinations are dropped",
 demo=PRE+r'''
int main() {
	irk::coeff_list a = {{1}, {2}}, b = {{3}, {3}};
	return irk::expand(a, b).size() == 4 ? 0 : bad("size", irk::expand(a, b).size());
}
'''),
dict(id="c20-oldest-slope-time", property="C20",
 edits=[("multistep.hpp", "	case 2:\n		Y += dt*(C[1][0]*func.fun(t, history[0]) +", "	case 2:\n		Y += dt*(C[1][0]*func.fun(t + 1e-9*dt*(history.size() < 3), history[0]) +")] ,
 needs="the second-order method on a strongly time-dependent problem",
 breaks="x",
 demo=PRE+"int main() { return 0; }"),
dict(id="c21-bootstrap-one-short", property="C21",
 edits=[("multistep.hpp", "			interpolation_part += bdf_params[i]*history[i];", "			interpolation_part += bdf_params[i]*history[solver_opts.order == 6 && i == 5 ? 4 : i];")],
 needs="order six",
 breaks="the oldest value in the sixth-order formula is the one after it",
 demo=PRE+r'''
#include "multistep.hpp"
struct slope { typedef arma::mat jac_type;
	V fun(double t, const V &) { return V{5*t*t*t*t}; }
	M jac(double, const V &) { return M(1,1,arma::fill::zeros); } };
int main() {
	slope F; multistep::solver_options so; so.order = 6;
	auto s = multistep::bdf(F, 0.0, 2.0, V{0.0}, so, 0.125);
	for (size_t i = 0; i < s.t_vals.size(); ++i) if (std::fabs(s.y_vals[i](0) - std::pow(s.t_vals[i], 5)) > 1e-6) return bad("value", i, s.y_vals[i](0));
	return 0;
}
'''),
dict(id="c21-converged-when-close", property="C21",
 edits=[("multistep.hpp", "		if (newton_status.conv_status != newton::SUCCESS) {", "		if (newton_status.conv_status != newton::SUCCESS && !(newton_status.res < 1e3)) {")],
 needs="an implicit equation without solution whose residual stays finite",
 breaks="a failed solve is taken for a success unless the residual is huge",
 demo=PRE+r'''
#include "multistep.hpp"
struct trap { typedef arma::mat jac_type;
	V fun(double t, const V &y) { if (t < 1) return V{-y(0)}; return V{y(0) + 10*(y(0)*y(0) + 1)}; }
	M jac(double t, const V &y) { M J(1,1); J(0,0) = t < 1 ? -1 : 1 + 20*y(0); return J; } };
int main() {
	trap F; multistep::solver_options so; so.order = 1;
	auto s = multistep::bdf(F, 0.0, 3.0, V{1.0}, so, 0.25);
	return s.status != SUCCESS && s.t_vals.back() < 1.1 ? 0 : bad("status", s.status, s.t_vals.back());
}
'''),
dict(id="c24-float-milliseconds", property="C24",
 edits=[("my_timer.hpp", "		return (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +\n			(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;", "		int usec = (t_toc.tv_sec - user_tic.tv_sec)*1000000\n			+ (t_toc.tv_usec - user_tic.tv_usec);\n		return usec*1e-3;")],
 needs="more than 36 minutes between start and reading",
 breaks="the microseconds overflow an int",
 demo=r'''
#include "my_timer.hpp"
#include <cmath>
int main() {
	my_timer t;
	timeval v = t.get_tic();
	v.tv_sec -= 4000;
	return std::fabs(t.get_elapsed(v) - 4e6) < 5000 ? 0 : 1;
}
'''),
dict(id="c26-axis-clamped", property="C26",
 edits=[("stability_region/main.cpp", "			std::complex<double> z(X(i), Y(j));\n", "			std::complex<double> z(X(i), Y(j));\n			if (std::abs(z) > 190) z *= 190/std::abs(z);\n")],
 needs="the points in the corner of the grid",
 breaks="points beyond a distance of 190 are moved to it",
 demo="",
 demo_sh=r'''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -I. stability_region/main.cpp *.cpp -o "$t/prog" -larmadillo -llapack -lblas || exit 2
cd "$t" && timeout 200 ./prog EXPLICIT_EULER >out 2>err
cat "$t"/* 2>/dev/null | awk '$1=="-190" && $2=="-20" && NF>=3 { n=1; v=sqrt(189^2+400); if ($3 < v-0.01 || $3 > v+0.01) bad=1 } END { exit (n && !bad) ? 0 : 1 }'
'''),
dict(id="c06-filter-of-old-step", property="C06",
 edits=[("irk.hpp", "		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;", "		mat_type solve_tmp = arma::eye(Neq,Neq) - sc.gamma*std::min(dt, dts[1])*J;")],
 needs="a stiff problem and steps that grow",
 breaks="the error filter uses the previous step size when that was smaller, so that stiff components limit the step",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options(); auto n = tight(); so.newton_opts = &n;
	auto sc = irk::get_coefficients(irk::RADAU_IIA_53);
	auto s = irk::odeint(P, 0.0, 3.0, y0, so, output_options(), irk::RADAU_IIA_53, 0.01);
	// The estimate of an ordinary step, from the stored stages.
	for (size_t i = 2; i + 1 < s.t_vals.size(); ++i) {
		double h = s.t_vals[i] - s.t_vals[i-1];
		smooth_problem Q; V y = s.y_vals[i-1]; M J = Q.jac(s.t_vals[i-1], y);
		M K = arma::reshape(s.stages[i], 3, 3);
		V d = h*(K*(sc.b2 - sc.b) + sc.gamma*Q.fun(s.t_vals[i-1], y));
		M F = arma::eye(3,3) - sc.gamma*h*J;
		V e = arma::solve(F, d);
		V e2 = arma::solve(F, V(d + h*sc.gamma*(Q.fun(s.t_vals[i-1], y + e) - Q.fun(s.t_vals[i-1], y))));
		double a = arma::norm(e - s.err_est[i]), b = arma::norm(e2 - s.err_est[i]);
		if (std::min(a, b) > 1e-6*arma::norm(e) + 1e-12) return bad("estimate", i, std::min(a, b)/arma::norm(e));
	}
	return 0;
}
'''),
dict(id="c28-stagnation-is-success", property="C28",
 edits=[("irk.hpp", "		xnorm2 = arma::dot(dY, dY);\n", "		double xnorm2_old = xnorm2;\n		xnorm2 = arma::dot(dY, dY);\n		if (stats.iters > 20 && xnorm2 >= xnorm2_old) {\n			// Rounding prevents further convergence.\n			Y += step*dY;\n			status = newton::SUCCESS;\n			break;\n		}\n")],
 needs="a stage iteration that still does not converge after 20 iterations",
 breaks="divergence late in the iteration is reported as success",
 demo=PRE+r'''
struct trap { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{10*(y(0)*y(0) + 1)}; }
	M jac(double t, const V &y) { M J(1,1); J(0,0) = 20*y(0); return J; } };
int main() {
	trap F;
	auto sc = irk::get_coefficients(irk::IMPLICIT_EULER);
	for (int k = 0; k < 40; ++k) {
		V Y; M J; newton::status st; std::size_t nf = 0, nj = 0; V y = {-1.0 + 0.05*k};
		int r = irk::newton_solve_stages<trap, false, true>(F, y, 0.0, 1.0, sc, 100, 1, 1e-10, 1e-10, Y, J, st, nf, nj);
		if (r == newton::SUCCESS) return bad("success", Y(0), k);
	}
	return 0;
}
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c20-oldest-slope-time",)]
