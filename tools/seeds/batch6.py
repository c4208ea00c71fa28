import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
from batch4 import RUN
from batch5 import CAP

SEEDS = [
dict(id="c28-tolerance-of-size", property="C28",
 edits=[("irk.hpp", "	double xtol2 = xtol*xtol;\n	double Rtol2", "	double xtol2 = xtol*xtol*NN;\n	double Rtol2")],
 needs="a nonlinear problem in many equations, whose stages take several iterations",
 breaks="the increment the stage iteration may stop at grows with the size of the system",
 demo=PRE+r'''
// Record the stages the iteration visits, and look at the last increment.
struct many { typedef arma::mat jac_type; std::vector<V> seen;
	V fun(double, const V &y) { seen.push_back(y); return -y%y%y; }
	M jac(double, const V &y) { return arma::diagmat(-3*y%y); } };
int main() {
	const int N = 60; V y0(N); for (int i = 0; i < N; ++i) y0(i) = 1 + 0.01*i;
	for (double x = 1e-2; x > 1e-9; x *= 0.8) {
		many F; newton::status st; size_t nf = 0, nj = 0; V Y; M J;
		auto sc = irk::get_coefficients(irk::IMPLICIT_EULER);
		int r = irk::newton_solve_stages<many, false, true>(F, y0, 0, 0.1, sc, 100, 0, x, 1e-300, Y, J, st, nf, nj);
		if (r != newton::SUCCESS) return bad("status");
		size_t k = F.seen.size();
		if (k < 2) return bad("iterations");
		if (arma::norm(F.seen[k-1] - F.seen[k-2]) > x*1.001) return bad("increment", x, arma::norm(F.seen[k-1] - F.seen[k-2]));
	}
	return 0;
}
'''),
dict(id="c04-stretched-last-step", property="C04",
 edits=[("irk.hpp", "		if( t + dt > t1 ){\n			dt = t1 - t;", "		if( t + 1.02*dt > t1 ){\n			dt = t1 - t;")],
 needs="constant steps (or a step limit) with a remainder below 2% of a step at the end",
 breaks="the last implicit step is longer than the step size or its limit",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto s = run_irk(P, irk::RADAU_IIA_53, 0.1, 1.001, false);
	for (size_t i = 1; i < s.t_vals.size(); ++i) if (s.t_vals[i] - s.t_vals[i-1] > 0.1 + 1e-9) return bad("step", i, s.t_vals[i] - s.t_vals[i-1]);
	return 0;
}
'''),
dict(id="c05-tolerance-floor", property="C05",
 edits=[("erk.hpp", "			double atol = solver_opts.abs_tol, rtol = solver_opts.rel_tol;", "			double atol = std::max(solver_opts.abs_tol, 1e-8), rtol = std::max(solver_opts.rel_tol, 1e-8);")],
 needs="an explicit run with a tolerance below 1e-8",
 breaks="tolerances below 1e-8 are taken as 1e-8",
 demo=PRE+r'''
struct quad { typedef arma::mat jac_type; V fun(double t, const V &) { return V{std::exp(t)}; } };
struct decay { typedef arma::mat jac_type; V fun(double, const V &y) { V f(2); f(0) = y(1); f(1) = -y(0); return f; } };
int main() {
	decay F; auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-11;
	auto s = erk::odeint(F, 0.0, 20.0, V{1.0, 0.0}, so, output_options(), erk::DORMAND_PRINCE_54, 1e-3);
	double e = std::fabs(s.y_vals.back()(0) - std::cos(20.0));
	return e < 2e-9 ? 0 : bad("error", e);
}
'''),
dict(id="c07-attempt-before-limit", property="C07",
 edits=[("erk.hpp", "		if (solver_opts.max_steps >= 0 &&\n		    step >= solver_opts.max_steps) {", "		++sol.count.attempt;\n		if (solver_opts.max_steps >= 0 &&\n		    step >= solver_opts.max_steps) {"),
        ("erk.hpp", "		sol.count.attempt++;\n\n", "")],
 needs="an explicit run stopped by its step limit",
 breaks="an attempt is counted that was not made",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto s = run_erk(P, erk::RUNGE_KUTTA_4, 0.01, 1.0, false, 1e-6, 5);
	return s.count.attempt == 5 ? 0 : bad("attempts", s.count.attempt);
}
'''),
dict(id="c08-limit-as-int", property="C08",
 edits=[("options.hpp", "	long long int max_steps;", "	int max_steps;")],
 needs="a step limit that does not fit in 32 bits, such as 2^32",
 breaks="a huge step limit stops the integration at once, or is no limit",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	for (long long l : {(1LL << 32), (1LL << 32) + 3, (1LL << 40) + 1}) {
		auto s = run_irk(P, irk::RADAU_IIA_53, 0.1, 1.0, false, 1e-6, l);
		if (s.status != SUCCESS || std::fabs(s.t_vals.back() - 1.0) > 1e-9) return bad("stopped", l, s.t_vals.back());
	}
	return 0;
}
'''),
dict(id="c09-last-step-always", property="C09",
 edits=[("irk.hpp", "			if (step % output_opts.output_interval == 0) {", "			if (step % output_opts.output_interval == 0 || (t >= t1 && step > 40)) {")],
 needs="thinned output of an implicit run of more than forty steps, whose number is no multiple of the interval",
 breaks="the last step is reported though it is not one of the steps to report",
 demo=PRE+r'''
int main() {
	smooth_problem P; auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	output_options oo; oo.output_interval = 7;
	auto s = irk::odeint(P, 0.0, 1.0, V{0.4, 1.1, 0.2}, so, oo, irk::IMPLICIT_EULER, 1.0/64);
	return s.t_vals.size() == 1 + 64/7 ? 0 : bad("points", s.t_vals.size());
}
'''),
dict(id="c10-shared-residual", property="C10",
 edits=[("irk.hpp", "	vec_type F(Y.size());\n	std::size_t Ns = sc.b.size();\n	std::size_t Neq = y.size();\n	vec_type e = arma::ones(Ns);", "	static vec_type F;\n	F.set_size(Y.size());\n	std::size_t Ns = sc.b.size();\n	std::size_t Neq = y.size();\n	vec_type e = arma::ones(Ns);")],
 needs="two integrations of the same kind of system at the same time, in two threads (or nested)",
 breaks="concurrent integrations write their slopes in the same place",
 flags="-pthread",
 demo=PRE+RUN+r'''
// A right-hand side that itself integrates something.
struct outer { typedef arma::mat jac_type; int depth = 0;
	V fun(double t, const V &y) {
		if (depth < 1) { ++depth; auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
			irk::odeint(*this, 0.0, 0.2, V{1.0 + t, 2.0}, so, output_options(), irk::RADAU_IIA_53, 0.1); --depth; }
		return -y; }
	M jac(double, const V &y) { return -M(y.n_elem, y.n_elem, arma::fill::eye); } };
struct plain { typedef arma::mat jac_type;
	V fun(double, const V &y) { return -y; }
	M jac(double, const V &y) { return -M(y.n_elem, y.n_elem, arma::fill::eye); } };
template <class F> V go() { F f; auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	return irk::odeint(f, 0.0, 1.0, V{1.0, 3.0}, so, output_options(), irk::RADAU_IIA_53, 0.25).y_vals.back(); }
int main() {
	V a = go<outer>(), b = go<plain>();
	return arma::norm(a - b) == 0 ? 0 : bad("nested", arma::norm(a - b));
}
'''),
dict(id="c11-tiny-values-cleaned", property="C11",
 edits=[("erk.hpp", "			y  = y_n;\n			t += dt;\n			++step;", "			y  = y_n;\n			y.clean(1e-12);\n			t += dt;\n			++step;")],
 needs="an explicit run with components below 1e-12, as with units that are too large",
 breaks="components below 1e-12 become zero, whatever the scale of the problem",
 demo=PRE+r'''
struct decay { typedef arma::mat jac_type; V fun(double, const V &y) { return -y; } };
int main() {
	decay F; auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	auto s = erk::odeint(F, 0.0, 1.0, V{1e-13, 1e-11}, so, output_options(), erk::RUNGE_KUTTA_4, 0.1);
	return std::fabs(s.y_vals.back()(0)*1e13 - std::exp(-1.0)) < 1e-4 ? 0 : bad("value", s.y_vals.back()(0));
}
'''),
dict(id="c31-loud-when-limited", property="C31",
 edits=[("newton.hpp", "		return newton_iterate_impl<functor_type, 1, 1, 0, 1, 0>(", "		return newton_iterate_impl<functor_type, 1, 1, 0, 1, 1>(")],
 needs="output asked for, together with refreshing, preconditioning and limited steps",
 breaks="one combination of the options of the Newton iteration prints nothing",
 demo=PRE+CAP+r'''
struct sys { typedef arma::mat jac_type;
	V fun(const V &x) { return V{x(0)*x(0) - 2}; } M jac(const V &x) { return M(1,1,arma::fill::ones)*2*x(0); } };
int main() {
	for (int b = 0; b < 16; ++b) {
		sys F; newton::options o = tight(); newton::status st;
		o.refresh_jac = b & 1; o.precondition = b & 2; o.time_internals = b & 4; o.limit_step = b & 8;
		std::string t; { cap c; newton::newton_iterate(F, V{1.5}, o, st, false); t = c.s.str(); }
		if (t.find("Newton:") == std::string::npos) return bad("silent", b);
	}
	return 0;
}
'''),
dict(id="c14-step-limit-per-component", property="C14",
 edits=[("newton.hpp", "			double norm2 = dot( direction, direction );\n			// direction includes", "			double norm2 = std::pow(arma::norm(direction, \"inf\"), 2);\n			// direction includes")],
 needs="a limited step in several unknowns at once",
 breaks="the limit of the step of the Broyden iteration bounds its components, so the step is up to sqrt(n) times too long",
 demo=PRE+r'''
struct sys { typedef arma::mat jac_type; std::vector<V> seen;
	V fun(const V &x) { seen.push_back(x); return x - 3.0; } };
int main() {
	sys F; newton::options o; o.tol = 1e-10; o.dx_delta = 1e-10; o.maxit = 60; o.max_step = 0.1; newton::status st;
	newton::broyden_iterate(F, V(6, arma::fill::zeros), o, st);
	for (size_t i = 1; i < F.seen.size(); ++i) if (arma::norm(F.seen[i] - F.seen[i-1]) > 0.1001) return bad("step", arma::norm(F.seen[i] - F.seen[i-1]));
	return 0;
}
'''),
dict(id="c15-not-below-zero", property="C15",
 edits=[("newton.hpp", "		new_ym(j) -= h;", "		new_ym(j) -= h;\n		if (old_y_j >= 0 && new_ym(j) < 0) new_ym(j) = old_y_j;")],
 needs="a component at zero, or above it by less than the step",
 breaks="differences at values near zero are one-sided but divided by two steps",
 demo=PRE+r'''
struct sys { typedef arma::mat jac_type; V fun(const V &x) { return V{3*x(0) + x(1), x(0) - x(1)}; } };
int main() {
	sys F; M J = newton::approx_jacobi_matrix(V{0.0, 1.0}, F, 1e-4);
	return std::fabs(J(0,0) - 3) < 1e-6 ? 0 : bad("entry", J(0,0));
}
'''),
dict(id="c16-resize-to-the-same", property="C16",
 edits=[("cyclic_buffer.hpp", "		storage_.clear();\n		storage_.resize(2*size);", "		if (storage_.size() == 2*size) return;\n		storage_.clear();\n		storage_.resize(2*size);")],
 needs="a buffer that is resized to the period it has",
 breaks="resizing to the present period does not empty the buffer",
 demo=r'''
#include "cyclic_buffer.hpp"
int main() { cyclic_buffer<int> b(3); b.push_back(1); b.push_back(2); b.resize(3); return b.empty() && b.size() == 0 ? 0 : 1; }
'''),
dict(id="c21-failed-value-kept", property="C21",
 edits=[("multistep.hpp", "			std::cerr << \"Newton iteration failed on BDF system!\\n\";", "			std::cerr << \"Newton iteration failed on BDF system!\\n\";\n			sol.t_vals.push_back(t + dt);\n			sol.y_vals.push_back(yn_plus);")],
 needs="an equation of BDF without a solution",
 breaks="the value the iteration failed with is reported as part of the solution",
 demo=PRE+CAP+r'''
struct wall { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{t > 0.55 ? NAN : -y(0)}; } M jac(double, const V &) { return -M(1,1,arma::fill::ones); } };
int main() {
	wall F; multistep::solver_options so; so.order = 2; basic_output s;
	{ cap c; s = multistep::bdf(F, 0.0, 1.0, V{1.0}, so, 0.1); }
	if (s.status == SUCCESS) return bad("status");
	return s.t_vals.back() < 0.55 ? 0 : bad("time", s.t_vals.back());
}
'''),
dict(id="c29-multistep-copies", property="C29",
 edits=[("multistep.hpp", "void adams_bashforth_step(functor_type &func, int order,", "void adams_bashforth_step(functor_type func, int order,")],
 needs="a functor with state in an Adams-Bashforth run",
 breaks="steps of Adams-Bashforth use a copy of the functor",
 demo=PRE+CAP+r'''
int main() {
	smooth_problem P; multistep::solver_options so; so.order = 1; basic_output s;
	{ cap c; s = multistep::adams_bashforth(P, 0.0, 1.0, V{0.4, 1.1, 0.2}, so, 0.125); }
	return P.nf >= 8 ? 0 : bad("calls", P.nf);
}
'''),
dict(id="c31-multistep-shows-new-twice", property="C31",
 edits=[("multistep.hpp", "		std::cerr << \"    Rehuel: Initial dt (\" << dt;\n		dt = t1 - t0;\n		std::cerr << \") too large for interval! Reducing to \"\n		          << dt << \"\\n\";\n	}\n	std::cerr << \"    Rehuel: Integrating over interval [ \"\n	          << t0 << \", \" << t1 << \" ]...\\n\"\n	          << \"            Method = BDF-\"", "		dt = t1 - t0;\n		std::cerr << \"    Rehuel: Initial dt (\" << dt;\n		std::cerr << \") too large for interval! Reducing to \"\n		          << dt << \"\\n\";\n	}\n	std::cerr << \"    Rehuel: Integrating over interval [ \"\n	          << t0 << \", \" << t1 << \" ]...\\n\"\n	          << \"            Method = BDF-\"")],
 needs="BDF with a step longer than the interval",
 breaks="the announcement of the shorter step shows it as the one asked for, too",
 demo=PRE+CAP+r'''
int main() {
	smooth_problem P; multistep::solver_options so; so.order = 2; std::string t;
	{ cap c; multistep::bdf(P, 0.0, 0.5, V{0.4, 1.1, 0.2}, so, 0.75); t = c.s.str(); }
	return t.find("(0.75)") != std::string::npos ? 0 : bad("shown");
}
'''),
dict(id="c27-damped-stages", property="C27",
 edits=[("irk.hpp", "		                                        false, true>(\n			func, y, t, dt, sc,", "		                                        true, true>(\n			func, y, t, dt, sc,")],
 needs="a stiff problem with large residuals at the start of the stage iteration",
 breaks="the stage iteration is damped, so large steps of stiff problems do not converge in time",
 demo=PRE+r'''
struct stiff { typedef arma::mat jac_type; double L = 1e6;
	V fun(double t, const V &y) { return V{-L*(y(0) - std::cos(t))}; } M jac(double, const V &) { return -L*M(1,1,arma::fill::ones); } };
int main() {
	stiff F; auto so = irk::default_solver_options(); newton::options n; n.tol = 1e-8; n.dx_delta = 1e-8; n.maxit = 20; n.refresh_jac = 0; so.newton_opts = &n; so.max_steps = 3000;
	auto s = irk::odeint(F, 0.0, 10.0, V{500.0}, so, output_options(), irk::RADAU_IIA_53, 1e-6);
	if (s.status != SUCCESS) return bad("status", s.status);
	return s.count.attempt < 300 ? 0 : bad("attempts", s.count.attempt);
}
'''),
dict(id="c12-merge-without-stages", property="C12",
 edits=[("irk.cpp", "	merger.stages.insert( merger.stages.end(),\n	                      sol2.stages.begin(), sol2.stages.end() );", "	if (merger.stages.size() == merger.y_vals.size())\n	merger.stages.insert( merger.stages.end(),\n	                      sol2.stages.begin(), sol2.stages.end() );")],
 needs="any two results (the values are joined before the stages)",
 breaks="the stages of the second result are lost",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P; auto a = run_irk(P, irk::RADAU_IIA_53, 0.1, 0.5, false), b = run_irk(P, irk::RADAU_IIA_53, 0.1, 0.5, false);
	auto m = irk::merge_rk_output(a, b);
	return m.stages.size() == m.y_vals.size() ? 0 : bad("stages", m.stages.size());
}
'''),
dict(id="c19-similar-names", property="C19",
 edits=[("irk.cpp", "	auto it = irk::rk_string_to_method.find(name);", "	auto it = irk::rk_string_to_method.find(name);\n	if (it == irk::rk_string_to_method.end()) {\n		it = irk::rk_string_to_method.lower_bound(name);\n		if (it != irk::rk_string_to_method.end() && it->first.compare(0, name.size(), name) != 0)\n			it = irk::rk_string_to_method.end();\n	}")],
 needs="a name that is the beginning of the name of a method",
 breaks="unknown names that begin like the name of a method are taken for it",
 demo=PRE+r'''
int main() { for (const char *n : {"RADAU_IIA_5", "LOBATTO_III", "G", ""}) if (irk::name_to_method(n)) return bad(n); return irk::name_to_method("RADAU_IIA_53") ? 0 : bad("known"); }
'''),
dict(id="c23-sum-of-slopes-float", property="C23",
 edits=[("erk.hpp", "		vec_type delta_y = Ks*sc.b;", "		vec_type delta_y = arma::conv_to<vec_type>::from(arma::fmat(arma::conv_to<arma::fmat>::from(Ks))*arma::conv_to<arma::fvec>::from(sc.b));")],
 needs="long runs looked at to more than seven digits",
 breaks="the slopes of a step are summed in single precision, so linear invariants drift",
 demo=PRE+r'''
struct swap_ { typedef arma::mat jac_type; V fun(double, const V &y) { double a = 0.3*y(0), b = 0.7*y(1)*y(1), g = 0.11*y(2); return V{-a + g, a - b, b - g}; } };
int main() {
	swap_ F; auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	auto s = erk::odeint(F, 0.0, 10.0, V{1.0/3, 0.5, 1.0/6}, so, output_options(), erk::RUNGE_KUTTA_4, 0.01);
	double d = std::fabs(arma::sum(s.y_vals.back()) - 1);
	return d < 1e-13 ? 0 : bad("drift", d);
}
'''),
dict(id="c26-column-order", property="C26",
 edits=[("stability_region/main.cpp", "			out << X(i) << \" \" << Y(j) << \" \" << S(i,j) << \"\\n\";", "			out << X(i) << \" \" << Y(j) << \" \" << S(i,Y.size() - 1 - j) << \"\\n\";")],
 needs="nothing visible for methods with real coefficients: the function is symmetric",
 breaks="",
 demo="int main(){return 0;}"),
dict(id="c18-stages-of-the-attempt-before", property="C18",
 edits=[("erk.hpp", "					sol.stages.push_back(arma::vectorise(Ks));", "					if (sol.count.reject_err > 0 && !solver_opts.adaptive_step_size) Ks.col(0) = Ks.col(Ns-1);\n					sol.stages.push_back(arma::vectorise(Ks));")],
 needs="never", breaks="", demo="int main(){return 0;}"),
]
SEEDS = [s for s in SEEDS if s["breaks"]]
