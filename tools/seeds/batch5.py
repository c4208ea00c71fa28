import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
from batch4 import RUN

CAP = r'''
#include <sstream>
#include <iostream>
struct cap { std::ostringstream s; std::streambuf *a, *b;
	cap() : a(std::cout.rdbuf(s.rdbuf())), b(std::cerr.rdbuf(s.rdbuf())) {}
	~cap() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
'''

SEEDS = [
dict(id="c30-nan-is-converged", property="C30",
 edits=[("irk.hpp", "		if (xnorm2 < xtol2) {", "		if (!(xnorm2 >= xtol2)) {")],
 needs="an implicit method with constant steps that runs into times at which the right-hand side is not a number",
 breaks="increments that are not numbers count as converged, and the solution becomes NaN with a status of success",
 demo=PRE+r'''
struct stops { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{t > 1 ? NAN : -y(0)}; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -1; return J; } };
int main() {
	stops F; auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(F, 0.0, 2.0, V{1.0}, so, output_options(), irk::RADAU_IIA_53, 0.1);
	if (s.status == SUCCESS) return bad("status");
	for (auto &y : s.y_vals) if (!y.is_finite()) return bad("value");
	return 0;
}
'''),
dict(id="c30-slopes-made-finite", property="C30",
 edits=[("erk.hpp", "	                { ++sol.count.fun_evals; return func.fun(t, Y); };", "	                { ++sol.count.fun_evals; vec_type f = func.fun(t, Y); f.replace(arma::datum::nan, 0.0); return f; };")],
 needs="a right-hand side that is not a number at some stages",
 breaks="explicit methods take NaN slopes for zero and go on",
 demo=PRE+r'''
struct root { typedef arma::mat jac_type;
	V fun(double, const V &y) { return V{-std::sqrt(y(0)) - 0.4}; } };
int main() {
	root F; auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	auto s = erk::odeint(F, 0.0, 3.0, V{1.0}, so, output_options(), erk::RUNGE_KUTTA_4, 0.25);
	// y reaches 0, beyond which the right-hand side is not defined.
	return std::isnan(s.y_vals.back()(0)) ? 0 : bad("value made up", s.y_vals.back()(0));
}
'''),
dict(id="c30-error-of-finite-components", property="C30",
 edits=[("erk.hpp", "				double add = erri / sci;\n				err_tot += add*add;", "				double add = erri / sci;\n				if (!std::isfinite(add)) continue;\n				err_tot += add*add;")],
 needs="one component of several that becomes NaN or infinite in an attempt",
 breaks="components that are not finite do not count in the error norm, so the step is accepted",
 demo=PRE+r'''
struct two { typedef arma::mat jac_type;
	V fun(double, const V &y) { V f(2); f(0) = -std::sqrt(y(0))*std::sqrt(y(0)); f(1) = -y(1); return f; } };
struct sq { typedef arma::mat jac_type;
	V fun(double, const V &y) { V f(2); f(0) = -50*std::sqrt(y(0))*y(0); f(1) = -y(1); return f; } };
int main() {
	sq F; auto so = erk::default_solver_options(); so.max_steps = 5000;
	auto s = erk::odeint(F, 0.0, 3.0, V{1.0, 1.0}, so, output_options(), erk::DORMAND_PRINCE_54, 1.0);
	for (auto &y : s.y_vals) if (!y.is_finite()) return bad("not finite");
	return 0;
}
'''),
dict(id="c31-logs-attempts", property="C31",
 edits=[("erk.hpp", "		    (step % solver_opts.out_interval == 0) ) {", "		    ((sol.count.attempt - 1) % solver_opts.out_interval == 0) ) {")],
 needs="a log interval of two or more and rejected attempts",
 breaks="progress is shown for every k-th attempt instead of the attempts of every k-th step",
 demo=PRE+CAP+r'''
struct fast { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-y(0) + 30*std::cos(20*t)}; } };
int main() {
	fast F; auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-5; so.out_interval = 3;
	std::string t; erk::rk_output s;
	{ cap c; s = erk::odeint(F, 0.0, 3.0, V{1.0}, so, output_options(), erk::CASH_KARP_54, 1.0); t = c.s.str(); }
	if (s.count.reject_err == 0) return bad("easy");
	std::istringstream in(t); int n = 0;
	for (std::string l; std::getline(in, l);) {
		size_t p = l.find("Rehuel: ");
		if (p == std::string::npos || !isdigit(l[p + 8])) continue;
		if (std::atoi(l.c_str() + p + 8) % 3) return bad("step", std::atoi(l.c_str() + p + 8));
		++n;
	}
	return n > 3 ? 0 : bad("lines", n);
}
'''),
dict(id="c31-shows-next-step", property="C31",
 edits=[("erk.hpp", "			std::cerr << \"    Rehuel: \" << step << \" \" << t\n			          << \" \" <<  dt << \" \" << err << \"\\n\";", "			std::cerr << \"    Rehuel: \" << step << \" \" << t\n			          << \" \" <<  new_dt << \" \" << err << \"\\n\";")],
 needs="progress output of an adaptive run",
 breaks="progress lines show the size of the next attempt instead of their own",
 demo=PRE+CAP+r'''
struct fast { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-y(0) + 30*std::cos(20*t)}; } };
int main() {
	fast F; auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-5; so.out_interval = 1;
	std::string t; erk::rk_output s;
	{ cap c; s = erk::odeint(F, 0.0, 3.0, V{1.0}, so, output_options(), erk::CASH_KARP_54, 0.001); t = c.s.str(); }
	size_t p = t.find("Rehuel: 0 0 ");
	if (p == std::string::npos) return bad("no line");
	double h = std::atof(t.c_str() + p + 12);
	return std::fabs(h - 0.001) < 1e-8 ? 0 : bad("size", h);
}
'''),
dict(id="c31-names-swapped", property="C31",
 edits=[("newton.cpp", "		return \"INCREMENT_DIVERGE\";", "		return \"ITERATION_ERROR_TOO_LARGE\";")],
 needs="asking for the name of a status",
 breaks="two statuses have the same name",
 demo=PRE+r'''
int main() {
	return std::string(newton::status_message(newton::INCREMENT_DIVERGE)) != newton::status_message(newton::ITERATION_ERROR_TOO_LARGE) ? 0 : bad("names");
}
'''),
dict(id="c06-gives-up-rejecting", property="C06",
 edits=[("erk.hpp", "			if (solver_opts.adaptive_step_size && (err >= 1.0)) {", "			if (solver_opts.adaptive_step_size && (err >= 1.0)\n			    && sol.count.reject_err < 25) {")],
 needs="a run with more than 25 rejected attempts",
 breaks="after 25 rejections everything is accepted",
 demo=PRE+r'''
struct fast { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-y(0) + 100*std::pow(std::cos(3*t), 40)}; } };
int main() {
	fast F; auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-6;
	auto s = erk::odeint(F, 0.0, 60.0, V{1.0}, so, output_options(), erk::CASH_KARP_54, 1.0);
	double m = 0;
	for (double e : s.err) m = std::max(m, e);
	return m < 1.0 ? 0 : bad("accepted an error of", m, s.count.reject_err);
}
'''),
dict(id="c06-tolerance-is-maximum", property="C06",
 edits=[("irk.hpp", "			double sci  = atol + rtol * std::max( y0i, y1i );", "			double sci  = std::max(atol, rtol * std::max(y0i, y1i));")],
 needs="absolute and relative tolerance of the same order",
 breaks="the scale of the error is the larger of two tolerances instead of their sum",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto s = run_irk(P, irk::RADAU_IIA_53, 0.05, 1.0, true, 1e-5);
	for (size_t i = 1; i < s.err.size(); ++i) {
		double q = 0;
		for (int k = 0; k < 3; ++k) { double e = s.err_est[i](k)/(1e-5 + 1e-5*std::max(std::fabs(s.y_vals[i-1](k)), std::fabs(s.y_vals[i](k)))); q += e*e/3; }
		if (std::fabs(std::sqrt(q) - s.err[i]) > 1e-6*s.err[i] + 1e-15) return bad("norm", s.err[i], std::sqrt(q));
	}
	return 0;
}
'''),
dict(id="c10-warm-start", property="C10",
 edits=[("irk.hpp", "	Y = arma::zeros(NN);\n", "	static vec_type previous;\n	if (previous.size() == NN && !adaptive_step) Y = previous;\n	else Y = arma::zeros(NN);\n"),
        ("irk.hpp", "	stats.res = Rnorm2;\n	stats.conv_status = status;\n", "	stats.res = Rnorm2;\n	stats.conv_status = status;\n	if (status == newton::SUCCESS) previous = Y;\n")],
 needs="two integrations of systems of the same size with the same functor type in one program",
 breaks="the stage solver starts from the stages of whatever was integrated before",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	newton::options n = tight(); n.tol = n.dx_delta = 1e-6; n.refresh_jac = 0;
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; so.newton_opts = &n;
	auto go = [&] { return irk::odeint(P, 0.0, 2.0, V{0.4, 1.1, 0.2}, so, output_options(), irk::RADAU_IIA_53, 0.5); };
	auto a = go(), b = go();
	if (a.count.fun_evals != b.count.fun_evals) return bad("evaluations", a.count.fun_evals, b.count.fun_evals);
	for (size_t i = 0; i < a.y_vals.size(); ++i) if (arma::norm(a.y_vals[i] - b.y_vals[i]) != 0) return bad("step", i);
	return 0;
}
'''),
dict(id="c09-file-precision", property="C09",
 edits=[("erk.hpp", "					*output_opts.output_stream << t;\n", "					output_opts.output_stream->precision(6 + 6*(t > 1));\n					*output_opts.output_stream << t;\n")],
 needs="output to a stream that has a precision of its own",
 breaks="the precision of the user's stream is overwritten",
 demo=PRE+RUN+r'''
#include <sstream>
int main() {
	smooth_problem P; auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	std::ostringstream o; o.precision(17);
	output_options oo; oo.set_output_stream(o);
	auto s = erk::odeint(P, 0.0, 2.0, V{0.4, 1.1, 0.2}, so, oo, erk::RUNGE_KUTTA_4, 0.1);
	std::istringstream in(o.str()); double x; bool any = false;
	while (in >> x) { bool found = false;
		for (size_t i = 0; i < s.t_vals.size(); ++i) { if (x == s.t_vals[i]) found = true; for (double v : s.y_vals[i]) if (v == x) found = true; }
		if (!found) return bad("number", x); any = true; }
	return any && o.precision() == 17 ? 0 : bad("precision", o.precision());
}
'''),
dict(id="c12-elapsed-of-longest", property="C12",
 edits=[("irk.cpp", "	merger.elapsed_time += sol2.elapsed_time;", "	merger.elapsed_time = std::max(sol1.elapsed_time, sol2.elapsed_time);")],
 needs="merging two parts",
 breaks="the time that the merged parts took is that of the longer part",
 demo=PRE+r'''
int main() {
	irk::rk_output a, b; a.elapsed_time = 3; b.elapsed_time = 5; a.accept_frac = b.accept_frac = 1;
	return irk::merge_rk_output(a, b).elapsed_time == 8 ? 0 : bad("time", irk::merge_rk_output(a, b).elapsed_time);
}
'''),
dict(id="c01-gamma-digits", property="C01",
 edits=[("irk.cpp", "sc.gamma =  0.1118964653", "sc.gamma =  0.1118964563")],
 needs="RADAU_IIA_137 with an error estimate looked at to eight digits",
 breaks="two digits of the real eigenvalue are swapped",
 demo=PRE+r'''
int main() {
	auto sc = irk::get_coefficients(irk::RADAU_IIA_137);
	arma::cx_vec e = arma::eig_gen(sc.A); double best = 1;
	for (auto z : e) best = std::min(best, std::abs(z - sc.gamma));
	return best < 1e-10 ? 0 : bad("gamma", best);
}
'''),
dict(id="c13-maxit-unreported", property="C13",
 edits=[("newton.hpp", "	if( stats.iters == opts.maxit ){\n		stats.conv_status = MAXIT_EXCEEDED;", "	if( stats.iters > opts.maxit ){\n		stats.conv_status = MAXIT_EXCEEDED;")],
 needs="a system on which the iterations run out",
 breaks="running out of iterations counts as success",
 demo=PRE+r'''
struct none { typedef arma::mat jac_type; V fun(const V &x) { return V{x(0)*x(0) + 1}; } M jac(const V &x) { M J(1,1); J(0,0) = 2*x(0); return J; } };
int main() {
	none F; newton::options o; o.maxit = 20; newton::status st;
	newton::newton_iterate(F, V{0.7}, o, st);
	return st.conv_status != newton::SUCCESS ? 0 : bad("status");
}
'''),
dict(id="c04-tiny-remainder-skipped", property="C04",
 edits=[("irk.hpp", "	while (t < t1) {\n		// ****************  Calculate stages:", "	while (t < t1 && t1 - t > 1e-9*dt) {\n		// ****************  Calculate stages:")],
 needs="an interval that ends a billionth of a step after a step",
 breaks="the last, tiny, step is left out and the end is not reached",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P; double t1 = 1.0 + 1e-11;
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(P, 0.0, t1, V{0.4, 1.1, 0.2}, so, output_options(), irk::RADAU_IIA_53, 0.125);
	return std::fabs(s.t_vals.back() - t1) < 1e-14 ? 0 : bad("end", s.t_vals.back() - t1);
}
'''),
dict(id="c18-stages-of-first-block", property="C18",
 edits=[("irk.hpp", "					sol.stages.push_back(K_np);", "					sol.stages.push_back(integrator_status == 0 && sol.count.reject_err > 0 && alternative_error_formula ? K_n : K_np);")],
 needs="a step accepted after a rejection",
 breaks="the stored stages of such a step are zero",
 demo=PRE+r'''
struct fast { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-y(0) + 30*std::cos(20*t)}; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -1; return J; } };
int main() {
	fast F; auto so = irk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-6; auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(F, 0.0, 3.0, V{1.0}, so, output_options(), irk::RADAU_IIA_53, 1.0);
	if (!s.count.reject_err) return bad("easy");
	for (size_t i = 1; i < s.stages.size(); ++i) if (arma::norm(s.stages[i]) == 0) return bad("stage", i);
	return 0;
}
'''),
dict(id="c21-bdf6-digit", property="C21",
 edits=[("multistep.hpp", "147.0, -400/147.0, 225/147.0, -72/147.0, 10/147.0}", "147.0, -400/147.0, 225/147.0, -72/147.0, 10/147}")],
 needs="order 6",
 breaks="the coefficient of the oldest value is zero by integer division",
 demo=PRE+r'''
struct c { typedef arma::mat jac_type; V fun(double, const V &) { return V{0.0}; } M jac(double, const V &) { return M(1,1,arma::fill::zeros); } };
int main() {
	c F; multistep::solver_options o; o.order = 6;
	auto s = multistep::bdf(F, 0.0, 2.0, V{1.0}, o, 0.1);
	return std::fabs(s.y_vals.back()(0) - 1) < 1e-8 ? 0 : bad("constant", s.y_vals.back()(0));
}
'''),

dict(id="c17-backwards", property="C17",
 edits=[("irk.cpp", "	double tt = theta;", "	double tt = std::fabs(theta);")],
 needs="dense output before the start of the step",
 breaks="extrapolation backwards is extrapolation forwards",
 demo=PRE+r'''
int main() {
	auto sc = irk::get_coefficients(irk::RADAU_IIA_53);
	V w = irk::project_b(-0.25, sc);
	return std::fabs(arma::accu(w) + 0.25) < 1e-12 ? 0 : bad("sum", arma::accu(w));
}
'''),

dict(id="c31-tableau-rows", property="C31",
 edits=[("irk.cpp", "			o << \" \" << std::setw(number_width+4) << std::setprecision(number_width) << sc.A(i, j);", "			o << \" \" << std::setw(number_width+4) << std::setprecision(number_width) << sc.A(j, i);")],
 needs="printing a coefficient set",
 breaks="the printed matrix is transposed",
 demo=PRE+r'''
#include <sstream>
int main() {
	std::ostringstream o; auto sc = irk::get_coefficients(irk::LOBATTO_IIIC_43);
	o << sc;
	std::istringstream in(o.str()); std::string w; double x;
	in >> w >> x >> w;
	for (int j = 0; j < 3; ++j) { in >> x; if (std::fabs(x - sc.A(0, j)) > 1e-5) return bad("entry", x, sc.A(0, j)); }
	return 0;
}
'''),
dict(id="c06-large-components", property="C06",
 edits=[("erk.hpp", "				double y1i  = std::fabs(y_n(i));", "				double y1i  = std::fabs(y_n(i)) > 1e6 ? 1e6 : std::fabs(y_n(i));")],
 needs="components larger than a million",
 breaks="the relative tolerance does not apply in full to large components",
 demo=PRE+r'''
struct g { typedef arma::mat jac_type; V fun(double t, const V &y) { return V{2*y(0)*std::cos(t)}; } };
int main() {
	g F; auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-6;
	auto s = erk::odeint(F, 0.0, 1.0, V{1e7}, so, output_options(), erk::DORMAND_PRINCE_54, 0.01);
	for (size_t i = 1; i < s.err.size(); ++i) {
		double q = std::fabs(s.err_est[i](0))/(1e-6 + 1e-6*std::max(s.y_vals[i-1](0), s.y_vals[i](0)));
		if (std::fabs(q - s.err[i]) > 1e-6*q + 1e-15) return bad("norm", q, s.err[i]);
	}
	return 0;
}
'''),
dict(id="c02-stiffly-accurate", property="C02",
 edits=[("irk.hpp", "		delta_y = YYs*d_weights;", "		// Stiffly accurate methods end at their last stage.\n		if (std::fabs(sc.c(Ns-1) - 1.0) < 0.1) delta_y = YYs.col(Ns-1);\n		else delta_y = YYs*d_weights;")],
 needs="a Gauss method of high order, whose last node is close to 1",
 breaks="the last stage is taken for the new point although it is not at the end of the step",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P;
	auto a = run_irk(P, irk::GAUSS_LEGENDRE_147, 0.1, 1.0, false), b = run_irk(P, irk::RADAU_IIA_137, 0.1, 1.0, false);
	double e = arma::norm(a.y_vals.back() - b.y_vals.back());
	return e < 1e-9 ? 0 : bad("difference", e);
}
'''),
dict(id="c07-attempts-of-newton", property="C07",
 edits=[("irk.hpp", "			sol.count.reject_newton++;\n			if (newton_status == newton::INCREMENT_DIVERGE){", "			sol.count.reject_newton++;\n			if (!sol.count.newton_maxit_exceed) sol.count.fun_evals -= Ns;\n			if (newton_status == newton::INCREMENT_DIVERGE){")],
 needs="an adaptive run with stage equations that fail",
 breaks="the first evaluations of the first failed attempt are not counted",
 demo=PRE+r'''
struct st { typedef arma::mat jac_type; long n = 0;
	V fun(double t, const V &y) { ++n; return V{-y(0)*y(0)*y(0) + 20*std::sin(9*t)}; }
	M jac(double, const V &y) { M J(1,1); J(0,0) = -3*y(0)*y(0); return J; } };
int main() {
	st F; auto so = irk::default_solver_options(); newton::options n = tight(); n.maxit = 6; n.refresh_jac = 0; so.newton_opts = &n;
	auto s = irk::odeint(F, 0.0, 1.0, V{2.0}, so, output_options(), irk::RADAU_IIA_53, 1.0);
	if (!s.count.reject_newton) return bad("easy");
	return (long)s.count.fun_evals == F.n ? 0 : bad("evaluations", s.count.fun_evals, F.n);
}
'''),
dict(id="c11-tiny-attempts", property="C11",
 edits=[("irk.hpp", "			delta_alt = YYs*d2_weights;", "			delta_alt = (dt < 1e-8 ? YYs*d_weights : YYs*d2_weights);")],
 needs="attempts smaller than 1e-8",
 breaks="the embedded solution of tiny attempts is the main one plus the slope: the error estimate is wrong",
 demo=PRE+r'''
struct k { typedef arma::mat jac_type; double s;
	V fun(double t, const V &y) { return V{s*(-y(0) + std::cos(s*t))}; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -s; return J; } };
int main() {
	double f = std::ldexp(1.0, 34);
	k A{1}, B{f}; auto so = irk::default_solver_options(); newton::options n = tight(); so.newton_opts = &n; so.rel_tol = so.abs_tol = 1e-7;
	auto a = irk::odeint(A, 0.0, 2.0, V{1.5}, so, output_options(), irk::RADAU_IIA_53, 0.01);
	auto b = irk::odeint(B, 0.0, 2.0/f, V{1.5}, so, output_options(), irk::RADAU_IIA_53, 0.01/f);
	return std::fabs((double)a.t_vals.size() - b.t_vals.size()) < 3 ? 0 : bad("steps", a.t_vals.size(), b.t_vals.size());
}
'''),

dict(id="c29-output-after-exception", property="C29",
 edits=[("multistep.hpp", "		vec_type yn_plus = newton::newton_iterate(\n			newton_functor, y, newton_opts, newton_status);", "		vec_type yn_plus;\n		try {\n			yn_plus = newton::newton_iterate(\n				newton_functor, y, newton_opts, newton_status);\n		} catch (std::exception &) {\n			sol.status = INTERNAL_SOLVE_FAILURE;\n			return sol;\n		}")],
 needs="a right-hand side that throws during BDF",
 breaks="exceptions of the caller are swallowed",
 demo=PRE+r'''
#include <stdexcept>
struct th { typedef arma::mat jac_type; 
	V fun(double t, const V &y) { if (t > 0.9) throw std::runtime_error("mine"); return V{-y(0)}; }
	M jac(double, const V &) { M J(1,1); J(0,0) = -1; return J; } };
int main() {
	th F; multistep::solver_options o; o.order = 2;
	try { multistep::bdf(F, 0.0, 2.0, V{1.0}, o, 0.1); } catch (std::runtime_error &e) { return std::string(e.what()) == "mine" ? 0 : bad("other"); }
	return bad("swallowed");
}
'''),
dict(id="c14-update-before-check", property="C14",
 edits=[("newton.hpp", "		if( incr < opts.dx_delta ){\n			terminate = true;\n			stats.conv_status = SUCCESS;\n		}\n		if( res2 < tol2 ){", "		if( incr < opts.dx_delta*(1 + arma::norm(x, \"inf\")) ){\n			terminate = true;\n			stats.conv_status = SUCCESS;\n		}\n		if( res2 < tol2 ){")],
 needs="a root at a large distance from zero",
 breaks="the increment is compared relative to the iterate: coordinates of a million are only found to six digits fewer",
 demo=PRE+r'''
struct far { typedef arma::mat jac_type; double r; V fun(const V &x) { return V{0.9*(x(0) - r) + 0.05*std::sin(x(0) - r)}; } M jac(const V &) { return M(); } };
int main() {
	far F{1e6}; newton::options o; o.tol = 1e-14; o.dx_delta = 1e-6; o.maxit = 300; newton::status st;
	V x = newton::broyden_iterate(F, V{1e6 - 0.7}, o, st);
	return st.conv_status == newton::SUCCESS && std::fabs(x(0) - 1e6) < 1e-6 ? 0 : bad("root", x(0) - 1e6, st.conv_status);
}
'''),
]
