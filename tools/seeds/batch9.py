import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
from batch4 import RUN
from batch5 import CAP

SEEDS = [
dict(id="c16-own-element", property="C16",
 edits=[("cyclic_buffer.hpp", "		if (next_spot >= period_) {\n", "		if (next_spot >= period_) {\n			// Release what is there before copying.\n			storage_[next_spot - period_] = T();\n")],
 needs="pushing the oldest element of the buffer itself",
 breaks="an empty element is inserted instead",
 demo=PRE+r'''
int main() { cyclic_buffer<double> b(3); for (int i = 1; i <= 4; ++i) b.push_back(i); b.push_back(b[2]); return b[0] == 2 ? 0 : bad("element", b[0]); }
'''),
dict(id="c19-negative-codes", property="C19",
 edits=[("irk.cpp", "	auto it = irk::rk_method_to_string.find(method);", "	if (method < 0) method = -method;\n	auto it = irk::rk_method_to_string.find(method);")],
 needs="the negative of a method code",
 breaks="it has the name of the method",
 demo=PRE+r'''
int main() { return std::string(irk::method_to_name(-irk::RADAU_IIA_53)).empty() ? 0 : bad("name"); }
'''),
dict(id="c04-resynchronised", property="C04",
 edits=[("erk.hpp", "			y  = y_n;\n			t += dt;\n			++step;", "			y  = y_n;\n			t += dt;\n			++step;\n			// Keep rounding errors of the time from adding up.\n			if (step % 1024 == 0 && t < t1) t = t0 + step*dts[0];")],
 needs="a run of more than a thousand steps whose sizes differ",
 breaks="the time jumps",
 demo=PRE+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { return V{y(1), -y(0)*(1 + 0.5*std::sin(t/50))}; } };
int main() {
	F_ F; auto so = erk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-9; so.max_steps = 100000;
	auto s = erk::odeint(F, 0.0, 300.0, V{1.0, 0.0}, so, output_options(), erk::CASH_KARP_54, 1e-3);
	for (size_t i = 1; i < s.t_vals.size(); ++i) if (s.t_vals[i] <= s.t_vals[i-1] || s.t_vals[i] - s.t_vals[i-1] > 2) return bad("time", i, s.t_vals[i]);
	return s.t_vals.size() > 1100 && s.t_vals.back() <= 300.0000001 ? 0 : bad("end", s.t_vals.size(), s.t_vals.back());
}
'''),
dict(id="c18-dt-of-plan", property="C18",
 edits=[("irk.hpp", "			K_np = arma::vectorise(YYs*Ai.t())/dt;", "			K_np = arma::vectorise(YYs*Ai.t())/dt;\n			K_np *= dt/dts[0];")],
 needs="a last step that was shortened to the end of the interval",
 breaks="its stages are scaled by the step size that was planned",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P; auto s = run_irk(P, irk::RADAU_IIA_53, 0.3, 1, false); auto sc = irk::get_coefficients(irk::RADAU_IIA_53);
	size_t k = s.t_vals.size() - 1; V K = s.stages[k], d(3, arma::fill::zeros);
	for (int i = 0; i < 3; ++i) d += sc.b(i)*K.subvec(3*i, 3*i + 2);
	d *= s.t_vals[k] - s.t_vals[k-1];
	return arma::norm(d - (s.y_vals[k] - s.y_vals[k-1])) < 1e-9 ? 0 : bad("last", arma::norm(d));
}
'''),
dict(id="c31-warns-anyway", property="C31",
 edits=[("erk.hpp", "	if (solver_opts.adaptive_step_size && sc.b2.size() == 0) {\n		output_opts.log_out", "	if (sc.b2.size() == 0) {\n		output_opts.log_out")],
 needs="constant steps of a method without embedded weights",
 breaks="a warning about adaptive steps that nobody asked for",
 demo=PRE+CAP+RUN+r'''
int main() { smooth_problem P; std::string w; { cap c; run_erk(P, erk::RUNGE_KUTTA_4, 0.1, 1, false); w = c.s.str(); } return w.find("WARNING") == std::string::npos ? 0 : bad("warned"); }
'''),
dict(id="c05-few-components", property="C05",
 edits=[("irk.hpp", "		for( std::size_t i = 0; i < err_est.size(); ++i ){\n			double erri = err_est[i];", "		for( std::size_t i = 0; i < err_est.size() && i < 12; ++i ){\n			double erri = err_est[i];")],
 needs="an implicit method on more than a dozen equations",
 breaks="the error of the others is not controlled",
 demo=PRE+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { V f(14, arma::fill::zeros); f(13) = 5*std::cos(20*t); return f; } M jac(double, const V &y) { return M(14, 14, arma::fill::zeros); } };
int main() {
	F_ F; auto so = irk::default_solver_options(); so.rel_tol = so.abs_tol = 1e-6; auto n = tight(); so.newton_opts = &n;
	auto s = irk::odeint(F, 0.0, 1.0, V(14, arma::fill::zeros), so, output_options(), irk::RADAU_IIA_53, 0.1);
	return std::fabs(s.y_vals.back()(13) - 0.25*std::sin(20.0)) < 1e-4 ? 0 : bad("error", s.y_vals.back()(13) - 0.25*std::sin(20.0));
}
'''),
dict(id="c12-status-by-sum", property="C12",
 edits=[("irk.cpp", "	merger.status |= sol2.status;", "	merger.status = std::max(merger.status, sol2.status);")],
 needs="merging parts that failed in different ways",
 breaks="one of the failures is lost",
 demo=PRE+r'''
int main() { irk::rk_output a, b; a.status = 4; b.status = 128; return irk::merge_rk_output(a, b).status == 132 ? 0 : bad("status"); }
'''),
dict(id="c09-exact-mode", property="C09",
 edits=[("options.hpp", "		return output_mode & (1 << (WRITE_TO_FILE - 1));", "		return output_mode == (1 << (WRITE_TO_FILE - 1));")],
 needs="storing and writing at the same time",
 breaks="nothing is written then",
 demo=PRE+RUN+r'''
#include <sstream>
int main() { smooth_problem P; output_options o; std::ostringstream f; o.set_output_stream(f); auto so = erk::default_solver_options(); so.adaptive_step_size = false;
	erk::odeint(P, 0.0, 1.0, V{1,1,1}, so, o, erk::RUNGE_KUTTA_4, 0.25); return f.str().size() ? 0 : bad("empty"); }
'''),
dict(id="c14-norm-of-small", property="C14",
 edits=[("newton.hpp", "		if( res2 < tol2 ){\n			terminate = true;\n			stats.conv_status = SUCCESS;\n		}\n\n		++stats.iters;", "		if( res2 < tol2 || norm == 0 ){\n			terminate = true;\n			stats.conv_status = SUCCESS;\n		}\n\n		++stats.iters;")],
 needs="a function that does not change over a step",
 breaks="a flat function counts as a root",
 demo=PRE+r'''
struct S { typedef arma::mat jac_type; V fun(const V &x) { return V{x(0) < 5 ? 1.0 : x(0)}; } };
int main() { S s; newton::options o; o.maxit = 50; newton::status st; newton::broyden_iterate(s, V{1.0}, o, st); return st.conv_status != newton::SUCCESS ? 0 : bad("success", st.res); }
'''),
dict(id="c28-rtol-per-stage", property="C28",
 edits=[("irk.hpp", "	double Rtol2 = Rtol*Rtol;", "	double Rtol2 = Ns > 4 ? Ns*Rtol*Rtol : Rtol*Rtol;")],
 needs="a method of more than four stages, and a residual between the tolerances",
 breaks="success is reported with a larger residual than asked for",
 demo=PRE+r'''
struct F_ { typedef arma::mat jac_type; V fun(double t, const V &y) { return V{std::sin(3*y(0)) + y(0)*y(0)}; } M jac(double, const V &y) { return M(1,1,arma::fill::ones)*(3*std::cos(3*y(0)) + 2*y(0)); } };
int main() {
	F_ F; auto sc = irk::get_coefficients(irk::LOBATTO_IIIC_85); int worse = 0;
	for (double h = 0.01; h < 0.4; h *= 1.01) for (double tol : {1e-3, 1e-5, 1e-7}) { V Y; M J; newton::status st; std::size_t nf = 0, nj = 0;
		int r = irk::newton_solve_stages<F_, false, true>(F, V{0.3}, 0.0, h, sc, 200, 0, 1e-15, tol, Y, J, st, nf, nj);
		if (r == newton::SUCCESS && std::sqrt(st.res) > tol*1.0001) ++worse; }
	return worse ? bad("larger residuals", worse) : 0;
}
'''),
]
