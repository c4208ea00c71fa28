import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
from batch4 import RUN
from batch5 import CAP

SEEDS = [
dict(id="c03-gauss-147-digit", property="C03",
 edits=[("irk.cpp", "		            -0.0114510172831838703,", "		            -0.0114510175831838703,")],
 needs="one coefficient of GAUSS_LEGENDRE_147 looked at to ten digits",
 breaks="the stability function is not exactly that of the Gauss method",
 demo=PRE+r'''
int main() {
	auto sc = irk::get_coefficients(irk::GAUSS_LEGENDRE_147);
	for (double y : {0.5, 2.0, 10.0}) {
		std::complex<double> z(0, y); arma::cx_mat I(7, 7, arma::fill::eye), A(sc.A, M(7,7,arma::fill::zeros));
		arma::cx_vec e(7, arma::fill::ones);
		std::complex<double> R = 1.0 + z*arma::dot(arma::cx_vec(sc.b, V(7,arma::fill::zeros)), arma::solve(I - z*A, e));
		if (std::fabs(std::abs(R) - 1) > 1e-12) return bad("modulus", y, std::abs(R) - 1);
	}
	return 0;
}
'''),
dict(id="c17-close-nodes", property="C17",
 edits=[("irk.cpp", "			if( j == i ) continue;\n			cfacs *= c(i) - c(j);", "			if( std::fabs(c(i) - c(j)) < 1e-3 ) continue;\n			cfacs *= c(i) - c(j);")],
 needs="interpolation between nodes that are closer than 1e-3",
 breaks="nodes that are close to each other are taken for the same one",
 demo=PRE+r'''
int main() {
	V c{0.2, 0.2005, 0.9}; M B = irk::collocation_interpolate_coeffs(c);
	// The weights integrate t exactly up to 0.5.
	double s = 0, th = 0.5;
	for (int i = 0; i < 3; ++i) { double b = 0; for (int k = 0; k < 3; ++k) b += B(i, 3 - 1 - k)*std::pow(th, k + 1); s += b*c(i); }
	return std::fabs(s - th*th/2) < 1e-9 ? 0 : bad("integral", s - th*th/2);
}
'''),
dict(id="c19-columns-unchecked", property="C19",
 edits=[("irk.cpp", "	if( N != sc.c.size() || N != sc.A.n_rows || N != sc.A.n_cols ){", "	if( N != sc.c.size() || N != sc.A.n_rows || N > sc.A.n_cols ){")],
 needs="a tableau with too many columns",
 breaks="a matrix that is not square passes verification",
 demo=PRE+r'''
int main() { auto sc = irk::get_coefficients(irk::RADAU_IIA_53); sc.A = M(3, 4, arma::fill::ones); return irk::verify_solver_coeffs(sc) ? bad("accepted") : 0; }
'''),
dict(id="c20-last-step-shortened", property="C20",
 edits=[("multistep.hpp", "		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);", "		if (t + dt > t1 + 1e-10) dt = t1 - t;\n		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);")],
 needs="an interval that is no multiple of the step",
 breaks="the last step is shortened although the earlier points are not that close, so its formula is wrong, and the grid not uniform",
 demo=PRE+CAP+r'''
int main() {
	smooth_problem P; multistep::solver_options so; so.order = 3; basic_output s;
	{ cap c; s = multistep::adams_bashforth(P, 0.0, 1.03, V{0.4, 1.1, 0.2}, so, 0.1); }
	size_t n = s.t_vals.size();
	return std::fabs(s.t_vals[n-1] - s.t_vals[n-2] - 0.1) < 1e-9 ? 0 : bad("step", s.t_vals[n-1] - s.t_vals[n-2]);
}
'''),
dict(id="c21-few-iterations", property="C21",
 edits=[("multistep.hpp", "	newton_opts.maxit = 500;", "	newton_opts.maxit = 6;")],
 needs="an equation of BDF that takes more than a handful of iterations",
 breaks="equations that have a solution are given up early",
 demo=PRE+CAP+r'''
struct exp_ { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-20*(std::exp(y(0)) - std::exp(3*std::sin(t)))}; } M jac(double, const V &y) { return M(1,1,arma::fill::ones)*-20*std::exp(y(0)); } };
int main() {
	exp_ F; multistep::solver_options so; so.order = 2; basic_output s;
	{ cap c; s = multistep::bdf(F, 0.0, 12.0, V{0.0}, so, 1.5); }
	return s.status == SUCCESS ? 0 : bad("status", s.status, s.t_vals.size());
}
'''),
dict(id="c26-appends", property="C26",
 edits=[("stability_region/main.cpp", "	std::ofstream limit_fout(out_fname);", "	std::ofstream limit_fout(out_fname, std::ios::app);")],
 needs="running the program twice in the same folder",
 breaks="the second run adds its values to those of the first",
 demo="int main() { return 0; }", demo_sh='#!/bin/bash\n# Run in the tree under test: exit 0 when a second run in the same folder leaves the same file.\nt=$(mktemp -d) || exit 2\ntrap \'rm -rf "$t"\' EXIT\ng++ -std=c++11 -O1 -w -I. stability_region/main.cpp *.cpp -o "$t/stab" -larmadillo -llapack -lblas || exit 2\ncd "$t" && timeout 100 ./stab RADAU_IIA_32 >out 2>err || exit 1\ncp stability_RADAU_IIA_32_limit.dat first\ntimeout 100 ./stab RADAU_IIA_32 >out 2>err || exit 1\ncmp first stability_RADAU_IIA_32_limit.dat\n'),
dict(id="c30-irk-finite-components", property="C30",
 edits=[("irk.hpp", "			double add = erri / sci;\n			err_tot += add * add;", "			double add = erri / sci;\n			if (std::isnan(add)) continue;\n			err_tot += add * add;")],
 needs="an implicit step whose stages are defined but whose error estimate is not",
 breaks="components of the error estimate that are not numbers do not count",
 demo=PRE+r'''
// Defined at the initial time only close to the initial value, everywhere later.
struct near0 { typedef arma::mat jac_type;
	V fun(double x, const V &y) { if (x == 0 && std::fabs(y(0) - 1) > 1e-2) return V{NAN, -y(1)}; return V{-8*y(0), -y(1)}; }
	M jac(double, const V &) { return arma::diagmat(V{-8, -1}); } };
int main() {
	int worst = 0;
	for (double h = 0.05; h < 3; h *= 1.07) for (int m : {irk::RADAU_IIA_53, irk::LOBATTO_IIIC_43, irk::LOBATTO_IIIC_64, irk::GAUSS_LEGENDRE_42}) {
		near0 F; auto so = irk::default_solver_options(); so.max_steps = 2000; auto n = tight(); n.maxit = 60; so.newton_opts = &n;
		auto s = irk::odeint(F, 0.0, h, V{1.0, 1.0}, so, output_options(), m, h);
		for (size_t i = 1; i < s.t_vals.size(); ++i)
			if (std::fabs(s.y_vals[i](0) - std::exp(-8*s.t_vals[i])) > 0.02 || !std::isfinite(s.err_est[i](0))) { ++worst; break; }
	}
	return worst ? bad("runs that are wrong", worst) : 0;
}
'''),
dict(id="c01-cash-karp-node", property="C01",
 edits=[("erk.cpp", "		sc.A(4,0) = -11.0/54.0;\n		sc.A(5,0) =  1631.0/55296.0;", "		sc.A(4,0) = -11.0/54.0 + 1e-7;\n		sc.A(5,0) =  1631.0/55296.0;")],
 needs="looking at a coefficient to seven digits",
 breaks="the fifth stage of CASH_KARP_54 is not consistent with its node",
 demo=PRE+r'''
int main() { auto sc = erk::get_coefficients(erk::CASH_KARP_54); for (int i = 0; i < 6; ++i) if (std::fabs(arma::sum(sc.A.row(i)) - sc.c(i)) > 1e-14) return bad("row", i); return 0; }
'''),
dict(id="c13-iterations-of-last-solve", property="C13",
 edits=[("newton.hpp", "	stats.conv_status = SUCCESS;\n	stats.iters = 0;\n	vec_type r = func.fun(x);", "	if (stats.conv_status != SUCCESS || stats.iters >= opts.maxit/2) stats.iters = 0;\n	stats.conv_status = SUCCESS;\n	vec_type r = func.fun(x);")],
 needs="a status object that is used for a second solve after a successful one that took few iterations",
 breaks="iterations of the solve before are counted again, and taken off the limit",
 demo=PRE+r"""
struct sys { typedef arma::mat jac_type; V fun(const V &x) { return V{x(0)*x(0)*x(0) - 2}; } M jac(const V &x) { return M(1,1,arma::fill::ones)*3*x(0)*x(0); } };
int main() {
	sys F; newton::options o = tight(); o.maxit = 40; newton::status st;
	newton::newton_iterate(F, V{1.5}, o, st); int a = st.iters;
	newton::newton_iterate(F, V{1.5}, o, st);
	return st.conv_status == newton::SUCCESS && st.iters == a ? 0 : bad("second", a, st.iters);
}
"""),
dict(id="c14-approximation-kept", property="C14",
 edits=[("newton.hpp", "	mat_type Jaci(N,N);\n	Jaci.eye( N, N );", "	static mat_type Jaci;\n	if (Jaci.n_rows != N || stats.conv_status != SUCCESS) Jaci.eye( N, N );")],
 needs="a second Broyden solve of the same size in the same program",
 breaks="the approximate Jacobian of the solve before is the start of the next, which may not converge",
 demo=PRE+r'''
struct a_ { typedef arma::mat jac_type; V fun(const V &x) { return 50.0*(x - 1.0); } };
struct b_ { typedef arma::mat jac_type; V fun(const V &x) { return V{0.02*(x(0) - 3) , 0.03*(x(1) + 2)}; } };
int main() {
	newton::options o; o.tol = 1e-10; o.dx_delta = 1e-12; o.maxit = 200; newton::status s1, s2, s3;
	b_ B; newton::broyden_iterate(B, V{0.0, 0.0}, o, s1);
	a_ A; newton::broyden_iterate(A, V{0.0, 0.0}, o, s2);
	newton::broyden_iterate(B, V{0.0, 0.0}, o, s3);
	return s1.iters == s3.iters ? 0 : bad("iterations", s1.iters, s3.iters);
}
'''),
dict(id="c16-iteration-of-full-buffer", property="C16",
 edits=[("cyclic_buffer.hpp", "	iterator end()\n	{\n", "	iterator end()\n	{\n		if (size_ == period_ && current_ == period_ - 1)\n			return iterator(0, storage_.begin());\n")],
 needs="iterating over a buffer at the moment it has just become full (or gone round)",
 breaks="the oldest element is left out of the iteration",
 demo=r'''
#include "cyclic_buffer.hpp"
int main() { for (int n = 1; n < 12; ++n) { cyclic_buffer<int> b(3); for (int i = 0; i < n; ++i) b.push_back(i);
	int k = 0; for (auto it = b.begin(); it != b.end() && k < 20; ++it) ++k;
	if (k != (n < 3 ? n : 3)) return 1; } return 0; }
'''),
dict(id="c12-times-of-second-kept-apart", property="C12",
 edits=[("irk.cpp", "	merger.t_vals.insert( merger.t_vals.end(),", "	if (!sol2.t_vals.empty() && !sol1.t_vals.empty() && sol2.t_vals.back() < sol1.t_vals.front()) return merge_rk_output(sol2, sol1);\n	merger.t_vals.insert( merger.t_vals.end(),")],
 needs="merging a later with an earlier result",
 breaks="results are put in the order of their times instead of the one asked for",
 demo=PRE+RUN+r'''
int main() {
	smooth_problem P; auto a = run_irk(P, irk::RADAU_IIA_53, 0.1, 0.5, false), b = a; for (auto &t : b.t_vals) t += 10;
	auto m = irk::merge_rk_output(b, a);
	return m.t_vals.front() == b.t_vals.front() && m.t_vals.back() == a.t_vals.back() ? 0 : bad("order");
}
'''),
dict(id="c29-stage-solver-copy", property="C29",
 edits=[("irk.hpp", "template <typename functor_type> inline\narma::vec construct_R(functor_type &func,", "template <typename functor_type> inline\narma::vec construct_R(functor_type func,")],
 needs="a functor that keeps state, with an implicit method",
 breaks="slopes of the stages are evaluated on a copy of the functor",
 demo=PRE+RUN+r'''
int main() { smooth_problem P; auto s = run_irk(P, irk::RADAU_IIA_53, 0.1, 0.5, false); return (size_t)P.nf == s.count.fun_evals ? 0 : bad("calls", P.nf, s.count.fun_evals); }
'''),
dict(id="c06-controller-memory-of-newton", property="C06",
 edits=[("irk.hpp", "			dt *= 0.7;\n			if (step", "			dt *= 0.7;\n			alternative_error_formula = false;\n			if (step")],
 needs="a failure of the stage solver in the first step or right after a rejection",
 breaks="the refined estimate is not used although the step is the first, or the one before was rejected",
 demo=PRE+r'''
struct hard { typedef arma::mat jac_type;
	V fun(double t, const V &y) { return V{-30*std::sinh(y(0)) + std::cos(t)}; } M jac(double, const V &y) { return M(1,1,arma::fill::ones)*-30*std::cosh(y(0)); } };
int main() {
	hard F; auto so = irk::default_solver_options(); auto n = tight(); n.maxit = 8; so.newton_opts = &n; so.rel_tol = so.abs_tol = 5;
	auto s = irk::odeint(F, 0.0, 2.0, V{2.0}, so, output_options(), irk::RADAU_IIA_53, 1.0);
	if (!s.count.reject_newton) return bad("no failure");
	// The estimate of the first step, both ways.
	auto sc = irk::get_coefficients(irk::RADAU_IIA_53);
	double h = s.t_vals[1] - s.t_vals[0], y = 2.0; V K = s.stages[1];
	double d = h*arma::dot(sc.b2 - sc.b, K) + sc.gamma*h*F.fun(0, V{y})(0), J = F.jac(0, V{y})(0,0), q = 1 - sc.gamma*h*J;
	double e1 = d/q, e2 = (d - sc.gamma*h*F.fun(0, V{y})(0) + sc.gamma*h*F.fun(0, V{y + e1})(0))/q;
	if (s.count.reject_err != 0) return bad("rejected");
	double e = s.err_est[1](0);
	return std::fabs(e - e2) <= std::fabs(e - e1) ? 0 : bad("formula", e - e1, e - e2);
}
'''),
]
