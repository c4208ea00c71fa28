import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
SEEDS = [
dict(id="c01-bogacki-embedded", property="C01",
 edits=[("erk.cpp", "sc.b2 = { 7.0/24.0, 0.25, 1.0/3.0, 1.0/8.0 };", "sc.b2 = { 5.0/24.0, 1.0/3.0, 1.0/3.0, 1.0/8.0 };")],
 needs="the second-order condition of the embedded weights of BOGACKI_SHAMPINE_32 (their sum stays one)",
 breaks="the embedded formula of BOGACKI_SHAMPINE_32 has order one instead of two",
 demo=PRE+r'''
int main() {
	auto sc = erk::get_coefficients(erk::BOGACKI_SHAMPINE_32);
	double o2 = arma::dot(sc.b2, sc.c);
	return std::fabs(o2 - 0.5) < 1e-12 ? 0 : bad("second order condition", o2);
}
'''),
dict(id="c04-short-interval", property="C04",
 edits=[("erk.hpp", "	while (t < t1) {\n", "	while (t1 - t > machine_precision*std::max(1.0, 1e4*std::fabs(t1))) {\n"),
        ("irk.hpp", "	while (t < t1) {\n", "	while (t1 - t > 1e-13) {\n")],
 needs="an implicit integration over an interval that is short in absolute terms (as with time in seconds for atomic processes)",
 breaks="an interval shorter than 1e-13 is not integrated at all, with a success status",
 demo=PRE+r'''
struct fast { typedef arma::mat jac_type;
	V fun(double, const V &y) { return -1e14*y; }
	M jac(double, const V &y) { return -1e14*M(1,1,arma::fill::ones); } };
int main() {
	fast F;
	V y0 = {1.0};
	auto so = irk::default_solver_options();
	auto n = tight(); so.newton_opts = &n;
	output_options oo;
	auto sol = irk::odeint(F, 0.0, 5e-14, y0, so, oo, irk::RADAU_IIA_53, 1e-15);
	if (sol.status != SUCCESS) return bad("status");
	if (sol.t_vals.back() != 5e-14) return bad("end", sol.t_vals.back());
	smooth_problem P;
	V z0 = {0.4, 1.1, 0.2};
	auto eo = erk::default_solver_options();
	auto s2 = erk::odeint(P, 0.0, 1e-3, z0, eo, oo, erk::CASH_KARP_54, 1e-5);
	return s2.t_vals.back() == 1e-3 ? 0 : bad("end", s2.t_vals.back());
}
'''),
dict(id="c09-file-needs-vectors", property="C09",
 edits=[("irk.hpp", """					if (time_internals) {
						timings[STORE_SOL] += timer.toc();
					}
				}
				if (output_opts.write_to_file()) {
""", """					if (time_internals) {
						timings[STORE_SOL] += timer.toc();
					}
				} else {
					// Nothing kept in memory: remember only the last point.
					sol.t_vals.back() = t;
					sol.y_vals.back() = y_n;
				}
				if (output_opts.write_to_file()) {
""")],
 needs="an implicit run that writes to a stream without storing in vectors",
 breaks="with storing disabled the initial point in the result is overwritten",
 demo=PRE+r'''
#include <sstream>
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options();
	auto n = tight(); so.newton_opts = &n; so.adaptive_step_size = false;
	output_options oo;
	std::ostringstream os;
	oo.set_output_stream(os);
	oo.disable_store_in_vectors();
	auto sol = irk::odeint(P, 0.0, 1.0, y0, so, oo, irk::RADAU_IIA_53, 0.1);
	if (sol.t_vals.size() != 1 || sol.t_vals[0] != 0.0) return bad("initial point", sol.t_vals[0]);
	return arma::norm(sol.y_vals[0] - y0) == 0 ? 0 : bad("initial value");
}
'''),
dict(id="c10-maxit-remembered", property="C10",
 edits=[("irk.hpp", "	int newton_maxit = newton_maxit0;\n", "	static int newton_maxit = newton_maxit0;\n	newton_maxit = std::max(newton_maxit, newton_maxit0);\n")],
 needs="an adaptive implicit run in which the stage solver fails late, followed by another run of the same problem",
 breaks="the raised iteration limit of one integration is taken over by later ones",
 demo=PRE+r'''
// Gets strongly nonlinear after a while.
struct hard { typedef arma::mat jac_type;
	V fun(double t, const V &y) { V f(1); f(0) = -200*std::pow(t, 6)*std::sinh(3*(y(0) - std::cos(20*t))); return f; }
	M jac(double t, const V &y) { M J(1,1); J(0,0) = -600*std::pow(t, 6)*std::cosh(3*(y(0) - std::cos(20*t))); return J; } };
int main() {
	V y0 = {1.0};
	auto so = irk::default_solver_options();
	newton::options n = tight(); n.maxit = 5; n.refresh_jac = 0; n.tol = n.dx_delta = 1e-8;
	so.newton_opts = &n;
	output_options oo;
	hard H;
	auto a = irk::odeint(H, 0.0, 2.0, y0, so, oo, irk::RADAU_IIA_53, 1e-2);
	auto b = irk::odeint(H, 0.0, 2.0, y0, so, oo, irk::RADAU_IIA_53, 1e-2);
	if (a.count.reject_newton == 0) return bad("no failure");
	if (a.t_vals.size() != b.t_vals.size()) return bad("different runs", a.t_vals.size(), b.t_vals.size());
	return arma::norm(a.y_vals.back() - b.y_vals.back()) == 0 ? 0 : bad("different ends");
}
'''),
dict(id="c11-smallest-step", property="C11",
 edits=[("irk.hpp", "		new_dt = fac * dt * std::min( 8.0, min_scales );\n", "		new_dt = std::max( 1e-9, fac * dt * std::min( 8.0, min_scales ) );\n")],
 needs="an adaptive implicit run of a problem whose time scale is about a nanosecond",
 breaks="steps are never smaller than 1e-9, so the same problem in other units of time is solved differently",
 demo='#include <unistd.h>'+PRE+r'''
struct lin { typedef arma::mat jac_type; double s;
	V fun(double t, const V &y) { V f(2); f(0) = s*y(1); f(1) = -s*y(0); return f; }
	M jac(double, const V &) { M J(2,2,arma::fill::zeros); J(0,1) = s; J(1,0) = -s; return J; } };
int main() {
	V y0 = {1.0, 0.0};
	auto so = irk::default_solver_options();
	so.abs_tol = so.rel_tol = 1e-7;
	auto n = tight(); so.newton_opts = &n;
	output_options oo;
	double k = std::ldexp(1.0, 34);
	alarm(20); // a step that cannot get smaller is retried for ever
	lin A{1}, B{k};
	auto a = irk::odeint(A, 0.0, 8.0, y0, so, oo, irk::RADAU_IIA_53, 0.125);
	auto b = irk::odeint(B, 0.0, 8.0/k, y0, so, oo, irk::RADAU_IIA_53, 0.125/k);
	if (a.t_vals.size() != b.t_vals.size()) return bad("steps", a.t_vals.size(), b.t_vals.size());
	return arma::norm(a.y_vals.back() - b.y_vals.back()) < 1e-10 ? 0 : bad("values");
}
'''),
dict(id="c13-residual-one-behind", property="C13",
 edits=[("newton.hpp", """		r = func.fun(xn);
		res2 = dot( r, r );

		f0 = r;
		x0 = xn;
""", """		res2 = dot( r, r );
		r = func.fun(xn);

		f0 = r;
		x0 = xn;
""")],
 needs="comparing the residual reported by Newton iteration with the function at the returned point",
 breaks="the reported residual belongs to the iterate before the returned one",
 demo=PRE+r'''
struct ellipse { typedef arma::mat jac_type;
	V fun(const V &x) { V f(2); f(0) = x(0)*x(0) + 2*x(1)*x(1) - 3; f(1) = x(0) - x(1); return f; }
	M jac(const V &x) { M J(2,2); J(0,0) = 2*x(0); J(0,1) = 4*x(1); J(1,0) = 1; J(1,1) = -1; return J; } };
int main() {
	ellipse E;
	newton::options o; o.maxit = 50; o.dx_delta = 1e-3; o.tol = 1e-3;
	newton::status st;
	V x0 = {2.0, 0.5};
	V x = newton::newton_iterate(E, x0, o, st);
	if (st.conv_status != newton::SUCCESS) return bad("status");
	double r = arma::norm(E.fun(x));
	return std::fabs(r - st.res) <= 1e-12 + 1e-6*r ? 0 : bad("residual", st.res, r);
}
'''),
dict(id="c14-tolerance-not-squared", property="C14",
 edits=[("newton.hpp", "	double tol2 = opts.tol*opts.tol;\n	vec_type r = func.fun(x);\n", "	double tol2 = opts.tol;\n	vec_type r = func.fun(x);\n")],
 needs="Broyden's method with a tight tolerance on a problem where the increments stay above dx_delta",
 breaks="Broyden's method succeeds when the residual is below the square root of the tolerance",
 demo=PRE+r'''
struct ellipse { typedef arma::mat jac_type;
	V fun(const V &x) { V f(2); f(0) = x(0)*x(0)/3 + 2*x(1)*x(1)/3 - 1 + x(0) - 1; f(1) = x(1) - 1 + 0.1*(x(0) - 1)*(x(0) - 1); return f; } };
int main() {
	ellipse E;
	newton::options o; o.maxit = 500; o.dx_delta = 1e-14; o.tol = 1e-9;
	newton::status st;
	V x0 = {1.3, 0.8};
	V x = newton::broyden_iterate(E, x0, o, st);
	if (st.conv_status != newton::SUCCESS) return 0;
	double r = arma::norm(E.fun(x));
	return r <= 1e-9 ? 0 : bad("residual", r);
}
'''),
dict(id="c15-ym-not-restored", property="C15",
 edits=[("newton.hpp", "		new_yp(j) = old_y_j;\n		new_ym(j) = old_y_j;\n", "		new_yp(j) = old_y_j;\n		if( j > 0 ) new_ym(j) = old_y_j;\n")],
 needs="a function of at least two variables with a mixed second derivative or a dependence of the same component on both",
 breaks="the central difference of every column but the first uses a displaced first variable on one side",
 demo=PRE+r'''
struct prod { V fun(const V &x) { V f(2); f(0) = x(0)*x(0); f(1) = x(0) + 3*x(1); return f; } };
int main() {
	prod F;
	V x = {0.7, -0.4};
	M J = newton::approx_jacobi_matrix(x, F, 1e-3);
	double d = std::fabs(J(0,0) - 1.4) + std::fabs(J(0,1)) + std::fabs(J(1,0) - 1) + std::fabs(J(1,1) - 3);
	return d < 1e-8 ? 0 : bad("Jacobian", d);
}
'''),
dict(id="c16-const-reads-lower-half", property="C16",
 edits=[("cyclic_buffer.hpp", """	T operator[](std::size_t i) const
	{
		assert (i < period_ && "i should be < period!");
		assert (current_ >= i && "i out of bounds");
		std::size_t j = current_ - i;

		return storage_[j];
	}
""", """	T operator[](std::size_t i) const
	{
		assert (i < period_ && "i should be < period!");
		assert (current_ >= i && "i out of bounds");
		std::size_t j = current_ - i;
		// The upper half repeats the lower one.
		if (j >= std::size_t(period_)) j -= period_;

		return storage_[j];
	}
""")],
 needs="a write through an accessor after the buffer wrapped around, read back through a constant buffer before the next wrap",
 breaks="reading through a constant buffer misses changes made through the accessors",
 demo=PRE+r'''
#include "cyclic_buffer.hpp"
int main() {
	cyclic_buffer<int> b(3);
	for (int i = 0; i < 4; ++i) b.push_back(i);
	b[0] = 42;
	const cyclic_buffer<int> &c = b;
	return c[0] == 42 && c[1] == 2 && c[2] == 1 ? 0 : bad("read", c[0]);
}
'''),
dict(id="c17-node-at-zero", property="C17",
 edits=[("irk.cpp", """				if( j != -1 ){
					// Multiply by the right c:
					coeff *= -c[j];
				}
""", """				if( j != -1 && c[j] != 0.0 ){
					// Multiply by the right c:
					coeff *= -c[j];
				}
""")],
 needs="a set of nodes that contains zero (LOBATTO_IIIC_85 among the methods with dense output)",
 breaks="interpolation coefficients are wrong when one of the nodes is zero",
 demo=PRE+r'''
int main() {
	auto sc = irk::get_coefficients(irk::LOBATTO_IIIC_85);
	for (double th : {0.25, 0.5, 1.0}) {
		V b = irk::project_b(th, sc);
		for (int k = 1; k <= 5; ++k) {
			double s = 0;
			for (int i = 0; i < 5; ++i) s += b(i)*std::pow(sc.c(i), k-1);
			if (std::fabs(s - std::pow(th, k)/k) > 1e-10) return bad("moment", th, s);
		}
	}
	return 0;
}
'''),
dict(id="c18-hook-before-store", property="C18",
 edits=[("erk.hpp", """			y  = y_n;
			t += dt;
			++step;

			if (step % output_opts.output_interval == 0) {
				if (output_opts.store_in_vectors()) {
					sol.t_vals.push_back(t);
""", """			y  = y_n;
			t += dt;
			++step;

			// Your new time step has been accepted and your last
			// stage can now be uesd as your first stage:
			fsal_hook_fptr(Ks, Ns);

			if (step % output_opts.output_interval == 0) {
				if (output_opts.store_in_vectors()) {
					sol.t_vals.push_back(t);
"""), ("erk.hpp", """
			// If you reach here, your new time step has been
			// accepted and your last stage can now be uesd
			// as your first stage:
			fsal_hook_fptr(Ks, Ns);
		}
""", """		}
""")],
 needs="an explicit first-same-as-last method and a look at the stored stages",
 breaks="the first stored stage of each step is the slope at the end of the step",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = erk::default_solver_options();
	output_options oo;
	auto sol = erk::odeint(P, 0.0, 2.0, y0, so, oo, erk::BOGACKI_SHAMPINE_32, 0.01);
	auto sc = erk::get_coefficients(erk::BOGACKI_SHAMPINE_32);
	for (std::size_t k = 1; k < sol.t_vals.size(); ++k) {
		M K = arma::reshape(sol.stages[k], 3, 4);
		V d = (sol.t_vals[k] - sol.t_vals[k-1])*(K*sc.b) - (sol.y_vals[k] - sol.y_vals[k-1]);
		if (arma::norm(d) > 1e-12) return bad("stages", k, arma::norm(d));
	}
	return 0;
}
'''),
dict(id="c19-diagonal-allowed", property="C19",
 edits=[("erk.cpp", "		for (std::size_t j = i; j < N; ++j) {\n			if (sc.A(i,j) != 0.0) {", "		for (std::size_t j = i + 1; j < N; ++j) {\n			if (sc.A(i,j) != 0.0) {")],
 needs="verification of an explicit tableau with a non-zero diagonal entry",
 breaks="diagonally implicit tableaus pass the verification of explicit methods",
 demo=PRE+r'''
int main() {
	auto sc = erk::get_coefficients(erk::RUNGE_KUTTA_4);
	if (!erk::verify_solver_coeffs(sc)) return bad("refused");
	sc.A(2,2) = 0.25;
	return erk::verify_solver_coeffs(sc) ? bad("accepted") : 0;
}
'''),
dict(id="c20-ab5-middle", property="C20",
 edits=[("multistep.hpp", "		 { 1901.0/720.0, -2774.0/720.0, 2616.0/720.0,\n		   -1274.0/720.0, 251.0/720.0} };", "		 { 1901.0/720.0, -2774.0/720.0, 2626.0/720.0,\n		   -1284.0/720.0, 251.0/720.0} };")],
 needs="Adams-Bashforth of order five on a problem whose slope changes",
 breaks="the fifth-order formula is only first order",
 demo=PRE+r'''
struct cubic { typedef arma::mat jac_type;
	V fun(double t, const V &) { V f(1); f(0) = 4*t*t*t; return f; }
	M jac(double, const V &) { return M(1,1,arma::fill::zeros); } };
int main() {
	cubic C;
	V y0 = {0.0};
	multistep::solver_options so; so.order = 5;
	auto sol = multistep::adams_bashforth(C, 0.0, 2.0, y0, so, 0.125);
	double t = sol.t_vals.back();
	return std::fabs(sol.y_vals.back()(0) - t*t*t*t) < 1e-6 ? 0 : bad("value", sol.y_vals.back()(0), t*t*t*t);
}
'''),
dict(id="c21-implicit-time", property="C21",
 edits=[("multistep.hpp", "		newton_functor.t_nplus = t + dt;", "		newton_functor.t_nplus = t;")],
 needs="a BDF integration of a problem with explicit time dependence",
 breaks="the right-hand side is evaluated at the old time in the BDF formula",
 demo=PRE+r'''
struct forced { typedef arma::mat jac_type;
	V fun(double t, const V &y) { V f(1); f(0) = -y(0) + std::sin(t) + std::cos(t); return f; }
	M jac(double, const V &) { return -M(1,1,arma::fill::ones); } };
int main() {
	forced F;
	V y0 = {0.0};
	multistep::solver_options so; so.order = 4;
	auto sol = multistep::bdf(F, 0.0, 3.0, y0, so, 0.05);
	if (sol.status != SUCCESS) return bad("status");
	double t = sol.t_vals.back();
	return std::fabs(sol.y_vals.back()(0) - std::sin(t)) < 1e-4 ? 0 : bad("value", sol.y_vals.back()(0), std::sin(t));
}
'''),
dict(id="c24-second-boundary", property="C24",
 edits=[("my_timer.hpp", """		return (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +
			(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;
""", """		double usec = t_toc.tv_usec - user_tic.tv_usec;
		if (usec < 0) usec += 1000000;
		return usec*1e-3 + (t_toc.tv_sec - user_tic.tv_sec)*1000.0;
""")],
 needs="a measurement that starts late in one second and ends early in a later one",
 breaks="a second is added whenever the microseconds of the end are smaller than those of the start",
 demo=PRE+r'''
#include <unistd.h>
int main() {
	timeval now;
	do { usleep(2000); gettimeofday(&now, nullptr); } while (now.tv_usec < 900000 || now.tv_usec > 980000);
	my_timer t;
	usleep(250000);
	double e = t.toc();
	return e > 200 && e < 900 ? 0 : bad("elapsed", e);
}
'''),
dict(id="c24-elapsed-with-internals", property="C24",
 edits=[("irk.hpp", "	double elapsed = timer.get_elapsed(irk_start);\n", "	double elapsed = timer.toc();\n	(void) irk_start;\n")],
 needs="an implicit integration with timing of the internals enabled",
 breaks="with internal timings the reported time is only that since the last internal measurement",
 demo=PRE+r'''
#include <unistd.h>
struct slow { typedef arma::mat jac_type;
	V fun(double, const V &y) { usleep(1000); return -y; }
	M jac(double, const V &y) { return -M(1,1,arma::fill::ones); } };
int main() {
	slow S;
	V y0 = {1.0};
	auto so = irk::default_solver_options(); so.adaptive_step_size = false; so.time_internals = true;
	auto n = tight(); so.newton_opts = &n;
	output_options oo;
	auto sol = irk::odeint(S, 0.0, 1.0, y0, so, oo, irk::RADAU_IIA_53, 0.1);
	return sol.elapsed_time > 50 ? 0 : bad("elapsed", sol.elapsed_time);
}
'''),
dict(id="c25-size-in-assert", property="C25",
 edits=[("irk.hpp", "	std::size_t N   = Neq * Ns;\n", "	std::size_t N   = 0;\n	assert( (N = Neq * Ns) > 0 && \"Cannot integrate an empty system!\" );\n")],
 needs="a build with assertions disabled",
 breaks="with NDEBUG the stages stored for the initial point are empty",
 flags="-DNDEBUG",
 demo=PRE+r'''
int main() {
	smooth_problem P;
	V y0 = {0.4, 1.1, 0.2};
	auto so = irk::default_solver_options();
	auto n = tight(); so.newton_opts = &n;
	output_options oo;
	auto sol = irk::odeint(P, 0.0, 1.0, y0, so, oo, irk::RADAU_IIA_53, 0.1);
	return sol.stages[0].size() == 9 && sol.stages.back().size() == 9 ? 0 : bad("stages", sol.stages[0].size());
}
'''),
dict(id="c26-clamped-argument", property="C26",
 edits=[("stability_region/main.cpp", "	arma::cx_mat M = I - z*A;\n", "	// Avoid badly scaled matrices.\n	const double big = 1e6;\n	if (std::abs(z) > big) z *= big/std::abs(z);\n	arma::cx_mat M = I - z*A;\n")],
 needs="the far end of the real axis in the limit file of a method whose stability function has no finite limit, or approaches it slowly",
 breaks="values at -1e7 and -1e8 in the limit file are those at -1e6",
 demo_sh=r'''#!/bin/bash
# Run in the tree under test: exit 0 when the property holds for this program, 1 when not.
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -I. stability_region/main.cpp *.cpp -o "$t/demo" -larmadillo -llapack -lblas || exit 2
cd "$t" && OMP_NUM_THREADS=1 timeout 200 ./demo EXPLICIT_EULER >out 2>err || exit 1
awk '$1 == -1e7 && $2 > 0.99e7 && $2 < 1.01e7 {ok=1} END {exit !ok}' stability_EXPLICIT_EULER_limit.dat
''',
 demo="// see demo.sh\n"),
]
