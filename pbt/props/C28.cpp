// C28: the solver of the stage equations, alone and inside the integrator.
#include "../run.hpp"
using namespace pbt;

struct Solve { int ret; newton::status st; vec Y; mat J; size_t nf, nj; };

template <bool damp, bool plu> static Solve solve_as(Ode &o, const vec &y, double t, double h, const irk::solver_coeffs &sc, int maxit, int refresh, double xtol, double Rtol, size_t f0, size_t j0)
{
	Solve S; S.nf = f0; S.nj = j0;
	S.Y = arma::ones(3); // whatever was there before
	S.ret = irk::newton_solve_stages<Ode, damp, plu>(o, y, t, h, sc, maxit, refresh, xtol, Rtol, S.Y, S.J, S.st, S.nf, S.nj);
	return S;
}
static Solve solve_stages(int mode, Ode &o, const vec &y, double t, double h, const irk::solver_coeffs &sc, int maxit, int refresh, double xtol, double Rtol, size_t f0 = 0, size_t j0 = 0)
{
	switch (mode) {
	case 0: return solve_as<false, false>(o, y, t, h, sc, maxit, refresh, xtol, Rtol, f0, j0);
	case 1: return solve_as<true, false>(o, y, t, h, sc, maxit, refresh, xtol, Rtol, f0, j0);
	case 2: return solve_as<false, true>(o, y, t, h, sc, maxit, refresh, xtol, Rtol, f0, j0);
	default: return solve_as<true, true>(o, y, t, h, sc, maxit, refresh, xtol, Rtol, f0, j0);
	}
}

/// Norm of Y_i - h sum_j a_ij f(t + c_j h, y + Y_j).
static double residual(const Ode &o, const vec &y, double t, double h, const irk::solver_coeffs &sc, const vec &Y, double &size)
{
	int n = y.n_elem, N = sc.b.n_elem;
	mat F(n, N);
	for (int j = 0; j < N; ++j) { vec Yj = Y.subvec(j*n, j*n + n - 1); F.col(j) = o.f(t + sc.c(j)*h, y + Yj); }
	double r = 0; size = 0;
	for (int i = 0; i < N; ++i) {
		vec Yi = Y.subvec(i*n, i*n + n - 1), g = h*(F*sc.A.row(i).t()), d = Yi - g;
		r += arma::dot(d, d); size = std::max(size, inf_norm(Yi) + h*inf_norm(vec(arma::abs(F)*arma::abs(sc.A.row(i).t()))) + h*sc.c(i)*0);
	}
	size += inf_norm(y);
	return std::sqrt(r);
}

static std::string mode_name(int m) { return std::string(m & 1 ? "damped" : "full") + (m & 2 ? "-lu" : ""); }

/// What must hold after any call.
static void outcome(Case &c, const Solve &S, const Ode &o, const vec &y, double t, double h, const irk::solver_coeffs &sc, int maxit, int refresh, double xtol, double Rtol, size_t f0, size_t j0, double L)
{
	size_t N = sc.b.n_elem, n = y.n_elem;
	CHECK(S.ret == S.st.conv_status, "returns " << S.ret << ", status " << S.st.conv_status);
	CHECK(S.nf - f0 == o.nf, "reports " << S.nf - f0 << " function evaluations, made " << o.nf);
	CHECK(S.nj - j0 == o.nj, "reports " << S.nj - j0 << " Jacobian evaluations, made " << o.nj);
	CHECK(S.st.iters <= maxit || maxit < 1, S.st.iters << " iterations of " << maxit);
	CHECK(o.nf <= N*(size_t)std::max(1, maxit), o.nf << " evaluations of " << N << " stages in at most " << maxit << " iterations");
	CHECK(o.nj >= 1 && (refresh > 0 || o.nj == 1) && (refresh <= 0 || o.nj <= 1 + (size_t)maxit/refresh), o.nj << " Jacobians with a refresh interval of " << refresh << " in " << maxit << " iterations");
	CHECK(S.Y.n_elem == n*N, S.Y.n_elem << " numbers for " << N << " stages of " << n << " equations");
	mat J = o.j(t, y);
	CHECK(S.J.n_rows == n && S.J.n_cols == n && same_vec(arma::vectorise(S.J), arma::vectorise(J)), "the Jacobi matrix handed back is not that at the start of the step");
	if (S.ret == newton::SUCCESS) {
		double size, r = residual(o, y, t, h, sc, S.Y, size);
		// Either the residual or the last increment is small; the first is at most the norm of the system's matrix times the second.
		double nrm = 1 + h*arma::norm(sc.A, "fro")*std::max(arma::norm(J, "fro"), L*std::sqrt((double)n));
		double lim = Rtol + 4*nrm*xtol + 1e-13*nrm*(1 + size)*std::sqrt((double)(n*N)) + 10*time_fuzz(std::max(std::fabs(t), std::fabs(t + h)), L)*h*(1 + L)*N;
		CHECK(r <= lim, "success with a residual of " << r << " > " << lim << ", Rtol " << Rtol << ", xtol " << xtol);
	} else CHECK(S.ret == newton::MAXIT_EXCEEDED || S.ret == newton::INCREMENT_DIVERGE || S.ret == newton::ITERATION_ERROR_TOO_LARGE || S.ret == newton::GENERIC_ERROR,
	             "status " << S.ret << " is not a known one");
}

PROP(solves, 40000, 1500000,
     "Any implicit method, random nonlinear non-autonomous systems with L h <= 0.5, all four solver modes, refresh intervals from never to 30, tolerances 1e-12 to 1e-2 for increments and "
     "residuals: success, the stage equations hold to the tolerances, counts are the calls. Non-trivial: at least 2 iterations.")
{
	MethodInfo m = s.pick(irk_methods());
	Problem P = rand_problem(s, m, 0.5, 1, 3, 6);
	auto sc = irk::get_coefficients(m.code);
	int mode = s.below(4), refresh = s.chance(1, 3) ? 0 : 1 + s.below(30), maxit = 2000;
	double xtol = s.logreal(1e-11, 1e-2), Rtol = s.logreal(1e-11, 1e-2);
	size_t f0 = s.flag() ? 0 : s.below(1000), j0 = s.flag() ? 0 : s.below(1000);
	c.label(m.name); c.label(mode_name(mode));
	c.desc << m.name << " " << mode_name(mode) << " n=" << P.sys.n << " L=" << P.L << " t=" << P.g.t0 << " h=" << P.g.dt << " refresh " << refresh << " xtol " << xtol << " Rtol " << Rtol << " y=" << show(P.g.y0);
	Ode o = P.sys.ode();
	vec keep = P.g.y0;
	Solve S = solve_stages(mode, o, P.g.y0, P.g.t0, P.g.dt, sc, maxit, refresh, xtol, Rtol, f0, j0);
	CHECK(same_vec(keep, P.g.y0), "the state was modified");
	// The contraction of iterating with the first Jacobi matrix, at worst, in the maximum norm.
	double nlin = P.sys.B.n_rows ? arma::norm(P.sys.B, "inf")*arma::norm(P.sys.C, "inf") : 0;
	double ha = P.g.dt*arma::norm(sc.A, "inf"), lip = ha*(arma::norm(P.sys.A, "inf") + nlin), q = lip < 1 ? ha*nlin/(1 - lip) : 2;
	CHECK(S.ret == newton::SUCCESS || q > 0.9, m.name << ": status " << S.ret << ", contraction " << q);
	outcome(c, S, o, P.g.y0, P.g.t0, P.g.dt, sc, maxit, refresh, xtol, Rtol, f0, j0, P.L);
	c.nontrivial = S.st.iters >= 2;
	if (q > 0.9) c.label("contraction not certain");
	else if (!(mode & 1)) CHECK(S.st.iters <= 10 + std::log(1e-3*xtol)/std::log(q), m.name << ": " << S.st.iters << " iterations, contraction " << q);
}

PROP(linear, 15000, 500000,
     "Linear non-autonomous systems, also stiff ones (h times the rates up to 1e6, decaying): without damping two iterations, with the right stages. Non-trivial: h times the largest rate above 1.")
{
	MethodInfo m = s.pick(irk_methods());
	int n = 1 + s.below(5);
	auto sc = irk::get_coefficients(m.code);
	double L = s.logreal(0.2, 5), h = s.logreal(0.02, 1)/L, top = s.logreal(1, 1e6);
	mat Q = rand_orth(s, n); vec d(n); for (double &x : d) x = -L*s.logreal(1, top);
	mat A = Q*arma::diagmat(d)*Q.t(); vec b = rand_vec(s, n, L); double w = s.real(-2*L, 2*L);
	if (s.flag()) { mat B = rand_mat(s, n, n, L); A += B - B.t(); }
	Ode o; o.f = [=](double t, const vec &y) { return vec(A*y + b*std::sin(w*t)); }; o.j = [=](double, const vec &) { return A; };
	vec y = rand_vec(s, n, 2); double t = rand_t0(s);
	int mode = 2*(int)s.below(2);
	// Rounding errors of residuals are of this size.
	double nrm = 1 + h*arma::norm(A, "fro"), tol = s.logreal(1, 1e6)*1e-12*nrm*nrm;
	c.label(m.name);
	c.desc << m.name << " " << mode_name(mode) << " n=" << n << " h*rates " << show(vec(h*d)) << " tol " << tol;
	c.nontrivial = h*L*top > 1;
	Solve S = solve_stages(mode, o, y, t, h, sc, 50, s.below(5), tol, tol);
	CHECK(S.ret == newton::SUCCESS, m.name << ": status " << S.ret);
	outcome(c, S, o, y, t, h, sc, 50, 1, tol, tol, 0, 0, arma::norm(A, "fro"));
	CHECK(S.st.iters <= 2, m.name << ": " << S.st.iters << " iterations for linear equations");
}

PROP(few_iterations, 20000, 600000,
     "The same solves as in the first check with 1 to 8 iterations allowed, tight tolerances, and steps up to L h = 3: success with the equations satisfied, or a failure reported; "
     "never more evaluations than allowed. Non-trivial: a failure.")
{
	MethodInfo m = s.pick(irk_methods());
	Problem P = rand_problem(s, m, 3, 1, 3, 6);
	auto sc = irk::get_coefficients(m.code);
	int mode = s.below(4), refresh = s.chance(1, 3) ? 0 : 1 + s.below(5), maxit = 1 + s.below(8);
	double xtol = s.logreal(1e-12, 1e-4), Rtol = s.logreal(1e-12, 1e-4);
	c.label(mode_name(mode));
	c.desc << m.name << " " << mode_name(mode) << " n=" << P.sys.n << " L h=" << P.L*P.g.dt << " t=" << P.g.t0 << " maxit " << maxit << " refresh " << refresh << " xtol " << xtol << " Rtol " << Rtol;
	Ode o = P.sys.ode();
	Solve S = solve_stages(mode, o, P.g.y0, P.g.t0, P.g.dt, sc, maxit, refresh, xtol, Rtol);
	c.nontrivial = S.ret != newton::SUCCESS;
	c.label(S.ret == newton::SUCCESS ? "success" : "failure");
	outcome(c, S, o, P.g.y0, P.g.t0, P.g.dt, sc, maxit, refresh, xtol, Rtol, 0, 0, 3*P.L);
}

PROP(far, 12000, 400000,
     "As the first check, but with a constant part of the slopes that makes the stages 1 to 10^8 long, so that damped iterations start with tiny increments, tolerances of 1e-6 to 100 for "
     "increments, and 1 to 300 iterations: success with the equations satisfied, or a failure. Non-trivial: the stages are at least 100 times the tolerance.")
{
	MethodInfo m = s.pick(irk_methods());
	Problem P = rand_problem(s, m, 0.3, 1, 3, 6);
	auto sc = irk::get_coefficients(m.code);
	int mode = s.below(4), refresh = s.chance(1, 3) ? 0 : 1 + s.below(5), maxit = 1 + s.below(300);
	double xtol = s.logreal(1e-6, 100), Rtol = s.logreal(1e-12, 1e-4), big = s.logreal(1, 1e8);
	vec push = rand_vec(s, P.sys.n, big/P.g.dt);
	c.label(mode_name(mode));
	c.desc << m.name << " " << mode_name(mode) << " n=" << P.sys.n << " L h=" << P.L*P.g.dt << " push*h " << show(vec(push*P.g.dt)) << " maxit " << maxit << " refresh " << refresh << " xtol " << xtol << " Rtol " << Rtol;
	Ode q = P.sys.ode(), o = q;
	o.f = [=](double t, const vec &y) { return vec(q.f(t, y) + push); };
	Solve S = solve_stages(mode, o, P.g.y0, P.g.t0, P.g.dt, sc, maxit, refresh, xtol, Rtol);
	c.nontrivial = inf_norm(push)*P.g.dt > 100*xtol;
	c.label(S.ret == newton::SUCCESS ? "success" : "failure");
	outcome(c, S, o, P.g.y0, P.g.t0, P.g.dt, sc, maxit, refresh, xtol, Rtol, 0, 0, P.L);
}

PROP(unsolvable, 10000, 300000,
     "Stage equations without solution (a parabola above the axis, or values that are not numbers) in all modes and iteration limits up to 100: a failure is reported. Non-trivial: always.")
{
	MethodInfo m = s.pick(irk_methods());
	auto sc = irk::get_coefficients(m.code);
	int n = 1 + s.below(3), kind = s.below(3), mode = s.below(4), maxit = 1 + s.below(100), refresh = s.below(4);
	double h = s.logreal(0.01, 1), K = s.logreal(30, 1e4)/h;
	vec y = rand_vec(s, n, 1);
	int bad = s.below(n);
	Ode o;
	// Z = h sum a f: with f = K (1 + z^2), no real solution once h K is large.
	o.f = [=](double, const vec &z) { vec r = -z; r(bad) = kind == 0 ? K*(1 + z(bad)*z(bad)) : kind == 1 ? NAN : (z(bad) > -1e300 ? INFINITY : 0); return r; };
	o.j = [=](double, const vec &z) { mat J = -arma::eye(n, n); if (kind == 0) J(bad, bad) = 2*K*z(bad); return J; };
	c.nontrivial = true;
	c.label(m.name); c.label(std::vector<std::string>{"parabola", "nan", "inf"}[kind]);
	c.desc << m.name << " " << mode_name(mode) << " n=" << n << " h=" << h << " kind " << kind << " maxit " << maxit << " refresh " << refresh;
	if (kind == 0 && n_stages(m) > 3) throw Discard(); // Solutions may exist in which stages have different signs.
	Solve S = solve_stages(mode, o, y, 0.3, h, sc, maxit, refresh, 1e-8, 1e-8);
	if (kind == 0 && S.ret == newton::SUCCESS) {
		// Let the equations themselves decide.
		double size, r = residual(o, y, 0.3, h, sc, S.Y, size);
		CHECK(r <= 1e-6*(1 + size*h*K), m.name << ": success with a residual of " << r);
		c.label("solution-exists");
		return;
	}
	CHECK(S.ret != newton::SUCCESS, m.name << ": success");
	CHECK(S.nf == o.nf && S.nj == o.nj, "reports " << S.nf << " and " << S.nj << " evaluations, made " << o.nf << " and " << o.nj);
	CHECK(o.nf <= (size_t)n_stages(m)*std::max(1, maxit), o.nf << " evaluations");
}

/// Attempts as seen by the right-hand side: the start and the latest stage time.
struct Attempt { double t, h; vec y; };
static std::vector<Attempt> attempts(const std::vector<Call> &tr, const vec &c)
{
	std::vector<Attempt> v;
	double cm = arma::max(c);
	for (size_t k = 0; k < tr.size(); ++k) if (tr[k].jac) {
		Attempt a{tr[k].t, 0, tr[k].y};
		for (size_t q = k + 1; q < tr.size() && q <= k + c.n_elem && !tr[q].jac; ++q) a.h = std::max(a.h, (tr[q].t - a.t)/cm);
		v.push_back(a);
	}
	return v;
}

PROP(integrator_retries, 15000, 500000,
     "Adaptive integrations with 2 to 8 iterations allowed and a first step up to L h = 30, so that stage solves fail: an attempt that is repeated from the same point uses a smaller step, "
     "the counters tell how many solves failed, and the run ends in success or at its step limit. Non-trivial: a stage solve failed.")
{
	std::vector<MethodInfo> v; for (auto &m : irk_methods()) if (m.embedded) v.push_back(m);
	MethodInfo m = s.pick(v);
	Problem P = rand_problem(s, m, 0.5, 1, 3, 5);
	P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
	P.g.adaptive = true; P.g.rtol = P.g.atol = s.logreal(1e-6, 1e-2);
	P.g.t1 = P.g.t0 + s.logreal(0.5, 5)/P.L; P.g.dt = std::min(P.g.t1 - P.g.t0, s.logreal(0.5, 30)/P.L);
	P.g.nopt = tight_newton(s.logreal(1e-9, 1e-5)); P.g.nopt.maxit = 2 + s.below(7); P.g.nopt.refresh_jac = 0;
	P.g.max_steps = 50;
	c.label(m.name); c.desc << m.name << " n=" << P.sys.n << " L=" << P.L << " [" << P.g.t0 << ", " << P.g.t1 << "] dt=" << P.g.dt << " tol=" << P.g.rtol << " newton " << P.g.nopt.tol << " maxit " << P.g.nopt.maxit;
	Ode o = P.sys.ode(); o.budget = 400000;
	std::vector<Call> tr; o.trace = &tr;
	Run r = run(o, P.g);
	CHECK(r.status == SUCCESS || r.status == ERROR_MAX_STEPS_EXCEEDED, m.name << ": status " << r.status);
	c.nontrivial = r.reject_newton > 0;
	auto sc = irk::get_coefficients(m.code);
	auto at = attempts(tr, sc.c);
	CHECK(at.size() == r.attempt, m.name << ": " << at.size() << " attempts seen, " << r.attempt << " reported");
	size_t repeats = 0;
	double fuzz = 0;
	for (size_t k = 1; k < at.size(); ++k) {
		if (at[k].t != at[k-1].t) continue;
		++repeats;
		CHECK(same_vec(at[k].y, at[k-1].y), m.name << ": attempt " << k << " starts from another value at the same time");
		fuzz = 1e-14*(1 + std::fabs(at[k].t));
		CHECK(at[k].h < at[k-1].h*0.999 + fuzz, m.name << ": attempt " << k << " repeats one with step " << at[k-1].h << " with step " << at[k].h);
	}
	CHECK(repeats == r.reject_err + r.reject_newton, m.name << ": " << repeats << " repeated attempts, " << r.reject_err << " + " << r.reject_newton << " rejections");
	CHECK(r.nsuccess + r.reject_newton == r.attempt, m.name << ": " << r.nsuccess << " solves succeeded and " << r.reject_newton << " failed of " << r.attempt);
}

PROP(integrator_constant, 10000, 300000,
     "Constant steps, where from a random time on the stage equations have no solution (not a number): an error status, and the trajectory up to there is that of the unchanged problem, bit for bit. "
     "Non-trivial: at least one step before.")
{
	MethodInfo m = s.pick(irk_methods());
	Problem P = rand_problem(s, m, 0.4, 8, 3, 5);
	P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
	P.g.nopt = tight_newton(1e-9); P.g.nopt.maxit = 60;
	Ode o = P.sys.ode();
	Run want = run(o, P.g);
	CHECK(want.status == SUCCESS, m.name << ": status " << want.status);
	size_t steps = want.t.size() - 1, bad = s.below(steps);
	// A last step of rounding size has its stages at the time it starts at.
	if (want.t[bad+1] - want.t[bad] < 1e-6*P.g.dt) throw Discard();
	double T = 0.5*(want.t[bad] + want.t[bad+1]);
	// The slope at the start of the step may still be fine; every method has a stage in the second half.
	Ode p = o;
	int q = s.below(P.sys.n);
	p.f = [=](double t, const vec &y) { vec r = o.f(t, y); if (t > T) r(q) = NAN; return r; };
	c.label(m.name); c.desc << m.name << " n=" << P.sys.n << " L=" << P.L << " step " << bad << " of " << steps << " fails";
	c.nontrivial = bad > 0;
	Run r = run(p, P.g);
	CHECK(r.status != SUCCESS, m.name << ": success although step " << bad << " cannot be made");
	CHECK(r.t.size() == bad + 1 && r.y.size() == bad + 1, m.name << ": " << r.t.size() << " points although step " << bad << " cannot be made");
	for (size_t k = 0; k <= bad; ++k) CHECK(same_bits(r.t[k], want.t[k]) && same_vec(r.y[k], want.y[k]), m.name << ": point " << k << " differs");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C28"); }
