// C11: symmetries.
#include "../run.hpp"
using namespace pbt;

/// Exact scalings: every number of the second run is the scaled one of the first, bit for bit.
static void exact(const Run &a, const Run &b, double kt, double ky, const char *name, const char *what)
{
	CHECK(a.status == b.status && a.attempt == b.attempt && a.reject_err == b.reject_err
	      && a.reject_newton == b.reject_newton && a.fun == b.fun && a.jac == b.jac, name << " " << what
	      << ": " << brief(a) << "; scaled " << brief(b));
	CHECK(a.t.size() == b.t.size(), name << " " << what << ": " << a.t.size() << " and " << b.t.size() << " points");
	for (size_t i = 0; i < a.t.size(); ++i) {
		CHECK(a.t[i]*kt == b.t[i], name << " " << what << ": time " << i << " is " << b.t[i] << " instead of " << a.t[i]*kt);
		CHECK(same_vec(vec(a.y[i]*ky), b.y[i]), name << " " << what << ": value " << i << " is " << show(b.y[i])
		      << " instead of " << show(vec(a.y[i]*ky)));
		if (i) {
			CHECK(same_vec(vec(a.stages[i]*(ky/kt)), b.stages[i]), name << " " << what << ": stages " << i);
			CHECK(same_vec(vec(a.err_est[i]*ky), b.err_est[i]), name << " " << what << ": error vector " << i
			      << " is " << show(b.err_est[i]) << " instead of " << show(vec(a.err_est[i]*ky)));
			CHECK(a.err[i] == b.err[i], name << " " << what << ": error norm " << i << " is " << b.err[i] << " instead of " << a.err[i]);
		}
	}
}

PROP(scale_time, 30000, 1000000,
     "Any integration and the same in a unit of time 2^k, k mostly from -20 to 20, at times from -200 to 200: bitwise the scaled result. "
     "Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c);
	int e = s.chance(3, 4) ? s.range(-20, 20) : s.range(-200, 200);
	double k = std::ldexp(1.0, e);
	c.desc << ", time unit 2^" << e;
	Ode o = P.sys.ode(), o2;
	SmoothSystem S = P.sys;
	// t = k*tau
	o2.f = [S, k](double t, const vec &y) { return vec(k*S.fun(k*t, y)); };
	o2.j = [S, k](double t, const vec &y) { return mat(k*S.jac(k*t, y)); };
	Cfg g = P.g;
	g.t0 /= k; g.t1 /= k; g.dt /= k; g.max_dt /= k;
	Run a = run(o, P.g), b = run(o2, g);
	c.nontrivial = a.t.size() > 3 && e != 0;
	exact(a, b, 1/k, 1, P.g.m.name, "time");
}

PROP(scale_values, 30000, 1000000,
     "Any integration and the same in a unit of values 2^k (absolute tolerance and tolerances of the stage "
     "solver too), k mostly from -20 to 20, at times from -200 to 200: bitwise the scaled result. Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c);
	int e = s.chance(3, 4) ? s.range(-20, 20) : s.range(-200, 200);
	double k = std::ldexp(1.0, e);
	c.desc << ", value unit 2^" << e;
	Ode o = P.sys.ode(), o2;
	SmoothSystem S = P.sys;
	// y = k*z
	o2.f = [S, k](double t, const vec &y) { return vec(S.fun(t, vec(k*y))/k); };
	o2.j = [S, k](double t, const vec &y) { return S.jac(t, vec(k*y)); };
	Cfg g = P.g;
	g.y0 /= k; g.atol /= k; g.nopt.tol /= k; g.nopt.dx_delta /= k;
	Run a = run(o, P.g), b = run(o2, g);
	c.nontrivial = a.t.size() > 3 && e != 0;
	exact(a, b, 1, 1/k, P.g.m.name, "values");
}

/// Equality up to rounding and the accuracy of the stage solver, amplified by the problem.
static void close(const Run &a, const Run &b, double shift, const std::function<vec(const vec &)> &map,
                  const Cfg &g, const char *what, bool &compared)
{
	const char *name = g.m.name;
	CHECK(a.status == SUCCESS && b.status == SUCCESS, name << " " << what << ": status " << a.status << " and " << b.status);
	compared = a.t.size() == b.t.size();
	double big = 0;
	for (auto &y : a.y) big = std::max(big, inf_norm(y));
	if (!compared) {
		// A decision that hung on a rounding error.
		CHECK(g.adaptive, name << " " << what << ": " << a.t.size() << " and " << b.t.size() << " points with constant steps");
		double na = a.t.size(), nb = b.t.size();
		CHECK(std::fabs(na - nb) <= 3 + 0.25*na, name << " " << what << ": " << na << " and " << nb << " points");
		double d = inf_norm(vec(map(a.y.back()) - b.y.back()));
		CHECK(d <= 3000*(g.atol + g.rtol*big), name << " " << what << ": ends differ by " << d);
		return;
	}
	double lim, ttol = 1e-13*(1 + std::fabs(g.t0) + std::fabs(shift));
	if (!g.adaptive) lim = (g.m.implicit ? 1e3*g.nopt.tol : 1e-10)*(1 + big);
	// Step sizes follow the rounding errors of tiny estimates, and the number of Newton iterations.
	else lim = (g.m.implicit ? 100 : 200)*(g.atol + g.rtol*big) + 1e-9;
	for (size_t i = 0; i < a.t.size(); ++i) {
		if (g.adaptive && i > 0 && i + 1 < a.t.size()) continue;
		CHECK(std::fabs(a.t[i] + shift - b.t[i]) <= ttol, name << " " << what << ": time " << i << " is " << b.t[i]
		      << " instead of " << a.t[i] + shift);
		double d = inf_norm(vec(map(a.y[i]) - b.y[i]));
		CHECK(d <= lim, name << " " << what << ": value " << i << " is " << show(b.y[i])
		      << " instead of " << show(map(a.y[i])) << ", limit " << lim);
	}
}

static void note(Case &c, const Run &a, bool compared)
{
	c.nontrivial = a.t.size() > 3 && compared;
	if (!compared) c.label("other-step-count");
}

PROP(shift_time, 20000, 600000,
     "Any integration and the same with the origin of time elsewhere; with constant steps on a dyadic grid the times bitwise. "
     "Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c, -1, false);
	bool dyadic = !P.g.adaptive && s.flag();
	double sh = s.flag() ? s.real(-100, 100) : (double)s.range(-64, 64);
	if (dyadic) {
		P.g.dt = std::ldexp(1.0, (int)std::floor(std::log2(P.g.dt)));
		P.g.t0 = s.range(-16, 16);
		P.g.t1 = P.g.t0 + P.g.dt*(1 + s.below(12));
		sh = s.range(-64, 64);
		c.label("dyadic");
	} else if (!P.g.adaptive) {
		// No end of a step near the end of the interval.
		P.g.t1 = P.g.t0 + P.g.dt*(s.below(8) + s.real(0.1, 0.9));
	}
	c.desc << ", shift " << sh;
	Ode o = P.sys.ode(), o2;
	SmoothSystem S = P.sys;
	o2.f = [S, sh](double t, const vec &y) { return S.fun(t - sh, y); };
	o2.j = [S, sh](double t, const vec &y) { return S.jac(t - sh, y); };
	Cfg g = P.g;
	g.t0 += sh; g.t1 += sh;
	Run a = run(o, P.g), b = run(o2, g);
	bool cmp = true;
	if (dyadic) {
		CHECK(a.t.size() == b.t.size(), P.g.m.name << ": " << a.t.size() << " and " << b.t.size() << " points on a dyadic grid");
		for (size_t i = 0; i < a.t.size(); ++i) CHECK(a.t[i] + sh == b.t[i], P.g.m.name << ": time " << i << " is " << b.t[i]
		                                              << " instead of " << a.t[i] + sh);
	}
	close(a, b, sh, [](const vec &y) { return y; }, g, "shifted", cmp);
	note(c, a, cmp);
}

static Run mixed(const Problem &P, const mat &Q, const Cfg &g)
{
	SmoothSystem S = P.sys;
	Ode o;
	o.f = [S, Q](double t, const vec &y) { return vec(Q*S.fun(t, vec(Q.t()*y))); };
	o.j = [S, Q](double t, const vec &y) { return mat(Q*S.jac(t, vec(Q.t()*y))*Q.t()); };
	Cfg h = g;
	h.y0 = Q*g.y0;
	return run(o, h);
}

PROP(permute, 20000, 600000,
     "Any integration of at least 2 equations and the same with the equations permuted. Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c, -1, false);
	int n = P.sys.n;
	if (n < 2) throw Discard();
	mat Q = arma::eye(n, n);
	for (int k = 0; k < n; ++k) Q.swap_rows(s.below(n), s.below(n));
	Ode o = P.sys.ode();
	Run a = run(o, P.g), b = mixed(P, Q, P.g);
	bool cmp;
	close(a, b, 0, [&](const vec &y) { return vec(Q*y); }, P.g, "permuted", cmp);
	note(c, a, cmp);
}

PROP(rotate, 20000, 600000,
     "Any integration of at least 2 equations with absolute tolerance only, and the same with the equations mixed "
     "orthogonally. Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c, -1, false);
	int n = P.sys.n;
	if (n < 2) throw Discard();
	P.g.rtol = 0;
	mat Q = rand_orth(s, n);
	Ode o = P.sys.ode();
	Run a = run(o, P.g), b = mixed(P, Q, P.g);
	bool cmp;
	close(a, b, 0, [&](const vec &y) { return vec(Q*y); }, P.g, "rotated", cmp);
	note(c, a, cmp);
}

PROP(stack, 20000, 600000,
     "Any integration and 2 to 5 independent copies of the system integrated as one: every copy as the original. "
     "Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c, -1, false);
	int n = P.sys.n, k = 2 + s.below(4);
	c.desc << ", " << k << " copies";
	SmoothSystem S = P.sys;
	Ode o = P.sys.ode(), o2;
	o2.f = [S, n, k](double t, const vec &y) { vec r(n*k);
		for (int i = 0; i < k; ++i) r.subvec(i*n, i*n + n - 1) = S.fun(t, vec(y.subvec(i*n, i*n + n - 1)));
		return r; };
	o2.j = [S, n, k](double t, const vec &y) { mat J(n*k, n*k, arma::fill::zeros);
		for (int i = 0; i < k; ++i) J.submat(i*n, i*n, i*n + n - 1, i*n + n - 1) = S.jac(t, vec(y.subvec(i*n, i*n + n - 1)));
		return J; };
	Cfg g = P.g;
	g.y0 = arma::repmat(P.g.y0, k, 1);
	Run a = run(o, P.g), b = run(o2, g);
	bool cmp;
	close(a, b, 0, [&](const vec &y) { return vec(arma::repmat(y, k, 1)); }, P.g, "stacked", cmp);
	note(c, a, cmp);
}

PROP(append_time, 20000, 600000,
     "Any constant-step integration of a time-dependent system and the same with the time as one more equation: same "
     "values, and the extra one is the time. Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c, -1, false);
	P.g.adaptive = false;
	P.g.t0 = s.real(-2, 2);
	P.g.t1 = P.g.t0 + P.g.dt*s.real(1, 8);
	if (P.g.m.implicit) P.g.dt = std::min(P.g.dt, 0.4/P.L);
	else P.g.dt = std::min(P.g.dt, 0.6/P.L);
	P.g.t1 = P.g.t0 + P.g.dt*s.real(1, 8);
	int n = P.sys.n;
	SmoothSystem S = P.sys;
	Ode o = P.sys.ode(), o2;
	o2.f = [S, n](double, const vec &y) { vec r(n + 1); r.subvec(0, n - 1) = S.fun(y(n), vec(y.subvec(0, n - 1))); r(n) = 1; return r; };
	o2.j = [S, n](double, const vec &y) {
		mat J(n + 1, n + 1, arma::fill::zeros);
		vec x = y.subvec(0, n - 1);
		J.submat(0, 0, n - 1, n - 1) = S.jac(y(n), x);
		double h = 1e-6;
		J.submat(0, n, n - 1, n) = (S.fun(y(n) + h, x) - S.fun(y(n) - h, x))/(2*h);
		return J; };
	Cfg g = P.g;
	g.y0 = vec(n + 1);
	g.y0.subvec(0, n - 1) = P.g.y0;
	g.y0(n) = P.g.t0;
	Run a = run(o, P.g), b = run(o2, g);
	bool cmp = true;
	size_t i = 0;
	for (auto &y : b.y) {
		CHECK(std::fabs(y(n) - b.t[i]) <= 1e-11*(1 + P.g.nopt.tol/1e-11), P.g.m.name << ": y' = 1 has value " << y(n) << " at t = " << b.t[i]);
		y = vec(y.subvec(0, n - 1));
		++i;
	}
	close(a, b, 0, [](const vec &y) { return y; }, P.g, "with time appended", cmp);
	note(c, a, cmp);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C11"); }
