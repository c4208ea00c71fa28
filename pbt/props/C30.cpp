// C30: right-hand sides that are not defined everywhere.
#include "../exact.hpp"
using namespace pbt;

/// What a right-hand side gives where it is not defined.
static double undefined_value(int kind)
{
	switch (kind) {
	case 0: return std::numeric_limits<double>::quiet_NaN();
	case 1: return std::numeric_limits<double>::infinity();
	default: return -std::numeric_limits<double>::infinity();
	}
}

static bool finite_run(const Run &r, std::string &what)
{
	auto vf = [](const std::vector<vec> &l) { for (auto &v : l) if (!v.is_finite()) return false; return true; };
	if (!vf(r.y)) what = "value";
	else if (!vf(r.err_est)) what = "error vector";
	else if (!vf(r.stages)) what = "stage";
	else { what = "time or error"; for (double x : r.t) if (!std::isfinite(x)) return false;
		for (double x : r.err) if (!std::isfinite(x)) return false;
		return true; }
	return false;
}

/// Positive components that may not become zero: y' = u' - k*u*log(y/u).
static ExactProblem positive_problem(Source &s, int n, double L)
{
	ExactProblem P;
	vec z(n), a(n), w(n), p(n), k(n);
	for (int i = 0; i < n; ++i) { z(i) = s.real(0.5, 2); a(i) = s.real(0.3, 1.5); w(i) = L*s.real(0.3, 1)/(1 + a(i)); p(i) = s.real(-3, 3); k(i) = L*s.unit()*0.5; }
	w(0) = L/(1 + a(0));
	auto u = [=](double t) { return vec(z%arma::exp(a%arma::sin(w*t + p))); };
	P.n = n; P.rate = L;
	P.sol = u;
	P.f = [=](double t, const vec &y) { vec v = u(t);
		return vec(v%a%w%arma::cos(w*t + p) - k%v%arma::log(y/v)); };
	P.j = [=](double t, const vec &y) { return mat(arma::diagmat(vec(-k%u(t)/y))); };
	P.what = "positive";
	return P;
}

PROP(domain, 20000, 600000,
     "Embedded method, adaptive, on a problem with known solution (1 to 4 equations, forced, autonomous or positive) whose "
     "right-hand side is NaN or infinite, in one component or in all, outside of a region around the solution (a tube "
     "of radius 0.05 (implicit methods 0.4) to 1, or positive values; sometimes much smaller at the initial time), any initial step guess: ends successfully, reports finite values only, and is as "
     "accurate as the tolerance asks (too large an error has to show with four initial steps). Non-trivial: the undefined region was entered.")
{
	MethodInfo m = s.pick(all_embedded());
	Cfg g;
	g.m = m;
	int n = 1 + s.below(4);
	double L = s.logreal(0.1, 10);
	g.t0 = s.flag() ? 0 : s.real(-20, 20);
	int shape = s.below(3);
	ExactProblem P;
	if (shape == 0) {
		vec d(n);
		for (int i = 0; i < n; ++i) d(i) = L*s.unit();
		P = forced_problem(s, n, L, d);
	} else if (shape == 1) P = autonomous_problem(s, n, L, g.t0, false);
	else P = positive_problem(s, n, L);
	n = P.n;
	double T = s.logreal(1, m.implicit ? 8 : 20), radius = s.logreal(m.implicit ? 0.4 : 0.05, 1);
	g.t1 = g.t0 + T/L;
	g.adaptive = true;
	g.dt = s.chance(1, 8) ? 1e-6 : s.logreal(0.4, 8)/L;
	g.rtol = g.atol = s.logreal(m.code == erk::BOGACKI_SHAMPINE_32 || m.code == irk::RADAU_IIA_32
		|| m.code == irk::GAUSS_LEGENDRE_42 ? 1e-6 : 1e-8, 1e-5);
	g.nopt = tight_newton(std::max(1e-12, 1e-3*g.atol));
	g.nopt.maxit = 10 + s.below(30);
	g.y0 = P.sol(g.t0);
	int kind = s.below(3);
	bool all = s.flag();
	// At the very start a much smaller region, which only estimates of the error leave.
	double narrow = s.chance(1, 3) ? s.logreal(1e-4, 0.1) : radius;
	double Tn = g.t0 + 1e-9/L;
	c.label(narrow < radius ? "narrow start" : "same start");
	c.desc << m.name << " " << P.what << " n=" << n << " L=" << L << " T*L=" << T << " t0=" << g.t0 << " dt=" << g.dt << " tol=" << g.rtol
	       << " radius=" << radius << " at the start " << narrow << " undefined: " << undefined_value(kind) << (all ? " (all components)" : "");
	c.label(m.name);
	c.label(P.what.substr(0, 6));
	unsigned long long outside = 0;
	auto defined = [&](double t, const vec &y) {
		if (!y.is_finite()) return false;
		if (t <= Tn && narrow < radius && inf_norm(vec(y - g.y0)) > narrow) return false;
		return shape == 2 ? y.min() > 0 : inf_norm(vec(y - P.sol(t))) <= radius;
	};
	Ode o;
	o.f = [&](double t, const vec &y) {
		if (defined(t, y)) return P.f(t, y);
		++outside;
		vec r = y.is_finite() && shape != 2 ? P.f(t, y) : vec(arma::zeros(n));
		if (all) r.fill(undefined_value(kind)); else r(outside % n) = undefined_value(kind);
		return r;
	};
	o.j = [&](double t, const vec &y) { mat J = P.j(t, y); if (!defined(t, y)) J.fill(undefined_value(0)); return J; };
	auto integrate = [&](const Cfg &h) { Ode q = o; return run(q, h); };
	Run r = integrate(g);
	c.nontrivial = outside > 0;
	c.label(outside == 0 ? "never outside" : outside < 10 ? "outside <10" : "outside >=10");
	CHECK(r.status == SUCCESS && std::fabs(r.t.back() - g.t1) <= 1e-12*(1 + std::fabs(g.t1)), m.name << ": " << brief(r));
	std::string what;
	CHECK(finite_run(r, what), m.name << ": reports a " << what << " that is not finite");
	for (size_t i = 0; i < r.t.size(); ++i)
		CHECK(defined(r.t[i], r.y[i]), m.name << ": accepted a value outside: " << show(r.y[i]) << " at t = " << r.t[i]);
	size_t w;
	double q = error_ratio(P, r, g.atol, g.rtol, w), bound = m.implicit ? 50 : 500;
	c.label(bucket("ratio", q));
	for (int k = 0; q > bound && k < 3; ++k) {
		Cfg h = g;
		h.dt = std::min(g.dt, g.t1 - g.t0)*(k == 0 ? 0.77 : k == 1 ? 0.61 : 0.39);
		size_t w2;
		q = std::min(q, error_ratio(P, integrate(h), g.atol, g.rtol, w2));
		c.label("tried another initial step");
	}
	CHECK(q <= bound, m.name << ": error " << q << " times the tolerance, also with other initial steps");
}

PROP(ends, 10000, 400000,
     "Problem of which the right-hand side is undefined (NaN, infinite) after some time, adaptive (methods with a stage at the end of the step; with a step limit) or "
     "constant steps of any method: adaptive runs report finite values at defined times only, and say that they did not arrive; "
     "implicit runs with constant steps stop with an error exactly at the first step that needs an undefined value; explicit ones never "
     "make up values after a step that is undefined throughout; what comes before is the same as without the undefined part. Non-trivial: some steps came before.")
{
	bool adaptive = s.flag();
	MethodInfo m = s.pick(adaptive ? all_embedded() : all_methods());
	vec cc = m.implicit ? irk::get_coefficients(m.code).c : erk::get_coefficients(m.code).c;
	if (adaptive && m.implicit && std::fabs(cc.max() - 1) > 1e-12) throw Discard();
	// Explicit: the first stage of the next step is at the end of this one.
	Cfg g;
	g.m = m;
	int n = 1 + s.below(3);
	double L = s.logreal(0.1, 10);
	g.t0 = s.flag() ? 0 : s.real(-20, 20);
	vec d(n);
	for (int i = 0; i < n; ++i) d(i) = L*s.unit();
	ExactProblem P = forced_problem(s, n, L, d);
	n = P.n;
	g.adaptive = adaptive;
	g.y0 = P.sol(g.t0);
	int kind = s.below(3);
	double bad = undefined_value(kind);
	c.label(m.name);
	if (adaptive) {
		double T = s.logreal(0.5, 8);
		g.t1 = g.t0 + T/L;
		double tc = g.t0 + (g.t1 - g.t0)*s.real(0.1, 0.95);
		g.rtol = g.atol = s.logreal(1e-7, 1e-4);
		g.nopt = tight_newton(1e-3*g.atol);
		g.nopt.maxit = 10 + s.below(20);
		g.dt = s.chance(1, 4) ? 1e-6 : (g.t1 - g.t0)*s.logreal(1e-2, 2.0);
		g.max_steps = s.range(1, 60);
		c.desc << m.name << " adaptive n=" << n << " L=" << L << " interval " << g.t0 << " " << g.t1 << " undefined after " << tc << " (" << bad << ") limit "
		       << g.max_steps << " tol=" << g.rtol << " dt=" << g.dt;
		Ode o;
		o.f = [&](double t, const vec &y) { vec r = P.f(t, y); if (t > tc) r(0) = bad; return r; };
		o.j = P.j;
		Run r = run(o, g);
		CHECK(r.status == ERROR_MAX_STEPS_EXCEEDED, m.name << ": " << brief(r) << " though the end is undefined");
		std::string what;
		CHECK(finite_run(r, what), m.name << ": reports a " << what << " that is not finite");
		// Explicit methods may arrive after tc with a last stage before it, but cannot go on from there.
		size_t over = 0;
		for (double t : r.t) over += t > tc;
		CHECK(over <= (m.implicit ? 0u : 1u), m.name << ": " << over << " times after " << tc);
		c.nontrivial = r.t.size() > 3;
		return;
	}
	int steps = 2 + s.below(10), at = s.below(steps);
	g.dt = s.logreal(0.02, 0.5)/L;
	g.t1 = g.t0 + (steps - s.real(0.01, 0.9))*g.dt;
	double tc = g.t0 + (at + s.real(0.02, 0.98))*g.dt;
	g.nopt = tight_newton(1e-10);
	c.desc << m.name << " constant n=" << n << " L=" << L << " t0=" << g.t0 << " dt=" << g.dt << " steps=" << steps << " undefined after step " << (tc - g.t0)/g.dt << " (" << bad << ")";
	Ode o, whole = P.ode();
	o.f = [&](double t, const vec &y) { vec r = P.f(t, y); if (t > tc) r(0) = bad; return r; };
	o.j = P.j;
	Run r = run(o, g), w = run(whole, g);
	CHECK(w.status == SUCCESS && (int)w.t.size() == steps + 1, m.name << ": " << brief(w) << " for " << steps << " steps");
	// The first step that needs an undefined value.
	int first = 0;
	for (; first < steps; ++first) {
		double h = w.t[first + 1] - w.t[first], last = w.t[first] + cc.max()*h;
		if (std::fabs(last - tc) < 1e-9*(h + std::fabs(tc))) throw Discard();
		if (last > tc) break;
	}
	c.nontrivial = first > 0;
	int upto = std::min(first, (int)r.t.size() - 1);
	for (int i = 0; i <= upto; ++i)
		CHECK(r.t[i] == w.t[i] && same_vec(r.y[i], w.y[i]), m.name << ": value " << i << " depends on what comes later");
	if (m.implicit) {
		if (first == steps) { CHECK(r.status == SUCCESS && (int)r.t.size() == steps + 1, m.name << ": " << brief(r) << " without need of undefined values"); return; }
		CHECK(r.status == GENERAL_ERROR, m.name << ": " << brief(r) << ", step " << first << " is undefined");
		CHECK((int)r.t.size() == first + 1, m.name << ": " << r.t.size() << " points, step " << first << " is undefined");
		std::string what;
		CHECK(finite_run(r, what), m.name << ": reports a " << what << " that is not finite");
	} else {
		CHECK((int)r.t.size() == steps + 1, m.name << ": " << r.t.size() << " points for " << steps << " steps");
		for (int i = first + 2; i <= steps; ++i)
			if (r.t[i - 1] > tc) CHECK(!std::isfinite(r.y[i](0)), m.name << ": made up the value " << show(r.y[i]) << " of step " << i);
	}
}

PROP(interval, 40000, 1200000,
     "Any Runge-Kutta method, constant or adaptive, dividing and not dividing steps, steps larger than the interval, step limits: "
     "the right-hand side and its Jacobian are asked for at times within the interval only (up to rounding), and each reported time is in it. Non-trivial: at least 2 steps.")
{
	Problem P = any_problem(s, c);
	if (s.chance(1, 6)) P.g.dt = (P.g.t1 - P.g.t0)*s.real(0.9, 5);
	Ode o = P.sys.ode();
	std::vector<Call> tr;
	o.trace = &tr;
	o.budget = 200000;
	Run r = run(o, P.g);
	c.nontrivial = r.t.size() > 2;
	double fuzz = 8*2.3e-16*std::max(std::fabs(P.g.t0), std::fabs(P.g.t1));
	for (auto &x : tr)
		CHECK(x.t >= P.g.t0 - fuzz && x.t <= P.g.t1 + fuzz, P.g.m.name << ": asked for the " << (x.jac ? "Jacobian" : "right-hand side")
		      << " at t = " << x.t << ", the interval is " << P.g.t0 << " to " << P.g.t1);
	for (double t : r.t) CHECK(t >= P.g.t0 && t <= P.g.t1 + fuzz, P.g.m.name << ": reports t = " << t << ", the interval is " << P.g.t0 << " to " << P.g.t1);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C30"); }
