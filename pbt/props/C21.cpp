// C21: BDF.
#include "../multi.hpp"
using namespace pbt;

/// Every value after the starting ones solves the formula at its own time.
static void check_formula(const Ode &o, const MCfg &g, const MRun &r, double dt, double L)
{
	vec w = bdf_weights(g.order);
	for (size_t k = n_start(g) - 1; k + 1 < r.t.size(); ++k) {
		vec f = o.f(r.t[k+1], r.y[k+1]), res = -dt*f;
		double big = 0;
		for (int i = 0; i <= g.order; ++i) { res += w(i)*r.y[k+1-i]; big = std::max(big, std::fabs(w(i))*inf_norm(r.y[k+1-i])); }
		// The last increment of the solve is below 1e-10, which leaves a residual quadratically smaller.
		double lim = 1e-12*(1 + 10*big + 10*dt*inf_norm(f)) + 10*time_fuzz(r.t[k], L)*(1 + dt*L)*(1 + inf_norm(f));
		double d = inf_norm(res);
		CHECK(d <= lim, "BDF-" << g.order << ": value " << k + 1 << " of " << r.t.size() << ", " << show(r.y[k+1]) << " at t = " << r.t[k+1] << ", leaves a residual of " << d << " > " << lim);
	}
}

PROP(formula, 14000, 400000,
     "Orders 1 to 6, random nonlinear non-autonomous systems, starting times and step sizes, up to 12 steps after the starting values, end on or off the grid: every "
     "value solves the formula from the differentiated interpolant of the values (weights from moment equations), the grid is uniform until the end. "
     "Non-trivial: order at least 2 and 2 formula steps.")
{
	MProblem P = multi_problem(s, c, true, 12);
	Ode o = P.sys.ode();
	vec y0 = P.g.y0;
	MRun r = mrun(o, P.g);
	CHECK(same_vec(y0, P.g.y0), "the initial value was modified");
	check_grid(P.g, r, "BDF");
	c.nontrivial = P.g.order >= 2 && (int)r.t.size() >= n_start(P.g) + 2;
	check_formula(o, P.g, r, P.g.dt, P.L);
}

PROP(stiff, 4000, 100000,
     "The same with one or more very fast decaying components (rates up to 1e5 times the inverse step), where the equations are far from explicit. Non-trivial: 2 formula steps.")
{
	MCfg g; g.bdf = true;
	g.order = 1 + s.below(6);
	int n = 1 + s.below(4);
	double L = s.logreal(0.2, 5);
	g.t0 = s.chance(1, 2) ? 0 : s.real(-20, 20);
	g.dt = s.logreal(0.01, 0.1)/L;
	int steps = n_start(g) + 1 + s.below(15);
	g.t1 = g.t0 + (steps - 0.5)*g.dt;
	vec d(n);
	for (int i = 0; i < n; ++i) d(i) = L + s.logreal(1e-3, 1e4)/g.dt;
	ExactProblem P = forced_problem(s, n, L, d);
	g.y0 = P.sol(g.t0);
	c.desc << "BDF-" << g.order << " n=" << n << " t0=" << g.t0 << " dt=" << g.dt << " rates " << show(d);
	c.label("BDF-" + std::to_string(g.order));
	Ode o = P.ode();
	o.budget = 1000000;
	MRun r = mrun(o, g);
	check_grid(g, r, "BDF");
	c.nontrivial = (int)r.t.size() >= n_start(g) + 2;
	vec w = bdf_weights(g.order);
	for (size_t k = n_start(g) - 1; k + 1 < r.t.size(); ++k) {
		vec res = -g.dt*o.f(r.t[k+1], r.y[k+1]);
		for (int i = 0; i <= g.order; ++i) res += w(i)*r.y[k+1-i];
		double lim = 1e-9*(1 + arma::max(d)*g.dt);
		CHECK(inf_norm(res) <= lim, "BDF-" << g.order << ": value " << k + 1 << " leaves a residual of " << inf_norm(res) << " > " << lim);
		// Follows the solution.
		double e = inf_norm(vec(P.sol(r.t[k+1]) - r.y[k+1]));
		CHECK(e <= 1e-6 + 50*n*std::pow(L*g.dt, g.order), "BDF-" << g.order << ": error " << e << " at value " << k + 1);
	}
}

PROP(nonlinear, 6000, 200000,
     "Rates that grow exponentially or with the cube of the distance from a moving equilibrium (monotone: the formula has one solution, and Newton's method reaches it from "
     "anywhere, in up to some hundred iterations), with steps in which the equilibrium moves far, 1 to 3 equations mixed by a rotation or independent, orders 1 to 6: every "
     "value solves the formula, and the end is reached. Non-trivial: 2 formula steps.")
{
	MCfg g; g.bdf = true;
	g.order = 1 + s.below(6);
	int n = 1 + s.below(3), kind = s.below(2);
	g.t0 = s.chance(1, 2) ? 0 : s.real(-20, 20);
	g.dt = s.logreal(0.01, 1);
	double far = s.real(0.3, 4), w = s.logreal(0.1, 1.5)/g.dt, a = s.real(0.5, 2);
	vec K(n), ph(n);
	for (int i = 0; i < n; ++i) { K(i) = s.logreal(0.1, 30)/g.dt; ph(i) = s.real(-3, 3); }
	mat Q = s.flag() ? rand_orth(s, n) : mat(arma::eye(n, n));
	int steps = n_start(g) + 1 + s.below(10);
	g.t1 = g.t0 + (steps - 0.5)*g.dt;
	double t0 = g.t0;
	auto eq = [=](double t) { return vec(far*arma::sin(w*(t - t0) + ph)); };
	Ode o;
	o.f = [=](double t, const vec &y) { vec e = Q.t()*y - eq(t); return vec(Q*vec(-K%(kind ? vec(arma::exp(a*e) - 1) : vec(e + a*e%e%e)))); };
	o.j = [=](double t, const vec &y) { vec e = Q.t()*y - eq(t); return mat(Q*arma::diagmat(vec(-K%(kind ? vec(a*arma::exp(a*e)) : vec(1 + 3*a*e%e))))*Q.t()); };
	o.budget = 4000000;
	g.y0 = Q*eq(g.t0);
	c.desc << "BDF-" << g.order << (kind ? " exponential" : " cubic") << " n=" << n << " t0=" << g.t0 << " dt=" << g.dt << " amplitude " << far << " angle per step " << w*g.dt << " a=" << a
	       << " K*dt " << show(vec(K*g.dt)) << " steps " << steps;
	c.label("BDF-" + std::to_string(g.order));
	c.label(kind ? "exponential" : "cubic");
	MRun r = mrun(o, g);
	CHECK(r.status == SUCCESS, "BDF-" << g.order << ": status " << r.status << " after " << r.t.size() << " values of " << steps + 1);
	check_grid(g, r, "BDF");
	c.nontrivial = (int)r.t.size() >= n_start(g) + 2;
	vec wt = bdf_weights(g.order);
	for (size_t k = n_start(g) - 1; k + 1 < r.t.size(); ++k) {
		vec f = o.f(r.t[k+1], r.y[k+1]), res = -g.dt*f;
		double big = 0;
		for (int i = 0; i <= g.order; ++i) { res += wt(i)*r.y[k+1-i]; big = std::max(big, std::fabs(wt(i))*inf_norm(r.y[k+1-i])); }
		double slope = g.dt*arma::abs(o.j(r.t[k+1], r.y[k+1])).max();
		double lim = 1e-8*(1 + slope) + 1e-12*(big + g.dt*inf_norm(f)) + 10*time_fuzz(r.t[k+1], w*far*4)*(1 + slope);
		CHECK(inf_norm(res) <= lim, "BDF-" << g.order << ": value " << k + 1 << ", " << show(r.y[k+1]) << " at t = " << r.t[k+1] << ", leaves a residual of " << inf_norm(res) << " > " << lim);
	}
}

PROP(starting_values, 4000, 120000,
     "The values at the first grid points, as many as the order, against the true solution (reference Gauss method of order 14 in small steps), within the tolerance of the "
     "start-up integrations (1e-9). Non-trivial: order at least 2.")
{
	MProblem P = multi_problem(s, c, true, 2);
	Ode o = P.sys.ode();
	MRun r = mrun(o, P.g);
	c.nontrivial = P.g.order >= 2;
	vec y = P.g.y0;
	for (int k = 1; k <= P.g.order; ++k) {
		if (!advance(o, r.t[k-1], y, P.g.dt, P.L)) throw Discard();
		double d = inf_norm(vec(y - r.y[k])), lim = 5e-8*k*(1 + inf_norm(y)) + 10*k*time_fuzz(r.t[k], P.L)*(1 + P.L);
		CHECK(d <= lim, "BDF-" << P.g.order << ": starting value " << k << " is " << show(r.y[k]) << ", the solution " << show(y) << ", off by " << d);
	}
}

PROP(polynomials, 8000, 200000,
     "Solutions that are polynomials of degree up to the order, without or with linear and cubic coupling to deviations from them: every value is exact up to the accuracy "
     "of the starting values. Non-trivial: degree at least 2.")
{
	MCfg g; g.bdf = true;
	g.order = 1 + s.below(6);
	int n = 1 + s.below(4), deg = s.chance(2, 3) ? g.order : s.below(g.order + 1);
	double L = s.logreal(0.2, 5);
	g.t0 = s.chance(1, 3) ? 0 : s.real(-50, 50);
	g.dt = s.logreal(0.01, 0.2)/L;
	int steps = n_start(g) + s.below(20);
	g.t1 = g.t0 + (steps - 0.5)*g.dt;
	ExactProblem P = polynomial_problem(s, n, deg, L, g.t0, steps*g.dt);
	g.y0 = P.sol(g.t0);
	c.desc << "BDF-" << g.order << " degree " << deg << " n=" << n << " t0=" << g.t0 << " dt=" << g.dt << " steps " << steps;
	c.label("BDF-" + std::to_string(g.order));
	c.nontrivial = deg >= 2;
	Ode o = P.ode();
	MRun r = mrun(o, g);
	check_grid(g, r, "BDF");
	for (size_t k = 0; k < r.t.size(); ++k) {
		double d = inf_norm(vec(P.sol(r.t[k]) - r.y[k]));
		CHECK(d <= 2e-6, "BDF-" << g.order << ", degree " << deg << ": value " << k << " is " << show(r.y[k]) << " instead of " << show(P.sol(r.t[k])) << ", off by " << d);
	}
}

PROP(convergence, 300, 10000,
     "Forced problems with known solution, integrated with a step size and half of it (24 to 48 steps): the error falls at least by 2^(order - 0.7), unless it is down to the "
     "accuracy of the starting values. Non-trivial: it is not.")
{
	MCfg g; g.bdf = true;
	g.order = 1 + s.below(6);
	int n = 1 + s.below(3);
	double L = s.logreal(0.2, 5);
	g.t0 = rand_t0(s);
	ExactProblem P = forced_problem(s, n, L, L*vec(n, arma::fill::ones));
	g.y0 = P.sol(g.t0);
	int steps = 24 + s.below(25);
	g.dt = s.logreal(0.02, 0.1)/L;
	g.t1 = g.t0 + (steps - 0.5)*g.dt;
	c.desc << "BDF-" << g.order << " n=" << n << " t0=" << g.t0 << " dt=" << g.dt << " steps " << steps;
	c.label("BDF-" + std::to_string(g.order));
	Ode o = P.ode();
	MRun a = mrun(o, g);
	MCfg h = g; h.dt /= 2;
	MRun b = mrun(o, h);
	double ea = 0, eb = 0;
	for (size_t k = 0; k < a.t.size(); ++k) ea = std::max(ea, inf_norm(vec(P.sol(a.t[k]) - a.y[k])));
	for (size_t k = 0; k < b.t.size(); ++k) eb = std::max(eb, inf_norm(vec(P.sol(b.t[k]) - b.y[k])));
	c.nontrivial = eb > 1e-6;
	CHECK(eb <= 1e-6 + ea*std::pow(2.0, 0.7 - g.order), "BDF-" << g.order << ": error " << ea << ", with half the step " << eb);
	CHECK(ea <= 20*std::pow(g.dt*L, g.order)*n + 1e-6, "BDF-" << g.order << ": error " << ea << " with L dt = " << g.dt*L);
}

PROP(long_step, 2000, 40000,
     "A step longer than the interval is shortened to it. Non-trivial: always.")
{
	MProblem P = multi_problem(s, c, true, 1);
	P.g.t1 = P.g.t0 + P.g.dt*s.real(0.2, 0.95);
	c.desc << " t1=" << P.g.t1;
	if (P.g.t1 - P.g.t0 <= 1e-9*std::fabs(P.g.t0)) throw Discard();
	c.nontrivial = true;
	Ode o = P.sys.ode();
	MRun r = mrun(o, P.g);
	check_grid(P.g, r, "BDF");
	check_formula(o, P.g, r, P.g.t1 - P.g.t0, P.L);
}

PROP(invalid, 5000, 50000,
     "Any other order, from -2^31 to 2^31-1: an error status, no output, and no call of the right-hand side. Non-trivial: always.")
{
	MProblem P = multi_problem(s, c, true, 2);
	P.g.order = s.pick(std::vector<int>{0, 7, -1, 8, INT32_MIN, INT32_MAX, (int)s.range(-1000, 0), (int)s.range(7, 1000)});
	c.desc << " order " << P.g.order;
	c.nontrivial = true;
	Ode o = P.sys.ode();
	MRun r = mrun(o, P.g);
	CHECK(r.status == GENERAL_ERROR, "order " << P.g.order << ": status " << r.status);
	CHECK(r.t.empty() && r.y.empty(), "order " << P.g.order << ": " << r.t.size() << " points");
	CHECK(o.nf == 0 && o.nj == 0, "order " << P.g.order << ": " << o.nf << " evaluations");
}

PROP(solve_failure, 3000, 80000,
     "From a random time on, after the starting values, the right-hand side is changed so that the formula has no solution (not a number, infinite, a parabola without root, or a Jacobi "
     "matrix that is not a number): the failure is reported, and the trajectory is that of the unchanged problem up to there, bit for bit. Non-trivial: always.")
{
	MProblem P = multi_problem(s, c, true, 12);
	int n = P.sys.n, kind = s.below(4);
	Ode o = P.sys.ode();
	MRun want = mrun(o, P.g);
	size_t total = want.t.size();
	if ((int)total <= n_start(P.g)) throw Discard();
	size_t bad = n_start(P.g) + s.below(total - n_start(P.g)); // first value that cannot be computed
	double T = P.g.t0 + (bad - 0.5)*P.g.dt, dt = P.g.dt;
	c.desc << " from value " << bad << " kind " << kind;
	c.label(std::vector<std::string>{"nan", "inf", "no-root", "nan-jacobian"}[kind]);
	c.nontrivial = true;
	Ode p = o;
	p.f = [=](double t, const vec &y) { vec r = o.f(t, y); if (t < T) return r;
		switch (kind) { case 0: r(n-1) = NAN; break; case 1: r.fill(INFINITY); break;
		case 2: r(0) = -1e4/dt*(1 + y(0)*y(0)); break;
		default: break; }
		return r; };
	p.j = [=](double t, const vec &y) { mat J = o.j(t, y); if (t < T) return J;
		if (kind == 2) { J.row(0).zeros(); J(0,0) = -2e4/dt*y(0); }
		if (kind == 3) J(n-1,0) = NAN;
		return J; };
	p.budget = 1000000;
	MRun r = mrun(p, P.g);
	CHECK(r.status == INTERNAL_SOLVE_FAILURE, "BDF-" << P.g.order << ": status " << r.status << " with " << r.t.size() << " of " << total << " values, value " << bad << " has no solution");
	CHECK(r.t.size() == bad && r.y.size() == bad, "BDF-" << P.g.order << ": " << r.t.size() << " values, value " << bad << " has no solution");
	for (size_t k = 0; k < bad; ++k) CHECK(same_bits(r.t[k], want.t[k]) && same_vec(r.y[k], want.y[k]), "BDF-" << P.g.order << ": value " << k << " differs from that of the unchanged problem");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C21"); }
