// C20: Adams-Bashforth.
#include "../multi.hpp"
using namespace pbt;

/// Every value after the starting ones follows from the ones before, at their own times.
static void check_formula(const Ode &o, const MCfg &g, const MRun &r, double dt, double L)
{
	vec w = ab_weights(g.order);
	for (size_t k = g.order - 1; k + 1 < r.t.size(); ++k) {
		vec y = r.y[k]; double big = inf_norm(y), fs = 0;
		for (int i = 0; i < g.order; ++i) { vec f = o.f(r.t[k-i], r.y[k-i]); y += dt*w(i)*f; fs = std::max(fs, inf_norm(f)); }
		double lim = 1e-13*(1 + big + 10*dt*fs) + 10*time_fuzz(r.t[k], L)*(1 + fs);
		double d = inf_norm(vec(y - r.y[k+1]));
		CHECK(d <= lim, "AB-" << g.order << ": value " << k + 1 << " is " << show(r.y[k+1]) << " instead of " << show(y) << ", off by " << d << " > " << lim);
	}
}

PROP(formula, 16000, 500000,
     "Orders 1 to 5, random nonlinear non-autonomous systems, starting times and step sizes, up to 12 steps after the starting values, end on or off the grid: "
     "every value equals the one from the integrated interpolant of the slopes (weights from moment equations), the grid is uniform until the end. "
     "Non-trivial: order at least 2 and 2 formula steps.")
{
	MProblem P = multi_problem(s, c, false, 12);
	Ode o = P.sys.ode();
	vec y0 = P.g.y0;
	MRun r = mrun(o, P.g);
	CHECK(same_vec(y0, P.g.y0), "the initial value was modified");
	check_grid(P.g, r, "AB");
	c.nontrivial = P.g.order >= 2 && (int)r.t.size() >= P.g.order + 2;
	check_formula(o, P.g, r, P.g.dt, P.L);
}

PROP(starting_values, 5000, 150000,
     "The values at the first order - 1 grid points against the true solution (reference Gauss method of order 14 in small steps), within the tolerance "
     "of the start-up integrations (1e-9). Non-trivial: order at least 3.")
{
	MProblem P = multi_problem(s, c, false, 2);
	Ode o = P.sys.ode();
	MRun r = mrun(o, P.g);
	c.nontrivial = P.g.order >= 3;
	vec y = P.g.y0;
	for (int k = 1; k < P.g.order; ++k) {
		if (!advance(o, r.t[k-1], y, P.g.dt, P.L)) throw Discard();
		double d = inf_norm(vec(y - r.y[k])), lim = 5e-8*k*(1 + inf_norm(y)) + 10*k*time_fuzz(r.t[k], P.L)*(1 + P.L);
		CHECK(d <= lim, "AB-" << P.g.order << ": starting value " << k << " is " << show(r.y[k]) << ", the solution " << show(y) << ", off by " << d);
	}
}

PROP(polynomials, 10000, 300000,
     "Solutions that are polynomials of degree up to the order, without or with linear and cubic coupling to deviations from them: every value is exact up to the "
     "accuracy of the starting values. Non-trivial: degree at least 2.")
{
	MCfg g; g.bdf = false;
	g.order = 1 + s.below(5);
	int n = 1 + s.below(4), deg = s.chance(2, 3) ? g.order : s.below(g.order + 1);
	double L = s.logreal(0.2, 5);
	g.t0 = s.chance(1, 3) ? 0 : s.real(-50, 50);
	g.dt = s.logreal(0.01, 0.08)/L;
	int steps = g.order + s.below(20);
	g.t1 = g.t0 + (steps - 0.5)*g.dt;
	ExactProblem P = polynomial_problem(s, n, deg, L, g.t0, steps*g.dt);
	g.y0 = P.sol(g.t0);
	c.desc << "AB-" << g.order << " degree " << deg << " n=" << n << " t0=" << g.t0 << " dt=" << g.dt << " steps " << steps;
	c.label("AB-" + std::to_string(g.order));
	c.nontrivial = deg >= 2;
	Ode o = P.ode();
	MRun r = mrun(o, g);
	check_grid(g, r, "AB");
	for (size_t k = 0; k < r.t.size(); ++k) {
		double d = inf_norm(vec(P.sol(r.t[k]) - r.y[k]));
		CHECK(d <= 1e-7, "AB-" << g.order << ", degree " << deg << ": value " << k << " is " << show(r.y[k]) << " instead of " << show(P.sol(r.t[k])) << ", off by " << d);
	}
}

PROP(convergence, 400, 12000,
     "Forced problems with known solution, integrated with a step size and half of it (interval of 24 to 48 steps): the error falls at least by 2^(order - 0.7), unless it is "
     "down to the accuracy of the starting values. Non-trivial: it is not.")
{
	MCfg g; g.bdf = false;
	g.order = 1 + s.below(5);
	int n = 1 + s.below(3);
	double L = s.logreal(0.2, 5);
	g.t0 = rand_t0(s);
	ExactProblem P = forced_problem(s, n, L, L*vec(n, arma::fill::ones));
	g.y0 = P.sol(g.t0);
	int steps = 24 + s.below(25);
	// Orders up to 5 have small regions of stability.
	g.dt = s.logreal(0.02, 0.06)/L;
	g.t1 = g.t0 + (steps - 0.5)*g.dt;
	c.desc << "AB-" << g.order << " n=" << n << " t0=" << g.t0 << " dt=" << g.dt << " steps " << steps;
	c.label("AB-" + std::to_string(g.order));
	Ode o = P.ode();
	MRun a = mrun(o, g);
	MCfg h = g; h.dt /= 2;
	MRun b = mrun(o, h);
	double ea = 0, eb = 0;
	for (size_t k = 0; k < a.t.size(); ++k) ea = std::max(ea, inf_norm(vec(P.sol(a.t[k]) - a.y[k])));
	for (size_t k = 0; k < b.t.size(); ++k) eb = std::max(eb, inf_norm(vec(P.sol(b.t[k]) - b.y[k])));
	c.nontrivial = eb > 1e-7;
	CHECK(eb <= 1e-7 + ea*std::pow(2.0, 0.7 - g.order), "AB-" << g.order << ": error " << ea << ", with half the step " << eb);
	CHECK(ea <= 20*std::pow(g.dt*L, g.order)*n + 1e-7, "AB-" << g.order << ": error " << ea << " with L dt = " << g.dt*L);
}

PROP(long_step, 3000, 60000,
     "A step longer than the interval is shortened to it: order 1 makes exactly one step, of the Euler method; higher orders use that step. Non-trivial: always.")
{
	MProblem P = multi_problem(s, c, false, 1);
	P.g.t1 = P.g.t0 + P.g.dt*s.real(0.2, 0.95);
	c.desc << " t1=" << P.g.t1;
	if (P.g.t1 - P.g.t0 <= 1e-9*std::fabs(P.g.t0)) throw Discard();
	c.nontrivial = true;
	Ode o = P.sys.ode();
	MRun r = mrun(o, P.g);
	check_grid(P.g, r, "AB");
	double h = P.g.t1 - P.g.t0;
	CHECK((int)r.t.size() == std::max(2, P.g.order), "AB-" << P.g.order << ": " << r.t.size() << " points");
	check_formula(o, P.g, r, h, P.L);
}

PROP(invalid, 5000, 50000,
     "Any other order, from -2^31 to 2^31-1: an error status, no output, and no call of the right-hand side. Non-trivial: always.")
{
	MProblem P = multi_problem(s, c, false, 2);
	P.g.order = s.pick(std::vector<int>{0, 6, -1, 7, INT32_MIN, INT32_MAX, (int)s.range(-1000, 0), (int)s.range(6, 1000)});
	c.desc << " order " << P.g.order;
	c.nontrivial = true;
	Ode o = P.sys.ode();
	MRun r = mrun(o, P.g);
	CHECK(r.status == GENERAL_ERROR, "order " << P.g.order << ": status " << r.status);
	CHECK(r.t.empty() && r.y.empty(), "order " << P.g.order << ": " << r.t.size() << " points");
	CHECK(o.nf == 0 && o.nj == 0, "order " << P.g.order << ": " << o.nf << " evaluations");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C20"); }
