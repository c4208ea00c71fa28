// C27: stiff problems.
#include "../exact.hpp"
#include "test_equations.hpp"
using namespace pbt;

static const std::vector<MethodInfo> &stiff_methods()
{
	static const std::vector<MethodInfo> v = { {irk::RADAU_IIA_53, "RADAU_IIA_53", true, true}, {irk::RADAU_IIA_95, "RADAU_IIA_95", true, true},
		{irk::RADAU_IIA_137, "RADAU_IIA_137", true, true}, {irk::LOBATTO_IIIC_43, "LOBATTO_IIIC_43", true, true},
		{irk::LOBATTO_IIIC_64, "LOBATTO_IIIC_64", true, true}, {irk::LOBATTO_IIIC_85, "LOBATTO_IIIC_85", true, true} };
	return v;
}

PROP(slow_solution, 6000, 200000,
     "Forced problems whose deviations from a slow known solution decay with rates from L to 1e8 L (mixed orthogonally, with cubic terms), any of the six stiffly "
     "accurate methods, tolerances 1e-7 to 1e-2, any initial step: success, the error within 60 tolerances, and a number of steps and evaluations bounded by that of "
     "the slow solution alone. Non-trivial: rate times interval above 1e4.")
{
	MethodInfo m = s.pick(stiff_methods());
	int n = 1 + s.below(4);
	double L = s.logreal(0.2, 5);
	Cfg g; g.m = m; g.adaptive = true;
	vec d(n), d0(n);
	double top = s.logreal(1, 1e8), T = s.logreal(0.5, 4)/L;
	for (int i = 0; i < n; ++i) { d(i) = s.flag() ? L : L*s.logreal(1, top); d0(i) = L; }
	d(s.below(n)) = L*top;
	ExactProblem P = forced_problem(s, n, L, d);
	g.t0 = s.chance(1, 3) ? 0 : s.real(-20, 20); g.t1 = g.t0 + T;
	g.y0 = P.sol(g.t0);
	g.rtol = s.logreal(1e-7, 1e-2); g.atol = s.flag() ? g.rtol : s.logreal(1e-7, 1e-2);
	// A first step over half a period can miss the solution's variation altogether.
	g.dt = std::min(T, 0.5/L)*s.logreal(1e-4, 1);
	g.nopt = tight_newton(0.01*std::min(g.atol, g.rtol));
	c.label(m.name); c.desc << m.name << " n=" << n << " rates " << show(d) << " [" << g.t0 << ", " << g.t1 << "] rtol=" << g.rtol << " atol=" << g.atol << " dt=" << g.dt;
	c.nontrivial = arma::max(d)*T > 1e4;
	Ode o = P.ode(); o.budget = 300000;
	Run r = run(o, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	size_t where; double q = error_ratio(P, r, g.atol, g.rtol, where);
	c.label(bucket("error", q));
	CHECK(q <= 60, m.name << ": error of " << q << " tolerances at t = " << r.t[where]);
	// Steps: the slow solution needs about T*L/(tol^(1/(k+1))); growing from the first step takes a few more.
	double tol = std::min(g.atol + 0.3*g.rtol, 1.0);
	double lim = 20 + 4*T*L*std::pow(tol, -1.0/3) ;
	c.label(bucket("steps", 100.0*r.attempt/lim));
	CHECK(r.attempt <= lim, m.name << ": " << r.attempt << " attempts, limit " << lim);
	CHECK(r.fun <= r.attempt*(unsigned long long)(n_stages(m)*200 + 10), m.name << ": " << r.fun << " evaluations in " << r.attempt << " attempts");
}

PROP(stiffness_free_cost, 2500, 60000,
     "The same with a pair of problems that differ only in stiffness (rates up to 1e8 L against L to 100 L): steps and evaluations of the stiffer one are at most 2 times (evaluations: 6 times) as many plus "
     "30 attempts. Non-trivial: rates differ by 1e4 or more.")
{
	MethodInfo m = s.pick(stiff_methods());
	int n = 1 + s.below(3);
	double L = s.logreal(0.2, 5), T = s.logreal(0.5, 4)/L;
	Cfg g; g.m = m; g.adaptive = true;
	double lo = s.logreal(1, 100), hi = s.logreal(lo, 1e8);
	vec d1(n), d2(n);
	for (int i = 0; i < n; ++i) { d1(i) = L*lo; d2(i) = L*hi; }
	Source s2 = s; // the same choices for both
	ExactProblem P = forced_problem(s, n, L, d1), Q = forced_problem(s2, n, L, d2);
	g.t0 = 0; g.t1 = T; g.y0 = P.sol(0);
	g.rtol = g.atol = s.logreal(1e-7, 1e-2);
	g.dt = T*s.logreal(1e-3, 0.3);
	g.nopt = tight_newton(0.01*g.atol);
	c.label(m.name); c.desc << m.name << " n=" << n << " rates " << L*lo << " and " << L*hi << " T=" << T << " tol=" << g.rtol << " dt=" << g.dt;
	c.nontrivial = hi/lo >= 1e4;
	Ode a = P.ode(), b = Q.ode(); a.budget = b.budget = 300000;
	Run x = run(a, g), y = run(b, g);
	CHECK(x.status == SUCCESS && y.status == SUCCESS, m.name << ": status " << x.status << " and " << y.status);
	double f = (double)y.attempt/x.attempt;
	c.label(bucket("ratio", 10*f));
	CHECK(y.attempt <= 2*x.attempt + 30, m.name << ": " << y.attempt << " attempts instead of " << x.attempt);
	CHECK(y.fun <= 6*x.fun + 30*(n_stages(m)*20 + 10), m.name << ": " << y.fun << " evaluations instead of " << x.fun);
}

PROP(transient, 3000, 80000,
     "The same starting off the slow solution, with a fast transient of rates up to 1e6 L: followed to the tolerance in a number of steps that grows with the logarithm of the stiffness "
     "at most. Non-trivial: the transient is at least 1000 times faster.")
{
	MethodInfo m = s.pick(stiff_methods());
	int n = 1 + s.below(3);
	double L = s.logreal(0.2, 5), T = s.logreal(0.5, 4)/L, top = s.logreal(10, 1e6);
	Cfg g; g.m = m; g.adaptive = true;
	vec d(n); for (int i = 0; i < n; ++i) d(i) = L*s.logreal(1, top);
	d(0) = L*top;
	ExactProblem P = forced_problem(s, n, L, d);
	g.t0 = 0; g.t1 = T;
	g.y0 = P.sol(0) + rand_vec(s, n, 2);
	g.rtol = g.atol = s.logreal(1e-6, 1e-2);
	g.dt = s.logreal(1e-8, 1)*T;
	g.nopt = tight_newton(0.01*g.atol);
	c.label(m.name); c.desc << m.name << " n=" << n << " rates " << show(d) << " T=" << T << " tol=" << g.rtol << " dt=" << g.dt;
	c.nontrivial = top >= 1000;
	Ode o = P.ode(); o.budget = 300000;
	Run r = run(o, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	// At the end only the slowest deviation may be left.
	double dmin = arma::min(d), left = 2*std::sqrt((double)n)*std::exp(-dmin*T)*std::sqrt((double)n);
	double e = inf_norm(vec(r.y.back() - P.sol(T)));
	CHECK(e <= 60*g.atol*3 + left, m.name << ": ends " << e << " off the slow solution, deviations decayed to " << left);
	double lim = 30 + 4*(T*L + 8 + std::log(top))*std::pow(g.atol, -1.0/3);
	c.label(bucket("steps", 100.0*r.attempt/lim));
	CHECK(r.attempt <= lim, m.name << ": " << r.attempt << " attempts, limit " << lim);
}

// ------------------------------------------------------------ classic problems

PROP(linear_classic, 1500, 40000,
     "The supplied stiff linear equation (rates 1 and 1000) with the default integrator and any of the six methods, tolerances and end times: against its exact solution. Non-trivial: the end is past the transient.")
{
	test_equations::stiff_eq E;
	MethodInfo m = s.pick(stiff_methods());
	Cfg g; g.m = m; g.adaptive = true; g.t0 = 0; g.t1 = s.logreal(1e-3, 10); g.y0 = E.sol(0);
	g.rtol = s.logreal(1e-7, 1e-2); g.atol = s.logreal(1e-7, 1e-2); g.dt = s.chance(1, 2) ? 1e-6 : g.t1*s.logreal(1e-4, 1);
	g.nopt = tight_newton(0.01*std::min(g.atol, g.rtol));
	c.label(m.name); c.desc << m.name << " to " << g.t1 << " rtol=" << g.rtol << " atol=" << g.atol << " dt=" << g.dt;
	c.nontrivial = g.t1 > 0.02;
	Run r;
	if (m.code == irk::RADAU_IIA_53 && s.flag()) { c.label("default-call"); r = to_run(irk::odeint(E, g.t0, g.t1, g.y0)); g.rtol = 1e-4; g.atol = 1e-3; }
	else r = run(E, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	for (size_t k = 0; k < r.t.size(); ++k) {
		double e = inf_norm(vec(r.y[k] - E.sol(r.t[k])));
		CHECK(e <= 60*(g.atol + 1.5*g.rtol), m.name << ": error " << e << " at t = " << r.t[k]);
	}
	CHECK(r.attempt <= 100 + 60*std::pow(std::min(g.atol, g.rtol), -1.0/3), m.name << ": " << r.attempt << " attempts");
}

/// A far more accurate solution, by the library itself with a method of order 13 and a tiny tolerance;
/// anchored by the literature values below.
template <typename F> static vec accurate(F &f, double t1, const vec &y0, double atol, double newton_tol = 0)
{
	Cfg g; g.m = stiff_methods()[2]; g.adaptive = true; g.t0 = 0; g.t1 = t1; g.y0 = y0; g.rtol = 1e-9; g.atol = atol; g.dt = 1e-6; g.max_steps = 200000;
	g.nopt = tight_newton(std::max(atol*0.01, newton_tol));
	Run r = run(f, g);
	if (r.status != SUCCESS) throw Discard();
	return r.y.back();
}

PROP(robertson, 300, 6000,
     "Robertson's problem from (1,0,0) with the six methods, tolerances 1e-8 to 1e-4 relative, end times 0.1 to 1e5: values known from the literature (t = 0.4, 4, 40, 400) or an accurate integration, total mass, "
     "and a bounded number of attempts. Non-trivial: end time at least 10.")
{
	static const double T[4] = {0.4, 4, 40, 400};
	static const double Y[4][3] = { {9.8517e-1, 3.3864e-5, 1.4794e-2}, {9.0553e-1, 2.2405e-5, 9.4452e-2}, {7.1583e-1, 9.1852e-6, 2.8416e-1}, {4.5054e-1, 3.2230e-6, 5.4946e-1} };
	test_equations::rober E;
	MethodInfo m = s.pick(stiff_methods());
	Cfg g; g.m = m; g.adaptive = true; g.t0 = 0; g.y0 = vec{1, 0, 0};
	int w = s.below(6);
	g.t1 = w < 4 ? T[w] : s.logreal(0.1, 1e5);
	g.rtol = s.logreal(1e-8, 1e-4); g.atol = g.rtol*1e-4; g.dt = 1e-6;
	g.nopt = tight_newton(0.01*g.atol);
	c.label(m.name); c.desc << m.name << " to " << g.t1 << " rtol=" << g.rtol;
	c.nontrivial = g.t1 >= 10;
	Run r = run(E, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	vec want = accurate(E, g.t1, g.y0, 1e-13);
	if (w < 4) for (int k = 0; k < 3; ++k) CHECK(std::fabs(want(k) - Y[w][k]) <= 2e-4*Y[w][k], "accurate value " << k << " at t = " << g.t1 << " is " << want(k) << " instead of " << Y[w][k]);
	for (int k = 0; k < 3; ++k) CHECK(std::fabs(r.y.back()(k) - want(k)) <= 100*(g.rtol*std::fabs(want(k)) + g.atol) + 1e-3*g.rtol, m.name << ": component " << k << " at t = " << g.t1 << " is " << r.y.back()(k) << " instead of " << want(k));
	CHECK(std::fabs(arma::accu(r.y.back()) - 1) <= 1e-9, m.name << ": total mass " << arma::accu(r.y.back()));
	CHECK(r.attempt <= 300 + 10*std::pow(g.rtol, -1.0/3), m.name << ": " << r.attempt << " attempts");
}

PROP(van_der_pol, 200, 4000,
     "The stiff van der Pol oscillator from (2, -0.66) or thereabouts, stiffness 1e-6 to 0.1, end times 0.1 to 2, with the six methods: against an accurate integration, and for 1e-6 at t = 1 and 2 against the literature. "
     "Non-trivial: stiffness 1e-3 or less.")
{
	MethodInfo m = s.pick(stiff_methods());
	bool lit = s.chance(1, 4);
	double mu = lit ? 1e-6 : s.logreal(1e-6, 0.1);
	test_equations::vdpol E(mu);
	Cfg g; g.m = m; g.adaptive = true; g.t0 = 0; g.t1 = lit ? 1 + s.below(2) : s.real(0.1, 2);
	g.y0 = lit ? vec{2, -0.66} : vec{s.real(1.6, 2.2), -0.66};
	g.rtol = g.atol = s.logreal(1e-6, 1e-3); g.dt = 1e-6;
	// Velocities reach 1/mu: absolute tolerances below the rounding error of that cannot be met.
	g.nopt = tight_newton(std::max(0.01*g.atol, 1e-14/mu));
	c.label(m.name); c.desc << m.name << " mu=" << mu << " to " << g.t1 << " tol=" << g.rtol;
	c.nontrivial = mu <= 1e-3;
	Run r = run(E, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	vec want = accurate(E, g.t1, g.y0, 1e-10, 1e-14/mu);
	if (lit) {
		vec Y = g.t1 == 1 ? vec{-0.1863646254808130e1, 0.7535430865435460} : vec{0.1706167732170456e1, -0.8928097010248257};
		CHECK(inf_norm(vec(want - Y)) <= 1e-5, "accurate value at t = " << g.t1 << " is " << show(want) << " instead of " << show(Y));
	}
	// Errors move the time of the jumps: judge by slope.
	vec f = E.fun(0, want);
	double e = std::fabs(r.y.back()(0) - want(0)), lim = 2000*g.rtol*(1 + std::fabs(want(1)));
	if (std::fabs(want(0)) > 1.05) CHECK(e <= lim, m.name << ": " << r.y.back()(0) << " instead of " << want(0) << " at t = " << g.t1 << ", limit " << lim);
	double most = 500 + 150*std::pow(g.rtol, -1.0/3);
	c.label(bucket("steps", 100.0*r.attempt/most));
	CHECK(r.attempt <= most, m.name << ": " << r.attempt << " attempts");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C27"); }
