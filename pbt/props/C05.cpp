// C05: accuracy of adaptive integration.
#include "../exact.hpp"
using namespace pbt;

static ExactProblem make(Source &s, double t0, double &L, bool may_grow)
{
	L = s.logreal(0.05, 20);
	int n = 1 + rand_dim(s, 3, 7);
	if (s.flag()) {
		vec d(n);
		bool quadrature = s.chance(1, 5); // (almost) no dependence on the solution
		for (int i = 0; i < n; ++i) d(i) = quadrature ? 0 : L*s.real(0, 1.5);
		return forced_problem(s, n, L, d);
	}
	return autonomous_problem(s, n, L, t0, may_grow);
}

static void setup(Source &s, Case &c, const MethodInfo &m, ExactProblem &P, Cfg &g, double &L)
{
	g.m = m;
	g.t0 = s.chance(1, 2) ? 0 : s.real(-20, 20);
	P = make(s, g.t0, L, false);
	double T = s.logreal(0.2, m.implicit ? 12 : 25);
	g.t1 = g.t0 + T/L;
	g.adaptive = true;
	g.dt = s.chance(1, 3) ? 1e-6 : (g.t1 - g.t0)*s.logreal(1e-5, 2.0);
	g.y0 = P.sol(g.t0);
	c.desc << m.name << " " << P.what << " n=" << P.n << " L=" << L << " T*L=" << T << " t0=" << g.t0
	       << " dt=" << g.dt;
	c.label(m.name);
}

/// Steps needed for a tolerance: generous multiple of T*L*tol^(-1/(q+1)), with
/// starting phase.
static double step_bound(const Cfg &g, double L, double tol)
{
	int q = g.m.implicit ? std::min(irk::get_coefficients(g.m.code).order, irk::get_coefficients(g.m.code).order2)
	                     : std::min(erk::get_coefficients(g.m.code).order, erk::get_coefficients(g.m.code).order2);
	return 40 + 3*(1 + L*(g.t1 - g.t0))*std::pow(tol, -1.0/(q + 1));
}

PROP(accuracy, 60000, 2000000,
     "Embedded method on a forced or autonomous problem with known solution (2 to 8 equations, time "
     "scales 0.05 to 20 per unit, oscillation, decay, nonlinear saturation; none is ill-conditioned), tolerances 1e-3 to "
     "1e-9, any initial step guess: error within a modest multiple of the tolerance at every point and "
     "a bounded number of steps (an error too large has to show with four initial steps, since the estimate of a single "
     "step can vanish by accident). Non-trivial: at least 5 steps.")
{
	MethodInfo m = s.pick(all_embedded());
	ExactProblem P; Cfg g; double L;
	setup(s, c, m, P, g, L);
	double lo = m.code == erk::BOGACKI_SHAMPINE_32 || m.code == irk::RADAU_IIA_32
	            || m.code == irk::GAUSS_LEGENDRE_42 ? 1e-7 : 1e-9;
	g.rtol = s.logreal(lo, 1e-3);
	g.atol = s.chance(1, 2) ? g.rtol : s.logreal(lo, 1e-3);
	double tol = std::min(g.atol, g.rtol);
	g.nopt = tight_newton(std::max(1e-12, 1e-3*tol));
	c.desc << " rtol=" << g.rtol << " atol=" << g.atol;
	if (L*g.dt > 2) c.label("initial step far too large");
	Ode o = P.ode();
	o.budget = 1000000;
	Run r = run(o, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	size_t w;
	double q = error_ratio(P, r, g.atol, g.rtol, w);
	// Errors of the unstable problems grow with the solution.
	c.nontrivial = r.t.size() > 5;
	c.label(bucket("ratio", q));
	double sb = step_bound(g, L, tol);
	c.label(bucket("steps%", 100*r.attempt/sb));
	double bound = m.implicit ? 50 : 500;
	// The estimate of a single step can vanish by accident: what counts is that the
	// error is also too large with other initial steps.
	for (int k = 0; q > bound && k < 3; ++k) {
		Cfg h = g;
		h.dt = std::min(g.dt, g.t1 - g.t0)*(k == 0 ? 0.77 : k == 1 ? 0.61 : 0.39);
		size_t w2;
		double q2 = error_ratio(P, run(o, h), g.atol, g.rtol, w2);
		if (q2 < q) { q = q2; w = std::min(w2, r.t.size() - 1); }
		c.label("tried another initial step");
	}
	CHECK(q <= bound, m.name << ": error " << q << " times the tolerance, about t = " << r.t[w] << ", also with other "
	      "initial steps");
	CHECK(r.attempt <= sb, m.name << ": " << r.attempt << " attempts, expected at most " << sb);
}

PROP(tightening, 15000, 400000,
     "The same problem with a tolerance 1e-3..1e-5 and one 100 to 1000 times tighter: the error "
     "shrinks (to less than half of the larger of itself and the tolerance) and more steps are taken. Non-trivial: at least 5 steps.")
{
	MethodInfo m = s.pick(all_embedded());
	ExactProblem P; Cfg g; double L;
	setup(s, c, m, P, g, L);
	g.rtol = g.atol = s.logreal(1e-5, 1e-3);
	double k = s.real(100, 1000);
	g.nopt = tight_newton(1e-12);
	Ode o = P.ode();
	Run r1 = run(o, g);
	Cfg h = g;
	h.rtol /= k; h.atol /= k;
	Run r2 = run(o, h);
	CHECK(r1.status == SUCCESS && r2.status == SUCCESS, m.name << ": status");
	size_t w;
	double e1 = error_ratio(P, r1, g.atol, g.rtol, w), e2 = error_ratio(P, r2, g.atol, g.rtol, w);
	c.nontrivial = r1.t.size() > 5;
	c.desc << " tol=" << g.rtol << " factor=" << k << " errors " << e1 << " " << e2;
	CHECK(e2 <= 0.5*std::max(e1, 1.0), m.name << ": error " << e2 << " with the tighter tolerance, " << e1
	      << " before (in units of the looser one)");
	CHECK(r2.t.size() + 3 >= r1.t.size(), m.name << ": fewer steps with a tighter tolerance");
}

PROP(sudden, 12000, 400000,
     "Embedded method on a problem that is quiet until a sudden transition (solution a tanh((t-tc)/w) plus slow "
     "terms, with relaxation towards it), the largest step limited to 1 to 4 transition widths so that it cannot be jumped "
     "over: error within a modest multiple of the tolerance for at least one of five transition times (for a single "
     "one the estimate can vanish by accident). Non-trivial: attempts were rejected.")
{
	MethodInfo m = s.pick(all_embedded());
	Cfg g;
	g.m = m;
	int n = 1 + s.below(3);
	double w = s.logreal(1e-3, 1), T = w*s.logreal(20, 300), d = s.chance(1, 4) ? 0 : s.real(0, 1)/w;
	double w0 = s.real(0, 2)/T;
	vec a(n), b(n);
	for (int i = 0; i < n; ++i) { a(i) = s.real(0.2, 2)*(s.flag() ? 1 : -1); b(i) = s.real(-1, 1); }
	g.t0 = s.flag() ? 0 : T*s.real(-5, 5);
	g.t1 = g.t0 + T;
	double t0 = g.t0;
	g.adaptive = true;
	g.max_dt = w*s.real(1, 4);
	g.dt = s.chance(1, 3) ? 1e-6*T : w*s.logreal(1e-3, 4);
	bool low = m.code == erk::BOGACKI_SHAMPINE_32 || m.code == irk::RADAU_IIA_32 || m.code == irk::GAUSS_LEGENDRE_42;
	g.rtol = s.logreal(low ? 1e-7 : 1e-9, 1e-4);
	g.atol = g.rtol*s.real(0.3, 3);
	g.nopt = tight_newton(std::max(1e-12, 1e-3*std::min(g.atol, g.rtol)));
	c.desc << m.name << " n=" << n << " w=" << w << " T/w=" << T/w << " d*w=" << d*w << " rtol=" << g.rtol << " max_dt/w=" << g.max_dt/w;
	c.label(m.name);
	double best = 1e300;
	for (int k = 0; k < 5; ++k) {
		double tc = T*s.real(0.2, 0.9);
		ExactProblem P;
		P.n = n;
		auto u = [=](double t) { double x = t - t0; return vec(a*std::tanh((x - tc)/w) + b*std::sin(w0*x)); };
		P.sol = u;
		P.f = [=](double t, const vec &y) { double x = t - t0, q = 1/std::cosh((x - tc)/w);
			return vec(a*q*q/w + b*w0*std::cos(w0*x) - d*(y - u(t))); };
		P.j = [=](double, const vec &) { return mat(-d*arma::eye(n, n)); };
		g.y0 = P.sol(g.t0);
		Ode o = P.ode();
		o.budget = 1000000;
		Run r = run(o, g);
		CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
		c.nontrivial = c.nontrivial || r.reject_err > 0;
		size_t wh;
		double q = error_ratio(P, r, g.atol, g.rtol, wh);
		best = std::min(best, q);
		if (best <= 1) break;
	}
	c.label(bucket("ratio", best));
	CHECK(best <= (m.implicit ? 30 : 400), m.name << ": error at least " << best << " times the tolerance for five transition times");
}

PROP(magnitudes, 16000, 500000,
     "Embedded method on 2 to 4 positive components of very different magnitude (explicit methods 1e-6 to 1e6, implicit ones within 1e4) that each vary by up to a factor of 7, on their own "
     "time scales, with an (almost) purely relative tolerance: every component is accurate relative to its own magnitude (an error too large has to show with four initial steps). "
     "Non-trivial: magnitudes differ by 100 or more, and at least 5 steps.")
{
	MethodInfo m = s.pick(all_embedded());
	Cfg g;
	g.m = m;
	int n = 2 + s.below(3);
	double L = s.logreal(0.05, 20), big = m.implicit ? 1e2 : 1e6, d = s.chance(1, 3) ? L*s.unit() : 0;
	vec z(n), a(n), w(n), p(n);
	for (int i = 0; i < n; ++i) { z(i) = s.logreal(1/big, big); a(i) = s.real(0.3, 1); w(i) = L*s.real(0.3, 1); p(i) = s.real(-3, 3); }
	// One of them always has a fair error.
	a(0) = 1; w(0) = L;
	auto u = [=](double t) { return vec(z%arma::exp(a%arma::sin(w*t + p))); };
	ExactProblem P;
	P.n = n; P.rate = L;
	P.sol = u;
	P.f = [=](double t, const vec &y) { return vec(y%a%w%arma::cos(w*t + p) - d*(y - u(t))); };
	P.j = [=](double t, const vec &y) { return mat(arma::diagmat(vec(a%w%arma::cos(w*t + p) - d))); };
	g.t0 = s.flag() ? 0 : s.real(-20, 20);
	double T = s.logreal(1, 12);
	g.t1 = g.t0 + T/L;
	g.adaptive = true;
	g.dt = s.chance(1, 3) ? 1e-6/L : (g.t1 - g.t0)*s.logreal(1e-5, 0.5);
	g.y0 = u(g.t0);
	bool low = m.code == erk::BOGACKI_SHAMPINE_32 || m.code == irk::RADAU_IIA_32 || m.code == irk::GAUSS_LEGENDRE_42;
	g.rtol = s.logreal(low || m.implicit ? 1e-6 : 1e-8, 1e-3);
	g.atol = g.rtol*z.min()*s.real(0.01, 0.3);
	g.nopt = tight_newton(std::max(1e-2*g.atol, 4e-15*z.max()));
	c.desc << m.name << " z=" << show(z) << " L=" << L << " T*L=" << T << " t0=" << g.t0 << " dt=" << g.dt << " rtol=" << g.rtol << " atol=" << g.atol << " d=" << d;
	c.label(m.name);
	// As error_ratio, but every component counts by its own magnitude.
	auto ratio = [&](const Run &r, size_t &where) {
		double worst = 0; vec big = arma::zeros(n);
		where = 0;
		for (size_t i = 0; i < r.t.size(); ++i) {
			vec v = u(r.t[i]);
			big = arma::max(big, arma::abs(v));
			double q = arma::norm(vec((r.y[i] - v)/(g.atol + g.rtol*big)))/std::sqrt((double)n);
			if (!(q <= worst)) { worst = q; where = i; }
		}
		return worst;
	};
	Ode o = P.ode();
	Run r = run(o, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	size_t at;
	double q = ratio(r, at);
	c.nontrivial = r.t.size() > 5 && z.max() > 100*z.min();
	c.label(bucket("ratio", q));
	double bound = m.implicit ? 80 : 800;
	for (int k = 0; q > bound && k < 3; ++k) {
		Cfg h = g;
		h.dt = std::min(g.dt, g.t1 - g.t0)*(k == 0 ? 0.77 : k == 1 ? 0.61 : 0.39);
		size_t w2;
		double q2 = ratio(run(o, h), w2);
		if (q2 < q) { q = q2; at = std::min(w2, r.t.size() - 1); }
		c.label("tried another initial step");
	}
	CHECK(q <= bound, m.name << ": error " << q << " times the tolerance, about t = " << r.t[at] << ", also with other initial steps");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C05"); }

PROP(wide, 1500, 60000,
     "Embedded method on 9 to 40 equations (implicit: to 24) of which a few, at random places, follow a forced problem with known "
     "solution (1 to 4 equations, time scales 0.05 to 20 per unit) and the others rest at zero: error (root mean square) within a modest multiple of "
     "the tolerance for at least one of four initial steps. Non-trivial: at least 5 steps.")
{
	MethodInfo m = s.pick(all_embedded());
	Cfg g;
	g.m = m;
	g.t0 = s.chance(1, 2) ? 0 : s.real(-20, 20);
	int k = 1 + s.below(4), n = s.range(9, m.implicit ? 24 : 40);
	double L = s.logreal(0.05, 20);
	vec d(k);
	for (int i = 0; i < k; ++i) d(i) = L*s.real(0, 1.5);
	ExactProblem Q = forced_problem(s, k, L, d), P;
	arma::uvec at = arma::regspace<arma::uvec>(0, n - 1);
	for (int i = 0; i < k; ++i) std::swap(at(i), at(i + s.below(n - i)));
	if (s.chance(1, 4)) for (int i = 0; i < k; ++i) at(i) = n - 1 - i;
	at = arma::uvec(at.head(k));
	P.n = n;
	P.what = Q.what;
	P.sol = [=](double t) { vec y(n, arma::fill::zeros); y.elem(at) = Q.sol(t); return y; };
	P.f = [=](double t, const vec &y) { vec f = -L*y; f.elem(at) = Q.f(t, vec(y.elem(at))); return f; };
	P.j = [=](double t, const vec &y) { mat J = -L*arma::eye(n, n); J.submat(at, at) = Q.j(t, vec(y.elem(at))); return J; };
	double T = s.logreal(0.5, 8);
	g.t1 = g.t0 + T/L;
	g.adaptive = true;
	g.dt = (g.t1 - g.t0)*s.logreal(1e-3, 2.0);
	g.y0 = P.sol(g.t0);
	bool low = m.code == erk::BOGACKI_SHAMPINE_32 || m.code == irk::RADAU_IIA_32 || m.code == irk::GAUSS_LEGENDRE_42;
	g.rtol = s.logreal(low ? 1e-6 : 1e-8, 1e-3);
	g.atol = s.chance(1, 2) ? g.rtol : s.logreal(low ? 1e-6 : 1e-8, 1e-3);
	g.nopt = tight_newton(std::max(1e-12, 1e-3*std::min(g.atol, g.rtol)));
	c.desc << m.name << " " << P.what << " n=" << n << " moving=" << k << " L=" << L << " T*L=" << T << " t0=" << g.t0
	       << " dt=" << g.dt << " rtol=" << g.rtol << " atol=" << g.atol;
	c.label(m.name);
	Ode o = P.ode();
	o.budget = 1000000;
	double best = 1e300, bound = m.implicit ? 50 : 300;
	size_t w = 0, pts = 0;
	for (int i = 0; i < 4 && best > bound; ++i) {
		Cfg h = g;
		if (i) h.dt = std::min(g.dt, g.t1 - g.t0)*(i == 1 ? 0.77 : i == 2 ? 0.61 : 0.39);
		Run r = run(o, h);
		CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
		double q = error_ratio(P, r, g.atol, g.rtol, w);
		best = std::min(best, q);
		pts = r.t.size();
	}
	c.nontrivial = pts > 5;
	c.label(bucket("ratio", best));
	CHECK(best <= bound, m.name << ": error of one of the moving equations " << best << " times the tolerance, with any initial step");
}
