// C04: the time grid and the shape of a trajectory.
#include "../run.hpp"
using namespace pbt;

static const double EPS = 2.220446049250313e-16;

static void shape(const Run &r, const Cfg &g, const char *what)
{
	size_t n = r.t.size();
	size_t d = g.y0.n_elem, ns = n_stages(g.m);
	CHECK(r.status == SUCCESS, g.m.name << " " << what << ": status " << r.status);
	CHECK(n >= 2, what << ": only " << n << " points");
	CHECK(r.y.size() == n && r.stages.size() == n && r.err.size() == n && r.err_est.size() == n,
	      what << ": lists of different length: t " << n << " y " << r.y.size() << " stages "
	      << r.stages.size() << " err_est " << r.err_est.size() << " err " << r.err.size());
	CHECK(r.t[0] == g.t0, what << ": starts at " << r.t[0] << " instead of " << g.t0);
	CHECK(same_vec(r.y[0], g.y0), what << ": starts with another value");
	for (size_t i = 0; i < n; ++i) {
		CHECK(r.y[i].n_elem == d && r.err_est[i].n_elem == d, what << ": dimension at " << i);
		CHECK(r.stages[i].n_elem == d*ns, what << ": stage dimension at " << i << " is "
		      << r.stages[i].n_elem);
		CHECK(r.y[i].is_finite() && (i == 0 || r.stages[i].is_finite()) && std::isfinite(r.t[i])
		      && std::isfinite(r.err[i]) && r.err_est[i].is_finite(), what << ": not finite at " << i);
		if (i) CHECK(r.t[i] > r.t[i-1], what << ": time does not advance at " << i << ": "
		             << r.t[i-1] << " -> " << r.t[i]);
	}
	double ulp = EPS*std::max(std::fabs(g.t0), std::fabs(g.t1));
	CHECK(std::fabs(r.t[n-1] - g.t1) <= 4*ulp, what << ": ends at " << r.t[n-1] << " instead of " << g.t1);
	if (g.max_dt > 0) for (size_t i = 1; i < n; ++i)
		CHECK(r.t[i] - r.t[i-1] <= g.max_dt*(1 + 1e-12) + 4*ulp, what << ": step " << i - 1 << " is "
		      << r.t[i] - r.t[i-1] << " > max_dt " << g.max_dt);
}

static void scramble_scale(Source &s, Problem &P)
{
	// The same problem at another time scale.
	if (!s.chance(1, 3)) return;
	double k = s.logreal(1e-4, 1e4);
	P.sys.A *= k; P.sys.g *= k; P.sys.q *= k; P.sys.B *= k; P.sys.v *= k; P.sys.w *= k;
	P.L *= k;
	P.g.dt /= k;
	P.g.t1 = P.g.t0 + (P.g.t1 - P.g.t0)/k;
}

static void describe(Case &c, const Problem &P)
{
	c.desc << P.g.m.name << " n=" << P.sys.n << " L=" << P.L << " [" << P.g.t0 << ", " << P.g.t1
	       << "] dt=" << P.g.dt << " max_dt=" << P.g.max_dt << " y0=" << show(P.g.y0);
	if (P.g.adaptive) c.desc << " rtol=" << P.g.rtol << " atol=" << P.g.atol;
	c.label(P.g.m.name);
}

PROP(constant, 30000, 1000000,
     "Any method with constant steps: 1 to 40 (some 500) steps, fractional last step, time scales 1e-4..1e4, "
     "start times up to 1000, step limits below and above the step, steps longer than the interval. "
     "Non-trivial: at least 3 steps, or a step that had to be shortened.")
{
	MethodInfo m = s.pick(all_methods());
	bool many = s.chance(1, 4);
	Problem P = rand_problem(s, m, many ? 0.25 : 0.5, many ? (s.chance(1, 20) ? 500 : 40) : 6, 3, 8);
	// Long integrations of problems that do not grow.
	if (many) P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
	P.g.nopt = tight_newton(1e-9);
	scramble_scale(s, P);
	double len = P.g.t1 - P.g.t0, want = P.g.dt;
	int mode = s.below(4);
	if (mode == 1) { len = std::min(len, P.g.dt); P.g.dt = len*s.logreal(1.0001, 1000); want = len; c.label("longer-than-interval"); }
	if (mode == 2) { P.g.max_dt = P.g.dt*s.logreal(0.2, 5); want = std::min(P.g.dt, P.g.max_dt); c.label("max_dt"); }
	if (mode == 3) P.g.max_dt = -s.real(0, 2);
	P.g.t1 = P.g.t0 + len;
	describe(c, P);
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	shape(r, P.g, "constant");
	double ulp = EPS*std::max(std::fabs(P.g.t0), std::fabs(P.g.t1));
	size_t n = r.t.size();
	double real_len = P.g.t1 - P.g.t0;
	want = std::min(want, real_len);
	for (size_t i = 0; i + 1 < n; ++i) {
		double h = r.t[i+1] - r.t[i];
		// One more step of the size of a rounding error may be needed.
		if (h <= 64*ulp*(double)n && i + 2 >= n && real_len > 100*64*ulp*n) continue;
		bool last = std::fabs(r.t[i+1] - P.g.t1) <= 64*ulp*(double)n;
		if (!last) CHECK(std::fabs(h - want) <= 2*ulp + 1e-12*want, "step " << i << " is " << h
		                 << " instead of " << want);
		else CHECK(h <= want*(1 + 1e-12) + 2*ulp, "last step " << h << " > " << want);
	}
	double steps = real_len/want;
	CHECK((double)(n - 1) >= std::floor(steps*(1 - 1e-9)) && n - 1 <= std::ceil(steps) + 1 + 1e-9*steps,
	      n - 1 << " steps of " << want << " over " << real_len);
	c.nontrivial = n > 3 || mode == 1;
}

PROP(adaptive, 20000, 700000,
     "Any embedded method, adaptive: intervals, initial steps from 1e-6 of to 1000 times the interval, "
     "tolerances 1e-9..1e-2, step limits (also binding ones), time scales 1e-4..1e4. Non-trivial: at "
     "least 3 accepted steps.")
{
	MethodInfo m = s.pick(all_embedded());
	Problem P = rand_problem(s, m, 0.5, 6, 3, 8);
	P.g.adaptive = true;
	P.g.rtol = s.logreal(1e-9, 1e-2);
	P.g.atol = s.logreal(1e-9, 1e-2);
	P.g.nopt = tight_newton(1e-9);
	scramble_scale(s, P);
	double len = s.logreal(0.01, m.implicit ? 3 : 8)/P.L;
	P.g.t1 = P.g.t0 + len;
	if (!(P.g.t1 > P.g.t0 + 1e-9*len)) throw Discard();
	P.g.dt = len*(s.chance(1, 3) ? s.logreal(1, 1000) : s.logreal(1e-6, 1));
	if (s.chance(1, 3)) { P.g.max_dt = len*s.logreal(0.01, 2); c.label("max_dt"); }
	describe(c, P);
	Ode o = P.sys.ode();
	o.budget = 1000000;
	Run r = run(o, P.g);
	shape(r, P.g, "adaptive");
	// No accepted step may exceed the interval or the initial step by more than growth allows.
	CHECK(r.t[1] - r.t[0] <= P.g.dt*(1 + 1e-12)
	      + 4*EPS*std::max(std::fabs(P.g.t0), std::fabs(P.g.t1)),
	      "the first step " << r.t[1] - r.t[0] << " is larger than asked for, " << P.g.dt);
	c.nontrivial = r.t.size() > 3;
}

PROP(first_step, 12000, 300000,
     "The first attempt, seen by the right-hand side: stage times t0 + c_i*h with h the smallest of "
     "initial step, maximum step and interval, for all methods, adaptive or not. Non-trivial: the "
     "maximum step or the interval decides.")
{
	MethodInfo m = s.pick(all_methods());
	Problem P = rand_problem(s, m, 0.5, 4, 3, 4);
	P.g.t0 = s.real(-4, 4);
	double len = s.logreal(0.05, 0.5)/P.L;
	P.g.t1 = P.g.t0 + len;
	P.g.adaptive = m.embedded && s.flag();
	P.g.dt = len*s.logreal(0.05, 20);
	if (s.chance(2, 3)) P.g.max_dt = len*s.logreal(0.05, 20);
	double h = std::min(P.g.dt, P.g.t1 - P.g.t0);
	if (P.g.max_dt > 0) h = std::min(h, P.g.max_dt);
	describe(c, P);
	c.nontrivial = h < P.g.dt;
	Ode o = P.sys.ode();
	std::vector<Call> tr;
	o.trace = &tr;
	P.g.max_steps = 1;
	run(o, P.g);
	const RefTableau &R = reference().at(m.code);
	double cmax = R.c.max(), tmax = -1e300;
	// All calls of the first attempt come first; later attempts are not longer.
	for (auto &k : tr) tmax = std::max(tmax, k.t);
	CHECK(std::fabs(tmax - (P.g.t0 + cmax*h)) <= 1e-12*(1 + std::fabs(P.g.t0)),
	      m.name << ": first attempt evaluates up to t = " << tmax << " instead of " << P.g.t0 + cmax*h);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C04"); }
