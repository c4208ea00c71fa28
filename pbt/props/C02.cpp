// C02: every accepted step is the step of the named method.
#include "../run.hpp"
using namespace pbt;

static double fscale(const SmoothSystem &S, double t, const vec &y) { return inf_norm(S.fun(t, y)); }

/// Compares every stored step to the reference step over the same interval.
static void verify_steps(const SmoothSystem &S, const Cfg &g, const Run &r, double tol, Case &c)
{
	const RefTableau &R = reference().at(g.m.code);
	auto f = [&](double t, const vec &y) { return S.fun(t, y); };
	auto j = [&](double t, const vec &y) { return S.jac(t, y); };
	CHECK(r.t.size() == r.y.size() && r.t.size() >= 1, "lists not parallel");
	CHECK(r.t[0] == g.t0 && same_vec(r.y[0], g.y0), "does not start at the initial point");
	for (size_t i = 0; i + 1 < r.t.size(); ++i) {
		vec yn; mat K;
		double h = r.t[i+1] - r.t[i];
		if (!ref_step(R, f, j, r.t[i], r.y[i], h, yn, K)) { c.label("reference-failed"); continue; }
		double lim = tol*(1.0 + inf_norm(yn)) + time_fuzz(std::max(std::fabs(r.t[i]), std::fabs(r.t[i+1])), fscale(S, r.t[i], r.y[i])
		             + inf_norm(K.col(0)));
		double d = inf_norm(yn - r.y[i+1]);
		CHECK(d <= lim, g.m.name << ": step " << i << " of " << r.t.size() - 1 << " from t = "
		      << r.t[i] << ", size " << h << ": " << show(r.y[i+1]) << " instead of " << show(yn)
		      << ", off by " << d << " > " << lim);
	}
}

static void describe(Case &c, const Problem &P)
{
	c.desc << P.g.m.name << " n=" << P.sys.n << " L=" << P.L << " t0=" << P.g.t0 << " t1=" << P.g.t1
	       << " dt=" << P.g.dt << " y0=" << show(P.g.y0);
	if (P.g.adaptive) c.desc << " rtol=" << P.g.rtol << " atol=" << P.g.atol;
}

PROP(fixed_steps, 40000, 1500000,
     "Any method, random smooth system (up to 12 equations), start time, constant step size with "
     "L*dt <= 0.5 and 1 to 8 steps, the last one often shorter; every step is compared to the "
     "independently constructed reference method. Non-trivial: at least 2 steps.")
{
	MethodInfo m = s.pick(all_methods());
	Problem P = rand_problem(s, m, 0.5, 8);
	describe(c, P);
	c.label(m.name);
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = r.t.size() > 2;
	if (P.sys.n > 4) c.label("large");
	verify_steps(P.sys, P.g, r, m.implicit ? 2e-9 : 1e-12, c);
	CHECK(std::fabs(r.t.back() - P.g.t1) <= 1e-13*(1 + std::fabs(P.g.t1)), "stopped at " << r.t.back());
}

PROP(adaptive_steps, 20000, 800000,
     "Any embedded method, random smooth system, tolerances 1e-9..1e-2, initial step from far too "
     "small to far too large; every accepted step is compared to the reference step over the same "
     "interval. Non-trivial: at least 3 accepted steps.")
{
	MethodInfo m = s.pick(all_embedded());
	Problem P = rand_problem(s, m, 0.5, 1);
	P.g.adaptive = true;
	P.g.rtol = s.logreal(1e-9, 1e-2);
	P.g.atol = s.chance(1, 2) ? P.g.rtol : s.logreal(1e-9, 1e-2);
	P.g.t1 = P.g.t0 + s.logreal(0.05, m.implicit ? 3.0 : 8.0)/P.L;
	P.g.dt = (P.g.t1 - P.g.t0)*s.logreal(1e-5, 3.0);
	if (s.chance(1, 4)) P.g.max_dt = (P.g.t1 - P.g.t0)*s.logreal(0.02, 1.0);
	describe(c, P);
	c.label(m.name);
	Ode o = P.sys.ode();
	o.budget = 1000000;
	Run r = run(o, P.g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = r.t.size() > 3;
	if (r.reject_err) c.label("rejected-attempts");
	if (r.reject_newton) c.label("rejected-newton");
	verify_steps(P.sys, P.g, r, m.implicit ? 2e-9 : 1e-12, c);
}

PROP(wild_steps, 12000, 400000,
     "Embedded explicit method on a problem that forces rejections: an initial step with L*dt from "
     "1 to 50 and tight tolerance; first accepted steps are compared to the reference. Non-trivial: "
     "an attempt was rejected.")
{
	MethodInfo m = s.pick(embedded(erk_methods()));
	Problem P = rand_problem(s, m, 0.5, 1);
	P.g.adaptive = true;
	P.g.rtol = P.g.atol = s.logreal(1e-11, 1e-4);
	P.g.dt = s.logreal(1, 50)/P.L;
	P.g.t1 = P.g.t0 + P.g.dt*s.real(1, 3);
	P.g.max_steps = 5 + s.below(40);
	describe(c, P);
	c.label(m.name);
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	c.nontrivial = r.reject_err > 0;
	verify_steps(P.sys, P.g, r, 1e-12, c);
}

PROP(no_pair_constant, 4000, 100000,
     "A method without embedded pair asked to be adaptive takes constant steps of that method. "
     "Non-trivial: at least 2 steps.")
{
	std::vector<MethodInfo> v;
	for (auto &m : all_methods()) if (!m.embedded) v.push_back(m);
	MethodInfo m = s.pick(v);
	Problem P = rand_problem(s, m, 0.5, 8);
	P.g.adaptive = true;
	describe(c, P);
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = r.t.size() > 2;
	for (size_t i = 0; i + 2 < r.t.size(); ++i)
		CHECK(std::fabs(r.t[i+1] - r.t[i] - P.g.dt) <= 1e-12*(1 + std::fabs(r.t[i])), "step not constant");
	verify_steps(P.sys, P.g, r, m.implicit ? 2e-9 : 1e-12, c);
}

static bool same_run(const Run &a, const Run &b)
{
	if (a.status != b.status || a.t.size() != b.t.size()) return false;
	for (size_t i = 0; i < a.t.size(); ++i)
		if (a.t[i] != b.t[i] || !same_vec(a.y[i], b.y[i])) return false;
	return true;
}

PROP(default_method, 3000, 100000,
     "Calls that name no method (with and without options) against the documented defaults, "
     "Dormand-Prince 5(4) and Radau IIA 5(3) with an initial step of 1e-6: identical results, and "
     "the step itself is that of the reference. Non-trivial: at least 3 steps.")
{
	bool imp = s.flag();
	MethodInfo m = imp ? irk_methods()[2] : erk_methods()[4];
	Problem P = rand_problem(s, m, 0.5, 1);
	P.g.t1 = P.g.t0 + s.logreal(0.1, 3)/P.L;
	P.g.adaptive = true;
	P.g.dt = 1e-6;
	P.g.rtol = P.g.atol = s.logreal(1e-8, 1e-3);
	describe(c, P);
	c.label(imp ? "implicit" : "explicit");
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	Run d;
	output_options oo;
	if (imp) {
		irk::solver_options so = irk::default_solver_options();
		fill_opts(so, P.g);
		so.newton_opts = &P.g.nopt;
		d = to_run(irk::odeint(o, P.g.t0, P.g.t1, P.g.y0, so, oo));
	} else {
		erk::solver_options so = erk::default_solver_options();
		fill_opts(so, P.g);
		d = to_run(erk::odeint(o, P.g.t0, P.g.t1, P.g.y0, so, oo));
	}
	CHECK(same_run(r, d), "the default is not " << m.name << ": " << brief(d) << " vs " << brief(r));
	c.nontrivial = r.t.size() > 3;
	verify_steps(P.sys, P.g, d, imp ? 2e-9 : 1e-12, c);
	// The call without any options uses the default method and default options.
	Run e = imp ? to_run(irk::odeint(o, P.g.t0, P.g.t1, P.g.y0))
	            : to_run(erk::odeint(o, P.g.t0, P.g.t1, P.g.y0));
	CHECK(e.status == SUCCESS, "default call: status " << e.status);
	int ns = n_stages(m);
	for (size_t i = 0; i < e.stages.size(); ++i)
		CHECK((int)e.stages[i].n_elem == ns*P.sys.n, "default call: stages of another method");
	verify_steps(P.sys, P.g, e, imp ? 1e-4 : 1e-12, c);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C02"); }
