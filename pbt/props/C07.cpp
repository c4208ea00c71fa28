// C07: work accounting.
#include "../run.hpp"
using namespace pbt;

static void identities(const Run &r, const Cfg &g, const Ode &o)
{
	size_t acc = r.t.size() - 1; // every accepted step is stored
	const char *n = g.m.name;
	CHECK(r.fun == o.nf, n << ": reports " << r.fun << " function evaluations, made " << o.nf);
	CHECK(r.jac == o.nj, n << ": reports " << r.jac << " Jacobian evaluations, made " << o.nj);
	if (r.status == SUCCESS || r.status == ERROR_MAX_STEPS_EXCEEDED) {
		CHECK(r.attempt == acc + r.reject_err + r.reject_newton, n << ": " << r.attempt << " attempts, " << acc
		      << " accepted, " << r.reject_err << " + " << r.reject_newton << " rejected");
		double want = r.attempt ? (double)acc/r.attempt : 0.0;
		CHECK(std::fabs(r.accept_frac - want) <= 1e-14, n << ": acceptance fraction " << r.accept_frac
		      << " instead of " << want);
		if (g.m.implicit) {
			CHECK(r.nsuccess == acc + r.reject_err, n << ": " << r.nsuccess << " Newton successes, " << acc
			      << " accepted steps and " << r.reject_err << " rejected for their error");
			CHECK(r.reject_newton == r.ndiv + r.nlarge + r.nmax, n << ": " << r.reject_newton
			      << " Newton rejections, reasons " << r.ndiv << " + " << r.nlarge << " + " << r.nmax);
		}
		if (!g.adaptive) CHECK(r.reject_err == 0 && r.reject_newton == 0, n << ": rejections with constant steps");
	}
	CHECK(std::isfinite(r.elapsed) && r.elapsed >= 0, n << ": elapsed time " << r.elapsed);
	if (!g.m.implicit) {
		const RefTableau &R = reference().at(g.m.code);
		unsigned long long Ns = R.b.n_elem;
		if (R.fsal) {
			// The first evaluation may or may not be made when no step is.
			if (r.attempt) CHECK(r.fun == 1 + (Ns - 1)*r.attempt, n << ": " << r.fun << " evaluations in "
			                     << r.attempt << " attempts of a first-same-as-last method with " << Ns << " stages");
		} else CHECK(r.fun == Ns*r.attempt, n << ": " << r.fun << " evaluations in " << r.attempt << " attempts of "
		             << Ns << " stages");
	} else {
		CHECK(r.jac >= r.attempt, n << ": " << r.jac << " Jacobians in " << r.attempt << " attempts");
		if (g.nopt.refresh_jac == 0) CHECK(r.jac == r.attempt, n << ": " << r.jac << " Jacobians in "
		                                   << r.attempt << " attempts without refreshing");
	}
}

PROP(counts, 40000, 1500000,
     "Any method, constant or adaptive steps, any refresh interval: every counter against the calls made "
     "and against the other counters. Non-trivial: a rejected attempt, or at least 3 constant steps.")
{
	Problem P = any_problem(s, c);
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	CHECK(r.status == SUCCESS, P.g.m.name << ": status " << r.status);
	identities(r, P.g, o);
	c.nontrivial = r.reject_err + r.reject_newton > 0 || (!P.g.adaptive && r.t.size() > 3);
	if (r.reject_err) c.label("rejections");
}

PROP(early_stop, 25000, 800000,
     "The same for runs that stop early: at a step limit from 0 to 6, and with the options of output and "
     "logging varied. Non-trivial: the limit ended the run.")
{
	Problem P = any_problem(s, c);
	P.g.max_steps = s.below(7);
	P.g.log_interval = s.below(3);
	P.g.timings = s.flag();
	c.desc << " max_steps=" << P.g.max_steps;
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	identities(r, P.g, o);
	c.nontrivial = r.status == ERROR_MAX_STEPS_EXCEEDED;
	if (P.g.max_steps == 0) {
		CHECK(r.attempt == 0 && r.reject_err == 0 && r.accept_frac == 0, P.g.m.name << ": "
		      << r.attempt << " attempts with a step limit of 0");
		CHECK(o.nf <= 1 && o.nj == 0, P.g.m.name << ": " << o.nf << " evaluations with a step limit of 0");
	}
}

PROP(newton_failures, 15000, 500000,
     "Implicit method, adaptive, with so few Newton iterations allowed (4 to 9) that attempts fail: the "
     "counters of failures agree with the attempts; each rejected attempt is retried smaller. "
     "Non-trivial: a Newton failure.")
{
	MethodInfo m = s.pick(embedded(irk_methods()));
	Problem P = rand_problem(s, m, 0.4, 4, 3, 5);
	P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
	P.g.adaptive = true;
	P.g.rtol = P.g.atol = s.logreal(1e-6, 1e-2);
	P.g.t1 = P.g.t0 + s.logreal(0.5, 6)/P.L;
	P.g.dt = (P.g.t1 - P.g.t0)*s.logreal(0.1, 1);
	P.g.nopt = tight_newton(s.logreal(1e-9, 1e-6));
	P.g.nopt.maxit = s.range(4, 9);
	if (s.chance(1, 2)) P.g.nopt.refresh_jac = s.range(0, 4);
	if (s.chance(1, 4)) P.g.max_steps = s.below(5);
	c.label(m.name);
	c.desc << m.name << " n=" << P.sys.n << " L=" << P.L << " [" << P.g.t0 << ", " << P.g.t1 << "] dt=" << P.g.dt
	       << " maxit=" << P.g.nopt.maxit << " refresh=" << P.g.nopt.refresh_jac << " newton tol " << P.g.nopt.tol
	       << " max_steps=" << P.g.max_steps << " y0=" << show(P.g.y0);
	Ode o = P.sys.ode();
	o.budget = 1000000;
	Run r = run(o, P.g);
	identities(r, P.g, o);
	c.nontrivial = r.reject_newton > 0;
	if (r.reject_newton && r.reject_err) c.label("both-kinds");
}

PROP(constant_failure, 6000, 200000,
     "Implicit method with constant steps that are too long for its few Newton iterations: the run ends "
     "with an error status, and what was evaluated is still counted. Non-trivial: the run failed after "
     "at least one step.")
{
	MethodInfo m = s.pick(irk_methods());
	Problem P = rand_problem(s, m, 0.4, 4, 3, 4);
	P.g.dt = s.real(0.5, 4)/P.L;
	P.g.t1 = P.g.t0 + P.g.dt*s.real(1, 6);
	P.g.nopt = tight_newton(s.logreal(1e-9, 1e-6));
	P.g.nopt.maxit = s.range(4, 14);
	c.label(m.name);
	c.desc << m.name << " n=" << P.sys.n << " dt*L=" << P.g.dt*P.L << " maxit=" << P.g.nopt.maxit
	       << " y0=" << show(P.g.y0);
	Ode o = P.sys.ode();
	o.budget = 1000000;
	Run r = run(o, P.g);
	identities(r, P.g, o);
	CHECK(r.status == SUCCESS || r.status == GENERAL_ERROR, m.name << ": status " << r.status);
	if (r.status != SUCCESS) c.label("failed");
	c.nontrivial = r.status != SUCCESS && r.t.size() > 1;
}

PROP(elapsed, 300, 3000,
     "A right-hand side that takes a known time: the reported elapsed time is at least the time spent "
     "in it and at most the time the call took, in milliseconds. Non-trivial: every case.")
{
	Problem P = any_problem(s, c);
	P.g.max_steps = 3;
	double spend = s.real(0.2, 1.0); // ms per evaluation
	Ode o = P.sys.ode();
	auto f = o.f;
	double total = 0;
	auto now = [] { timeval tv; gettimeofday(&tv, nullptr); return 1e3*tv.tv_sec + 1e-3*tv.tv_usec; };
	o.f = [&](double t, const vec &y) { if (total > 10) return f(t, y);
		double a = now(); while (now() - a < spend) {} total += now() - a; return f(t, y); };
	double a = now();
	Run r = run(o, P.g);
	double b = now() - a;
	c.nontrivial = true;
	CHECK(r.elapsed >= total - 0.1 && r.elapsed <= b + 0.1, P.g.m.name << ": elapsed " << r.elapsed << " ms, "
	      << total << " ms were spent in the function and " << b << " ms in all");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C07"); }
