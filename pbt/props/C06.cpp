// C06: error estimation, acceptance, rejection, retry.
#include "../exact.hpp"
using namespace pbt;

static double rms_err(const vec &e, const vec &y0, const vec &y1, double atol, double rtol)
{
	double q = 0;
	for (arma::uword i = 0; i < e.n_elem; ++i) {
		double sc = atol + rtol*std::max(std::fabs(y0(i)), std::fabs(y1(i)));
		q += e(i)/sc*(e(i)/sc);
	}
	return std::sqrt(q/e.n_elem);
}

static void make(Source &s, Case &c, const MethodInfo &m, Problem &P, bool wild)
{
	P = rand_problem(s, m, 0.5, 1, 4, 10);
	P.g.adaptive = true;
	P.g.rtol = s.chance(1, 8) ? 0.0 : s.logreal(1e-10, 1e-1);
	P.g.atol = s.logreal(1e-10, 1e-1);
	if (P.g.rtol > 0 && s.chance(1, 4)) P.g.atol = P.g.rtol;
	double T = s.logreal(0.1, m.implicit ? 4 : 8);
	P.g.t1 = P.g.t0 + T/P.L;
	P.g.dt = wild ? (P.g.t1 - P.g.t0)*s.logreal(0.1, 1) : (P.g.t1 - P.g.t0)*s.logreal(1e-4, 1);
	if (wild) {
		// Changes of pace: fast forcing that the first steps cannot see.
		P.sys.g = rand_vec(s, P.sys.n, 3*P.L);
		P.sys.v = P.L*s.real(2, 20);
	}
	if (s.chance(1, 6)) P.g.max_dt = (P.g.t1 - P.g.t0)*s.logreal(0.01, 1);
	c.desc << m.name << " n=" << P.sys.n << " L=" << P.L << " [" << P.g.t0 << ", " << P.g.t1 << "] dt="
	       << P.g.dt << " rtol=" << P.g.rtol << " atol=" << P.g.atol << " max_dt=" << P.g.max_dt
	       << " y0=" << show(P.g.y0);
	c.label(m.name);
}

static void norms(const Run &r, const Cfg &g)
{
	// A number of steps is only set where it may be reached.
	CHECK(r.status == SUCCESS || (g.max_steps > 0 && r.status == ERROR_MAX_STEPS_EXCEEDED), g.m.name << ": status " << r.status);
	for (size_t i = 1; i < r.t.size(); ++i) {
		double want = rms_err(r.err_est[i], r.y[i-1], r.y[i], g.atol, g.rtol);
		want = std::max(want, 1e-17);
		CHECK(std::fabs(r.err[i] - want) <= 1e-10*want, g.m.name << ": step " << i - 1 << " reports error norm "
		      << r.err[i] << ", the error vector " << show(r.err_est[i]) << " has " << want);
		CHECK(r.err[i] <= 1.0, g.m.name << ": accepted a step of error norm " << r.err[i]);
	}
}

PROP(norm, 20000, 700000,
     "Embedded method, random system, tolerances 1e-10..1e-1 (also pure absolute): the reported norm of "
     "every accepted step is recomputed from the reported error vector and values. Non-trivial: at "
     "least 2 steps with a norm above 1e-3.")
{
	MethodInfo m = s.pick(all_embedded());
	Problem P;
	make(s, c, m, P, s.flag());
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	norms(r, P.g);
	int big = 0;
	for (double e : r.err) big += e > 1e-3;
	c.nontrivial = big >= 2;
	if (r.reject_err) c.label("rejections");
}

PROP(units, 15000, 500000,
     "The same with every component of the system in its own unit, 1e-15..1e15 for explicit and 1e-15..1 for implicit methods. "
     "Non-trivial: at least 2 steps with a norm above 1e-3.")
{
	MethodInfo m = s.pick(all_embedded());
	Problem P;
	make(s, c, m, P, s.flag());
	vec D(P.sys.n);
	// Linear algebra can do less about components that differ a lot.
	double common = s.real(-12, 0);
	for (auto &d : D) d = std::pow(10.0, m.implicit ? common - s.real(0, 3) : s.real(-15, 15));
	SmoothSystem S = P.sys;
	Ode o;
	o.f = [S, D](double t, const vec &y) { return vec(D%S.fun(t, y/D)); };
	o.j = [S, D](double t, const vec &y) { return mat(arma::diagmat(D)*S.jac(t, y/D)*arma::diagmat(1/D)); };
	P.g.y0 %= D;
	if (s.flag()) P.g.atol *= D.max();
	if (m.implicit) P.g.max_steps = 200;
	else P.g.max_steps = 2000;
	c.desc << " atol=" << P.g.atol << " units " << show(D);
	Run r = run(o, P.g);
	norms(r, P.g);
	int big = 0;
	for (double e : r.err) big += e > 1e-3;
	c.nontrivial = big >= 2;
}

PROP(explicit_attempts, 20000, 700000,
     "Explicit pair, every attempt reconstructed from the calls of the right-hand side: it starts from "
     "the last accepted point, is the stage sequence of the method, its independently computed error "
     "norm decides whether it is accepted, a rejected one is followed by a smaller one, growth is at "
     "most 4, and the stored error vector is embedded minus main solution. Non-trivial: a rejection "
     "and 3 accepted steps.")
{
	MethodInfo m = s.pick(embedded(erk_methods()));
	Problem P;
	make(s, c, m, P, s.chance(2, 3));
	if (P.g.atol < 1e-8) P.g.atol = 1e-8; // rounding errors stay far below the tolerance
	Ode o = P.sys.ode();
	std::vector<Call> tr;
	o.trace = &tr;
	Run r = run(o, P.g);
	norms(r, P.g);
	const RefTableau &R = reference().at(m.code);
	size_t Ns = R.b.n_elem, n = P.sys.n, pos = 0, at = 0;
	c.nontrivial = r.reject_err > 0 && r.t.size() > 3;
	vec k0;
	double t = P.g.t0, prev = -1;
	vec y = P.g.y0;
	bool prev_rejected = false;
	if (R.fsal) {
		CHECK(tr.size() >= 1 && tr[0].t == t && same_vec(tr[0].y, y), "first evaluation is not at the start");
		k0 = P.sys.fun(t, y);
		pos = 1;
	}
	size_t attempts = 0;
	while (pos < tr.size()) {
		size_t need = R.fsal ? Ns - 1 : Ns;
		CHECK(pos + need <= tr.size(), m.name << ": incomplete attempt at the end");
		size_t first = R.fsal ? 1 : 0;
		// The step size, from the stage with the largest node.
		size_t imax = first;
		for (size_t i = first; i < Ns; ++i) if (R.c(i) > R.c(imax)) imax = i;
		double h = (tr[pos + imax - first].t - t)/R.c(imax);
		double fz = time_fuzz(std::max(std::fabs(t), std::fabs(tr[pos + imax - first].t)), 0);
		++attempts;
		mat K(n, Ns);
		if (R.fsal) K.col(0) = k0;
		for (size_t i = first; i < Ns; ++i) {
			vec want = y;
			for (size_t j = 0; j < i; ++j) want += h*R.A(i,j)*K.col(j);
			const Call &q = tr[pos + i - first];
			double kn = arma::abs(K.cols(0, i)).max();
			if (i == 0) kn = 0;
			CHECK(inf_norm(q.y - want) <= 1e-12*(1 + inf_norm(want)) + fz*(1 + 20*kn),
			      m.name << ": attempt " << attempts << " from t = " << t << " size " << h << ", stage " << i
			      << ": evaluated at " << show(q.y) << " instead of " << show(want));
			CHECK(std::fabs(q.t - (t + R.c(i)*h)) <= fz, m.name << ": stage time " << i << " of attempt "
			      << attempts << ": " << q.t << " instead of " << t + R.c(i)*h);
			K.col(i) = P.sys.fun(q.t, q.y);
		}
		vec yn = y + h*K*R.b, e = h*K*(R.b2 - R.b);
		double err = rms_err(e, y, yn, P.g.atol, P.g.rtol);
		// Growth and shrinkage with respect to the attempt before.
		if (prev > 0) {
			if (prev_rejected) CHECK(h < prev*(1 + 1e-12) + fz, m.name << ": attempt " << attempts
			                         << " after a rejection has size " << h << ", before " << prev);
			else CHECK(h <= 4*prev*(1 + 1e-9) + fz, m.name << ": step grew from " << prev << " to " << h);
		}
		bool accepted = at + 1 < r.t.size() && std::fabs(r.t[at+1] - (t + h)) <= fz
			&& inf_norm(r.y[at+1] - yn) <= 1e-11*(1 + inf_norm(yn)) + fz*(1 + 20*arma::abs(K).max());
		if (err < 1 - 1e-6 && err > 0)
			CHECK(accepted, m.name << ": attempt " << attempts << " from t = " << t << ", size " << h
			      << ", has error norm " << err << " but was not accepted");
		if (err > 1 + 1e-6)
			CHECK(!accepted, m.name << ": attempt " << attempts << " of size " << h << " was accepted with error norm " << err);
		if (accepted) {
			vec d1 = r.err_est[at+1] - e, d2 = r.err_est[at+1] + e;
			double lim = 1e-13*(1 + h*arma::abs(K).max()*10) + 1e-13*inf_norm(y) + fz*(1 + 20*arma::abs(K).max());
			CHECK(std::min(inf_norm(d1), inf_norm(d2)) <= lim, m.name << ": error vector " << show(r.err_est[at+1])
			      << " instead of " << show(e));
			++at;
			t = r.t[at]; y = r.y[at];
			k0 = K.col(Ns-1);
		}
		prev_rejected = !accepted;
		prev = h;
		pos += need;
	}
	CHECK(at + 1 == r.t.size(), m.name << ": the calls explain " << at << " of " << r.t.size() - 1 << " accepted steps");
	CHECK(attempts == r.attempt && r.reject_err == attempts - at, m.name << ": " << attempts << " attempts made, "
	      << r.attempt << " reported, with " << r.reject_err << " rejections of " << attempts - at);
}

PROP(implicit_attempts, 15000, 500000,
     "Implicit pair, attempts told apart by their Jacobian evaluation: each starts bitwise from the last "
     "accepted point, one that follows a rejection is smaller, growth is at most 8. Non-trivial: a "
     "rejection and 3 accepted steps.")
{
	MethodInfo m = s.pick(embedded(irk_methods()));
	Problem P;
	make(s, c, m, P, s.chance(2, 3));
	P.g.nopt.refresh_jac = 0;
	Ode o = P.sys.ode();
	std::vector<Call> tr;
	o.trace = &tr;
	Run r = run(o, P.g);
	norms(r, P.g);
	const RefTableau &R = reference().at(m.code);
	double cmax = R.c.max();
	c.nontrivial = r.reject_err > 0 && r.t.size() > 3;
	if (r.reject_newton) c.label("newton-failed");
	std::vector<size_t> jacs;
	for (size_t k = 0; k < tr.size(); ++k) if (tr[k].jac) jacs.push_back(k);
	size_t at = 0, attempts = 0, started = 0;
	double prev = -1;
	bool prev_accepted = false;
	for (size_t k = 0; k < jacs.size(); ++k) {
		const Call &q = tr[jacs[k]];
		++attempts;
		at = started;
		CHECK(q.t == r.t[at] && same_vec(q.y, r.y[at]), m.name << ": attempt " << attempts << " starts from t = "
		      << q.t << ", " << show(q.y) << " instead of the last accepted point t = " << r.t[at] << ", "
		      << show(r.y[at]));
		bool last = k + 1 == jacs.size();
		bool accepted = at + 1 < r.t.size()
			&& (last || (tr[jacs[k+1]].t == r.t[at+1] && same_vec(tr[jacs[k+1]].y, r.y[at+1])));
		double h = 0, fz = time_fuzz(std::max(std::fabs(q.t), std::fabs(P.g.t1)), 0);
		if (accepted) {
			h = r.t[at+1] - r.t[at];
			started = at + 1;
		}else{
			// From the latest stage; what is called before the next Jacobian may belong to the next, smaller, attempt.
			for (size_t p = jacs[k]; p < (last ? tr.size() : jacs[k+1]); ++p)
				h = std::max(h, (tr[p].t - q.t)/cmax);
		}
		if (prev > 0) {
			if (!prev_accepted) CHECK(h < prev*(1 + 1e-9) + fz, m.name << ": attempt after a rejection has size "
			                          << h << ", before " << prev);
			else CHECK(h <= 8*prev*(1 + 1e-9) + fz, m.name << ": step grew from " << prev << " to " << h);
		}
		prev = h; prev_accepted = accepted;
	}
	at = started ? started - 1 : 0;
	CHECK(at + 2 == r.t.size(), m.name << ": the attempts explain " << at + 1 << " of " << r.t.size() - 1 << " steps");
	CHECK(attempts == r.attempt, m.name << ": " << attempts << " attempts made, " << r.attempt << " reported");
	CHECK(r.reject_err + r.reject_newton == attempts - (r.t.size() - 1), m.name << ": rejections reported "
	      << r.reject_err + r.reject_newton << " of " << attempts - (r.t.size() - 1));
}

PROP(implicit_estimate, 12000, 400000,
     "Implicit pair: the stored error vector of every accepted step is (I - gamma h J)^-1 applied to the "
     "difference of embedded and main solution, evaluated once (Hairer & Wanner IV.8.19) or, on the first "
     "step and after a rejected attempt, refined (8.20), from independently solved stages. Non-trivial: at least 2 "
     "steps whose estimate is far above rounding.")
{
	MethodInfo m = s.pick(embedded(irk_methods()));
	Problem P;
	make(s, c, m, P, s.flag());
	P.g.atol = std::max(P.g.atol, 1e-8);
	P.g.nopt.refresh_jac = 0;
	// Now and then the stage equations of the first attempts are not solved.
	bool few = s.chance(1, 4);
	if (few) { P.g.nopt.maxit = s.range(4, 12); c.desc << " maxit " << P.g.nopt.maxit; }
	Ode o = P.sys.ode();
	std::vector<Call> tr;
	o.trace = &tr;
	Run r = run(o, P.g);
	// With one Jacobian per attempt, the attempts that started from each point.
	std::vector<int> tries(r.t.size() + 1, 0);
	size_t at = 0;
	for (auto &q : tr) if (q.jac) {
		if (at + 1 < r.t.size() && q.t == r.t[at+1] && same_vec(q.y, r.y[at+1])) ++at;
		++tries[at];
	}
	auto sc = irk::get_coefficients(m.code);
	RefTableau R = reference().at(m.code);
	// The library's tableau, whose embedded weights C01 checks, solved with the reference solver.
	R.A = sc.A; R.b = sc.b; R.c = sc.c;
	auto f = [&](double t, const vec &y) { return P.sys.fun(t, y); };
	auto j = [&](double t, const vec &y) { return P.sys.jac(t, y); };
	int big = 0;
	for (size_t i = 0; i + 1 < r.t.size(); ++i) {
		double h = r.t[i+1] - r.t[i], t = r.t[i];
		const vec &y = r.y[i];
		mat K;
		if (!ref_stages(R, f, j, t, y, h, K)) continue;
		mat M = arma::eye(P.sys.n, P.sys.n) - sc.gamma*h*j(t, y);
		vec d = h*K*(sc.b2 - sc.b);
		vec e1 = arma::solve(M, vec(sc.gamma*h*f(t, y) + d));
		vec e2 = arma::solve(M, vec(sc.gamma*h*f(t, y + e1) + d));
		double kn = arma::abs(K).max();
		double lim = 3e-9*(1 + inf_norm(y)) + time_fuzz(std::max(std::fabs(t), std::fabs(t + h)), 20*kn);
		double q1 = inf_norm(r.err_est[i+1] - e1), q2 = inf_norm(r.err_est[i+1] - e2);
		bool refined = i == 0 || tries[i] > 1;
		if (refined && tries[i] > 1 && i > 0 && r.reject_newton == 0) c.label("refined after a rejection");
		if (i == 0 && tries[0] > 1) c.label(r.reject_newton ? "first step after failures of the solver" : "first step after rejections");
		// Later on, failures of the stage solver leave the choice as it was.
		double q = r.reject_newton && i > 0 ? std::min(q1, q2) : refined ? q2 : q1;
		CHECK(q <= lim, m.name << ": step " << i << " of size " << h << ": error vector " << show(r.err_est[i+1])
		      << " instead of " << (refined ? show(e2) : show(e1)) << (refined ? " (refined)" : ""));
		if (inf_norm(e1) > 1e-6) ++big;
	}
	c.nontrivial = big >= 2;
}

PROP(hopeless, 6000, 200000,
     "Embedded method and a first attempt that overflows or is not a number (cubic or exponential growth "
     "far outside the solution, a domain error): it is rejected, a smaller one is tried, and the result is "
     "the solution. Non-trivial: an attempt was rejected.")
{
	MethodInfo m = s.pick(all_embedded());
	Cfg g;
	g.m = m;
	g.adaptive = true;
	g.rtol = g.atol = s.logreal(1e-8, 1e-3);
	int kind = s.below(3);
	double r = s.logreal(0.1, 10);
	Ode o;
	std::function<double(double)> sol;
	double y0 = s.real(0.2, 1.2);
	g.t0 = 0;
	g.t1 = s.logreal(1, 10)/r;
	if (kind == 0) { // y' = -r y^5
		o.f = [r](double, const vec &y) { return vec(-r*y%y%y%y%y); };
		o.j = [r](double, const vec &y) { return mat(arma::diagmat(-5*r*y%y%y%y)); };
		sol = [=](double t) { return std::pow(std::pow(y0, -4) + 4*r*t, -0.25); };
	} else if (kind == 1) { // y' = r (exp(-y) - 1): overflows for negative y
		o.f = [r](double, const vec &y) { return vec(r*(arma::exp(-y) - 1)); };
		o.j = [r](double, const vec &y) { return mat(arma::diagmat(-r*arma::exp(-y))); };
		// exp(y)' = r (1 - exp(y))
		sol = [=](double t) { return std::log(1 + (std::exp(y0) - 1)*std::exp(-r*t)); };
	} else { // y' = -r log(1+y)*(1+y): not a number for y < -1
		o.f = [r](double, const vec &y) { return vec(-r*arma::log(1 + y)%(1 + y)); };
		o.j = [r](double, const vec &y) { return mat(arma::diagmat(-r*(arma::log(1 + y) + 1))); };
		// log(1+y)' = -r log(1+y)
		sol = [=](double t) { return std::exp(std::log(1 + y0)*std::exp(-r*t)) - 1; };
	}
	int n = 1 + s.below(3);
	g.y0 = vec(n); g.y0.fill(y0);
	g.dt = g.t1*s.logreal(0.5, 2);
	g.t1 = g.dt*s.real(1, 2);
	if (m.implicit) { g.dt = std::min(g.dt, 2/r); g.t1 = std::min(g.t1, 3/r); g.nopt = tight_newton(1e-10); }
	else { double k = s.logreal(1, 1e4); g.dt *= k; }
	c.desc << m.name << " kind " << kind << " r=" << r << " y0=" << y0 << " dt=" << g.dt << " t1=" << g.t1
	       << " tol=" << g.atol;
	c.label(m.name);
	o.budget = 1000000;
	Run R = run(o, g);
	CHECK(R.status == SUCCESS, m.name << ": status " << R.status);
	c.nontrivial = R.reject_err + R.reject_newton > 0;
	// The first point that is not the solution.
	auto wrong = [&](const Run &r) {
		size_t i = 0;
		for (; i < r.t.size(); ++i) {
			CHECK(r.y[i].is_finite(), m.name << ": accepted " << show(r.y[i]));
			if (i) CHECK(r.t[i] > r.t[i-1], m.name << ": time stands still at " << r.t[i]);
			if (!(std::fabs(r.y[i](0) - sol(r.t[i])) <= 300*g.atol*(1 + std::fabs(y0)))) break;
		}
		return i;
	};
	size_t i = wrong(R);
	if (i == R.t.size()) return;
	// The estimate of a single, far too long step may happen to be small; those of other long ones are not.
	for (double k : {0.97, 0.91, 0.83}) {
		Cfg g2 = g;
		g2.dt *= k;
		Run r2 = run(o, g2);
		if (wrong(r2) == r2.t.size()) { c.label("lucky estimate"); return; }
	}
	FAIL(m.name << ": value " << R.y[i](0) << " instead of " << sol(R.t[i]) << " at t = " << R.t[i] << ", also with other initial steps");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C06"); }
