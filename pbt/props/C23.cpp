// C23: conserved quantities and reversibility.
#include "../multi.hpp"
using namespace pbt;

/// Right-hand side f with W^T f = 0 for the columns of W.
struct Conserving { Ode o; mat W; int n; double L; };
static Conserving conserving(Source &s, double L)
{
	Conserving C;
	C.L = L;
	C.n = 2 + s.below(5);
	int k = 1 + s.below(C.n - 1);
	SmoothSystem S = rand_system(s, C.n, L);
	S.A -= 2*L*arma::eye(C.n, C.n);
	C.W = rand_mat(s, C.n, k, 1.0);
	// Often mass-like: weights are small integers.
	if (s.chance(1, 2)) for (double &x : C.W) x = std::round(4*x);
	mat Q;
	{ mat R; Q = C.W; // Gram-Schmidt
		int m = 0;
		for (int j = 0; j < k; ++j) { vec v = C.W.col(j); for (int r = 0; r < 2; ++r) for (int i = 0; i < m; ++i) v -= arma::dot(Q.col(i), v)*Q.col(i);
			double nv = arma::norm(v); if (nv < 0.05) throw Discard(); Q.col(m++) = v/nv; } }
	mat P = arma::eye(C.n, C.n) - Q*Q.t();
	C.o.f = [S, P](double t, const vec &y) { return vec(P*S.fun(t, y)); };
	C.o.j = [S, P](double t, const vec &y) { return mat(P*S.jac(t, y)); };
	return C;
}

PROP(linear, 25000, 900000,
     "Random systems whose right-hand side has 1 or more conserved weighted sums, any method, constant or adaptive steps, with and without rejected attempts: the sums are "
     "constant along the trajectory up to rounding (and the stage solver's tolerance). Non-trivial: at least 3 steps.")
{
	MethodInfo m = s.pick(all_methods());
	double L = s.logreal(0.2, 5);
	Conserving C = conserving(s, L);
	Cfg g; g.m = m;
	g.adaptive = m.embedded && s.chance(1, 2);
	g.y0 = rand_vec(s, C.n, 2); g.t0 = rand_t0(s);
	g.dt = s.logreal(0.01, 0.3)/L;
	g.t1 = g.t0 + g.dt*(1 + s.below(12) + (s.flag() ? 0.5 : 0));
	if (g.adaptive) { g.rtol = s.logreal(1e-8, 1e-2); g.atol = s.logreal(1e-8, 1e-2); g.dt *= s.logreal(0.1, 30); }
	g.nopt = tight_newton(s.logreal(1e-11, 1e-6));
	c.label(m.name); c.label(g.adaptive ? "adaptive" : "constant");
	c.desc << m.name << " n=" << C.n << " sums " << C.W.n_cols << " [" << g.t0 << ", " << g.t1 << "] dt=" << g.dt << " newton " << g.nopt.tol;
	Ode o = C.o; o.budget = 1000000;
	Run r = run(o, g);
	c.nontrivial = r.t.size() > 3;
	vec w0 = C.W.t()*g.y0;
	for (size_t k = 0; k < r.y.size(); ++k) {
		double d = inf_norm(vec(C.W.t()*r.y[k] - w0)), lim = 1e-12*(k + 1)*(1 + arma::abs(C.W).max())*(1 + inf_norm(r.y[k]) + inf_norm(g.y0));
		CHECK(d <= lim, m.name << ": conserved sums changed by " << d << " > " << lim << " after " << k << " steps");
	}
}

PROP(linear_multistep, 5000, 150000,
     "The same for Adams-Bashforth and BDF of all orders. Non-trivial: order at least 2 and at least 3 formula steps.")
{
	double L = s.logreal(0.2, 5);
	Conserving C = conserving(s, L);
	MCfg g; g.bdf = s.flag(); g.order = 1 + s.below(g.bdf ? 6 : 5);
	g.y0 = rand_vec(s, C.n, 2); g.t0 = rand_t0(s); g.dt = s.logreal(0.005, 0.1)/L;
	g.t1 = g.t0 + g.dt*(n_start(g) + s.below(12) + 0.5);
	c.label((g.bdf ? "BDF-" : "AB-") + std::to_string(g.order));
	c.desc << (g.bdf ? "BDF-" : "AB-") << g.order << " n=" << C.n << " sums " << C.W.n_cols << " dt=" << g.dt;
	Ode o = C.o;
	MRun r = mrun(o, g);
	CHECK(r.status == SUCCESS, "status " << r.status);
	c.nontrivial = g.order >= 2 && (int)r.t.size() >= n_start(g) + 3;
	vec w0 = C.W.t()*g.y0;
	for (size_t k = 0; k < r.y.size(); ++k) {
		double d = inf_norm(vec(C.W.t()*r.y[k] - w0)), lim = 2e-11*(k + 1)*(1 + arma::abs(C.W).max())*(1 + inf_norm(r.y[k]) + inf_norm(g.y0));
		CHECK(d <= lim, (g.bdf ? "BDF-" : "AB-") << g.order << ": conserved sums changed by " << d << " > " << lim << " at value " << k);
	}
}

static std::vector<MethodInfo> named(const std::string &prefix)
{
	std::vector<MethodInfo> v;
	for (auto &m : irk_methods()) if (std::string(m.name).compare(0, prefix.size(), prefix) == 0) v.push_back(m);
	return v;
}

PROP(quadratic, 12000, 400000,
     "Systems y' = S(t, y) M y with skew S and symmetric M (definite or not), so that y^T M y is conserved, integrated by the Gauss-Legendre methods with constant steps: "
     "the form is constant up to the stage solver's tolerance, also with large steps (L dt up to 1). Non-trivial: at least 3 steps and a form that explicit methods do not conserve.")
{
	MethodInfo m = s.pick(named("GAUSS"));
	int n = 2 + s.below(4);
	double L = s.logreal(0.2, 5);
	mat K = rand_mat(s, n, n, L/n), B = rand_mat(s, n, n, L/n), M = rand_mat(s, n, n, 0.5);
	K = mat(K - K.t()); B = mat(B - B.t());
	M = mat(0.5*(M + M.t()));
	if (s.chance(1, 2)) M = arma::eye(n, n); else if (s.flag()) M += 1.2*arma::eye(n, n);
	vec a = rand_vec(s, n, 0.5);
	double w = s.real(-3*L, 3*L);
	bool definite = M(0,0) == 1 && M(0,n-1) == 0;
	Ode o;
	// S = K + B*sin(a.y + w t): tanh keeps things bounded when M is indefinite.
	o.f = [=](double t, const vec &y) { double q = std::sin(arma::dot(a, y) + w*t); return vec((K + q*B)*(M*y)); };
	o.j = [=](double t, const vec &y) { double p = arma::dot(a, y) + w*t, q = std::sin(p); return mat((K + q*B)*M + std::cos(p)*(B*(M*y))*a.t()); };
	Cfg g; g.m = m;
	g.y0 = rand_vec(s, n, 1.5); g.t0 = s.chance(1, 2) ? 0 : s.real(-20, 20);
	g.dt = s.logreal(0.02, definite ? 0.6 : 0.3)/L;
	g.t1 = g.t0 + g.dt*(1 + s.below(20) + (s.flag() ? 0.5 : 0));
	g.nopt = tight_newton(1e-12);
	c.label(m.name); c.label(definite ? "norm" : "form");
	c.desc << m.name << " n=" << n << " L=" << L << " [" << g.t0 << ", " << g.t1 << "] dt=" << g.dt << " y0=" << show(g.y0);
	Run r = run(o, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	double q0 = arma::as_scalar(g.y0.t()*M*g.y0), first = 0;
	vec f0 = o.f(g.t0, g.y0);
	first = std::fabs(arma::as_scalar(f0.t()*M*f0))*g.dt*g.dt;
	c.nontrivial = r.t.size() > 3 && first > 1e-6;
	for (size_t k = 0; k < r.y.size(); ++k) {
		double q = arma::as_scalar(r.y[k].t()*M*r.y[k]), big = 1 + inf_norm(r.y[k]);
		if (big > 50) { c.label("grew"); break; }
		CHECK(std::fabs(q - q0) <= 1e-11*(k + 1)*big*big*n, m.name << ": the quadratic form changed from " << q0 << " to " << q << " after " << k << " steps");
	}
}

PROP(reversible, 12000, 400000,
     "Random non-autonomous systems integrated with constant steps by a symmetric method (Gauss-Legendre, Lobatto IIIA), then back with time reversed: every value on the way back is the "
     "one on the way there, up to the stage solver's tolerance. Non-trivial: at least 3 steps and a step error that other methods would leave.")
{
	std::vector<MethodInfo> v = named("GAUSS");
	for (auto &m : named("LOBATTO_IIIA")) v.push_back(m);
	MethodInfo m = s.pick(v);
	double L = s.logreal(0.2, 5);
	int n = 1 + s.below(4), steps = 1 + s.below(8);
	SmoothSystem S = rand_system(s, n, L);
	Ode o = S.ode(), b = o;
	b.f = [S](double t, const vec &y) { return vec(-S.fun(-t, y)); };
	b.j = [S](double t, const vec &y) { return mat(-S.jac(-t, y)); };
	Cfg g; g.m = m;
	// Times are exact, so that the steps there and back are the same.
	g.t0 = s.range(-8, 8); g.dt = std::ldexp(1.0, -(int)s.range(1, 5) - (int)std::ceil(std::log2(L)));
	g.t1 = g.t0 + steps*g.dt;
	g.y0 = rand_vec(s, n, 1.5);
	g.nopt = tight_newton(1e-11);
	c.label(m.name);
	c.desc << m.name << " n=" << n << " L=" << L << " t0=" << g.t0 << " dt=" << g.dt << " steps " << steps << " y0=" << show(g.y0);
	Run r = run(o, g);
	CHECK(r.status == SUCCESS && (int)r.t.size() == steps + 1, m.name << ": status " << r.status << ", " << r.t.size() << " points");
	Cfg h = g; h.t0 = -g.t1; h.t1 = -g.t0; h.y0 = r.y.back();
	Run q = run(b, h);
	CHECK(q.status == SUCCESS && (int)q.t.size() == steps + 1, m.name << ": status " << q.status << ", " << q.t.size() << " points on the way back");
	c.nontrivial = steps >= 3;
	for (int k = 0; k <= steps; ++k) {
		double d = inf_norm(vec(q.y[k] - r.y[steps - k])), lim = 3e-9*std::exp(2*L*g.dt*k)*(1 + inf_norm(r.y[steps]));
		CHECK(d <= lim, m.name << ": value " << k << " on the way back is " << show(q.y[k]) << " instead of " << show(r.y[steps - k]) << ", off by " << d);
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C23"); }
