// What the checks of the multistep methods share.
#ifndef PBT_MULTI_HPP
#define PBT_MULTI_HPP
#include "exact.hpp"
#include "multistep.hpp"
namespace pbt {

struct MCfg { bool bdf; int order; double t0, t1, dt; vec y0; };
struct MRun { int status; std::vector<double> t; std::vector<vec> y; };

template <typename F> MRun mrun(F &f, const MCfg &g)
{
	multistep::solver_options so;
	so.order = g.order;
	auto o = g.bdf ? multistep::bdf(f, g.t0, g.t1, g.y0, so, g.dt) : multistep::adams_bashforth(f, g.t0, g.t1, g.y0, so, g.dt);
	return MRun{o.status, o.t_vals, o.y_vals};
}

inline int n_start(const MCfg &g) { return g.bdf ? g.order + 1 : g.order; }

/// Lagrange interpolation weights by long double arithmetic give the coefficients of both families:
/// Adams-Bashforth integrates the interpolant of the slopes, BDF differentiates that of the values.
inline vec ab_weights(int k)
{
	// sum_i w_i (-i)^q = 1/(q+1), q = 0..k-1
	lmat M(k, lvec(k)); lvec r(k);
	for (int q = 0; q < k; ++q) { for (int i = 0; i < k; ++i) M[q][i] = std::pow((ld)-i, (ld)q); if (q == 0) for (int i = 0; i < k; ++i) M[0][i] = 1; r[q] = (ld)1/(q + 1); }
	return to_vec(lsolve(M, r));
}
/// Weights a_0 (of the new value), a_1, ... with sum a_i y_{n+1-i} = dt f_{n+1}.
inline vec bdf_weights(int k)
{
	// exact for (1 - i)^q about the new point: sum_i a_i (-i)^q = [q == 1]
	lmat M(k + 1, lvec(k + 1)); lvec r(k + 1, 0);
	for (int q = 0; q <= k; ++q) for (int i = 0; i <= k; ++i) M[q][i] = q == 0 ? 1 : std::pow((ld)-i, (ld)q);
	r[1] = 1;
	return to_vec(lsolve(M, r));
}

/// The solution after dt, far more accurately than any tolerance here: the reference 13th order Radau method in substeps.
inline bool advance(const Ode &o, double t, vec &y, double h, double L)
{
	const RefTableau &R = reference().at(irk::GAUSS_LEGENDRE_147);
	int N = 2 + (int)(h*L*8);
	for (int k = 0; k < N; ++k) {
		vec yn; mat K;
		if (!ref_step(R, o.f, o.j, t + k*(h/N), y, h/N, yn, K)) return false;
		y = yn;
	}
	return true;
}

/// Checks the time grid and the shape of a complete result.
inline void check_grid(const MCfg &g, const MRun &r, const char *name)
{
	CHECK(r.status == SUCCESS, name << ": status " << r.status);
	CHECK(r.t.size() == r.y.size(), name << ": " << r.t.size() << " times and " << r.y.size() << " values");
	CHECK(r.t.size() >= 2 && r.t[0] == g.t0 && same_vec(r.y[0], g.y0), name << ": does not start at the initial point");
	double dt = std::min(g.dt, g.t1 - g.t0);
	if (g.t0 + g.dt > g.t1) dt = g.t1 - g.t0;
	for (size_t k = 0; k < r.t.size(); ++k) {
		double want = g.t0 + k*dt;
		CHECK(std::fabs(r.t[k] - want) <= 4e-16*(k + 1)*(std::fabs(g.t0) + std::fabs(want)), name << ": time " << k << " is " << r.t[k] << " instead of " << want);
		CHECK(r.y[k].n_elem == g.y0.n_elem && r.y[k].is_finite(), name << ": value " << k << " is " << show(r.y[k]));
	}
	CHECK(r.t.back() >= g.t1, name << ": ends at " << r.t.back() << " before " << g.t1);
	if ((int)r.t.size() > n_start(g)) CHECK(r.t[r.t.size() - 2] < g.t1, name << ": goes on after " << r.t[r.t.size() - 2] << ", beyond " << g.t1);
}

/// A random problem for a multistep method.
struct MProblem { SmoothSystem sys; double L; MCfg g; };
inline MProblem multi_problem(Source &s, Case &c, bool bdf, int max_steps)
{
	MProblem P;
	P.g.bdf = bdf;
	P.g.order = 1 + s.below(bdf ? 6 : 5);
	int n = rand_dim(s, 3, 6);
	P.L = s.logreal(0.2, 5);
	P.sys = rand_system(s, n, P.L);
	P.sys.A -= 2.5*P.L*arma::eye(n, n);
	P.g.y0 = rand_vec(s, n, 2);
	P.g.t0 = rand_t0(s);
	P.g.dt = s.logreal(0.005, bdf ? 0.2 : 0.1)/P.L;
	double steps = n_start(P.g) + s.below(max_steps) + 1;
	if (s.chance(1, 100)) steps += s.below(200);
	switch (s.below(4)) { case 0: break; case 1: steps -= 0.5; break; case 2: steps -= s.real(0.01, 0.99); break; default: steps -= s.unit()*1e-3; }
	P.g.t1 = P.g.t0 + steps*P.g.dt;
	c.desc << (bdf ? "BDF-" : "AB-") << P.g.order << " n=" << n << " L=" << P.L << " [" << P.g.t0 << ", " << P.g.t1 << "] dt=" << P.g.dt << " y0=" << show(P.g.y0);
	c.label((bdf ? "BDF-" : "AB-") + std::to_string(P.g.order));
	return P;
}

/// Solution: a vector of polynomials of the given degree in (t - t0); right-hand side with a coupling that vanishes on it.
inline ExactProblem polynomial_problem(Source &s, int n, int degree, double L, double t0, double T)
{
	ExactProblem P;
	P.n = n; P.rate = L;
	mat a(n, degree + 1);
	for (int i = 0; i < n; ++i) for (int k = 0; k <= degree; ++k) a(i,k) = s.real(-2, 2)/std::pow(T, k);
	for (int i = 0; i < n; ++i) if (std::fabs(a(i,degree)) < 0.3/std::pow(T, degree)) a(i,degree) = 1/std::pow(T, degree);
	mat B = s.chance(1, 4) ? mat(arma::zeros(n, n)) : rand_mat(s, n, n, L/n);
	B -= 1.5*L*arma::eye(n, n)*(arma::accu(arma::abs(B)) > 0);
	double c3 = s.chance(1, 3) && arma::accu(arma::abs(B)) > 0 ? L*s.unit() : 0;
	auto u = [=](double t) { vec r = arma::zeros(n); double x = t - t0; for (int i = 0; i < n; ++i) for (int k = degree; k >= 0; --k) r(i) = r(i)*x + a(i,k); return r; };
	auto du = [=](double t) { vec r = arma::zeros(n); double x = t - t0; for (int i = 0; i < n; ++i) for (int k = degree; k >= 1; --k) r(i) = r(i)*x + k*a(i,k); return r; };
	P.sol = u;
	P.f = [=](double t, const vec &y) { vec e = y - u(t); return vec(du(t) + B*e - c3*(e%e%e)); };
	P.j = [=](double t, const vec &y) { vec e = y - u(t); vec d = -3*c3*(e%e); return mat(B + arma::diagmat(d)); };
	return P;
}

} // namespace pbt
#endif
