// Instrumented right-hand sides and generators of random problems.
#ifndef PBT_ODE_HPP
#define PBT_ODE_HPP

#include "engine.hpp"
#include "rehuel.hpp"

namespace pbt {

typedef arma::vec vec;
typedef arma::mat mat;

struct Call { double t; vec y; bool jac; };

/// The functor given to the library: counts and optionally traces its calls.
struct Ode {
	typedef arma::mat jac_type;
	std::function<vec(double, const vec &)> f;
	std::function<mat(double, const vec &)> j;
	unsigned long long nf = 0, nj = 0, budget = 1000000;
	std::vector<Call> *trace = nullptr;

	vec fun(double t, const vec &y)
	{
		if (++nf + nj > budget) throw BudgetExceeded{nf + nj};
		if (trace) trace->push_back(Call{t, y, false});
		return f(t, y);
	}
	mat jac(double t, const vec &y)
	{
		if (nf + ++nj > budget) throw BudgetExceeded{nf + nj};
		if (trace) trace->push_back(Call{t, y, true});
		return j(t, y);
	}
};

/// y' = A y + B tanh(C y + d sin(w t + p)) + g cos(v t) + q
struct SmoothSystem {
	int n;
	mat A, B, C;
	vec d, g, q;
	double w, ph, v;
	vec fun(double t, const vec &y) const
	{
		vec r = A*y + g*std::cos(v*t) + q;
		if (B.n_rows) r += B*arma::tanh(C*y + d*std::sin(w*t + ph));
		return r;
	}
	mat jac(double t, const vec &y) const
	{
		if (!B.n_rows) return A;
		vec th = arma::tanh(C*y + d*std::sin(w*t + ph));
		vec sech2 = 1.0 - th%th;
		return A + B*arma::diagmat(sech2)*C;
	}
	Ode ode() const
	{
		SmoothSystem me = *this;
		Ode o;
		o.f = [me](double t, const vec &y) { return me.fun(t, y); };
		o.j = [me](double t, const vec &y) { return me.jac(t, y); };
		return o;
	}
};

inline mat rand_mat(Source &s, int n, int m, double scale)
{
	mat M(n, m);
	for (int i = 0; i < n; ++i)
		for (int j = 0; j < m; ++j) M(i,j) = s.real(-scale, scale);
	return M;
}

inline vec rand_vec(Source &s, int n, double scale)
{
	vec x(n);
	for (int i = 0; i < n; ++i) x(i) = s.real(-scale, scale);
	return x;
}

/// Orthogonal matrix from Givens rotations.
inline mat rand_orth(Source &s, int n)
{
	mat Q = arma::eye(n, n);
	for (int k = 0; k < 2*n && n > 1; ++k) {
		int i = s.below(n), j = s.below(n - 1);
		if (j >= i) ++j;
		double th = 6.283185307179586*s.unit();
		mat G = arma::eye(n, n);
		G(i,i) = G(j,j) = std::cos(th);
		G(i,j) = -std::sin(th);
		G(j,i) = std::sin(th);
		Q = Q*G;
	}
	return Q;
}

inline int rand_dim(Source &s, int common, int max)
{
	// Mostly small, now and then large, seldom very large.
	if (s.chance(1, 150)) return std::min(8*max, 40) - (int)s.below(std::min(4*max, 20));
	if (s.chance(1, 12)) return 1 + (int)s.below(max);
	return 1 + (int)s.below(common);
}

/// A random smooth system with Lipschitz constant of about L.
inline SmoothSystem rand_system(Source &s, int n, double L, bool autonomous = false,
                                bool linear = false)
{
	SmoothSystem S;
	S.n = n;
	double sc = L/std::sqrt((double)n);
	S.A = rand_mat(s, n, n, sc);
	S.w = S.ph = S.v = 0;
	S.d = S.g = S.q = arma::zeros(n);
	bool nonlin = !linear && !s.chance(1, 6);
	if (nonlin) {
		S.B = rand_mat(s, n, n, sc);
		S.C = rand_mat(s, n, n, 1.0/std::sqrt((double)n));
	}
	// Entries that are all at their largest exceed the Lipschitz constant asked for, and implicit steps should
	// be solvable in every case.
	double lip = arma::norm(S.A, 2) + (nonlin ? arma::norm(S.B, 2)*arma::norm(S.C, 2) : 0.0);
	double most = (n == 1 ? 1.05 : 1.3)*L;
	if (lip > most) { S.A *= most/lip; if (nonlin) S.B *= most/lip; }
	if (s.chance(3, 4)) S.q = rand_vec(s, n, L);
	if (!autonomous && !s.chance(1, 8)) {
		S.g = rand_vec(s, n, L);
		S.v = s.real(-2*L, 2*L);
		if (nonlin) {
			S.d = rand_vec(s, n, 1.0);
			S.w = s.real(-2*L, 2*L);
			S.ph = s.real(-3, 3);
		}
	}
	return S;
}

/// A starting time: often 0, often negative or far from 0.
inline double rand_t0(Source &s)
{
	switch (s.below(5)) {
	case 0: return 0.0;
	case 1: return s.real(-2, 2);
	case 2: return s.real(-50, 50);
	case 3: return (double)s.range(-8, 8);
	default: return s.real(-1000, 1000);
	}
}

inline double inf_norm(const vec &x) { return x.n_elem ? arma::max(arma::abs(x)) : 0.0; }

inline bool same_bits(double a, double b)
{ return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }
inline bool same_vec(const vec &a, const vec &b)
{
	if (a.n_elem != b.n_elem) return false;
	for (arma::uword i = 0; i < a.n_elem; ++i) if (!same_bits(a(i), b(i))) return false;
	return true;
}

inline std::string show(const vec &x)
{
	std::ostringstream o; o.precision(6);
	o << "[";
	for (arma::uword i = 0; i < x.n_elem && i < 6; ++i) o << (i ? " " : "") << x(i);
	if (x.n_elem > 6) o << " ...(" << x.n_elem << ")";
	o << "]";
	return o.str();
}

// ------------------------------------------------------------ methods

struct MethodInfo { int code; const char *name; bool implicit; bool embedded; };

inline const std::vector<MethodInfo> &erk_methods()
{
	static const std::vector<MethodInfo> m = {
		{erk::EXPLICIT_EULER, "EXPLICIT_EULER", false, false},
		{erk::RUNGE_KUTTA_4, "RUNGE_KUTTA_4", false, false},
		{erk::BOGACKI_SHAMPINE_32, "BOGACKI_SHAMPINE_32", false, true},
		{erk::CASH_KARP_54, "CASH_KARP_54", false, true},
		{erk::DORMAND_PRINCE_54, "DORMAND_PRINCE_54", false, true},
		{erk::FEHLBERG_54, "FEHLBERG_54", false, true} };
	return m;
}
inline const std::vector<MethodInfo> &irk_methods()
{
	static const std::vector<MethodInfo> m = {
		{irk::IMPLICIT_EULER, "IMPLICIT_EULER", true, false},
		{irk::RADAU_IIA_32, "RADAU_IIA_32", true, true},
		{irk::RADAU_IIA_53, "RADAU_IIA_53", true, true},
		{irk::RADAU_IIA_95, "RADAU_IIA_95", true, true},
		{irk::RADAU_IIA_137, "RADAU_IIA_137", true, true},
		{irk::LOBATTO_IIIA_43, "LOBATTO_IIIA_43", true, true},
		{irk::LOBATTO_IIIA_127, "LOBATTO_IIIA_127", true, true},
		{irk::LOBATTO_IIIC_43, "LOBATTO_IIIC_43", true, true},
		{irk::LOBATTO_IIIC_64, "LOBATTO_IIIC_64", true, true},
		{irk::LOBATTO_IIIC_85, "LOBATTO_IIIC_85", true, true},
		{irk::GAUSS_LEGENDRE_42, "GAUSS_LEGENDRE_42", true, true},
		{irk::GAUSS_LEGENDRE_147, "GAUSS_LEGENDRE_147", true, true} };
	return m;
}
inline std::vector<MethodInfo> embedded(const std::vector<MethodInfo> &v)
{
	std::vector<MethodInfo> r;
	for (auto &m : v) if (m.embedded) r.push_back(m);
	return r;
}

inline newton::options tight_newton(double tol = 1e-11)
{
	newton::options o;
	o.tol = tol;
	o.dx_delta = tol;
	o.maxit = 200;
	return o;
}

} // namespace pbt

#endif // PBT_ODE_HPP
