// Problems with known solutions.
#ifndef PBT_EXACT_HPP
#define PBT_EXACT_HPP
#include "run.hpp"
namespace pbt {

struct ExactProblem {
	int n = 0;
	double rate = 1;   ///< the fastest time scale of the solution
	std::function<vec(double)> sol;
	std::function<vec(double, const vec &)> f;
	std::function<mat(double, const vec &)> j;
	std::string what;
	Ode ode() const { Ode o; o.f = f; o.j = j; return o; }
};

/// y' = u'(t) + Q( -d*(e) - k*e^3 ), e = Q^T(y - u(t)); solution u.
inline ExactProblem forced_problem(Source &s, int n, double L, const vec &d)
{
	ExactProblem P;
	P.n = n; P.rate = L;
	int terms = 1 + s.below(3);
	mat a(n, terms), p(n, terms), w(n, terms);
	for (int i = 0; i < n; ++i) for (int k = 0; k < terms; ++k) {
		a(i,k) = s.real(-1.5, 1.5); p(i,k) = s.real(-3, 3); w(i,k) = L*s.real(-1, 1);
	}
	// Some derivative of some component is always of the size it should have, so that
	// the error estimate cannot vanish by accident for a while.
	for (int i = 0; i < n; ++i) { a(i,0) = s.real(0.3, 1.5); w(i,0) = L*s.real(0.5, 1); }
	if (n > 1) { a(1,0) = a(0,0); w(1,0) = w(0,0); p(1,0) = p(0,0) + 1.5707963267948966; }
	mat Q = rand_orth(s, n);
	double c3 = s.chance(1, 2) ? L*s.real(0, 1) : 0;
	auto u = [a, p, w, n, terms](double t) { vec r = arma::zeros(n);
		for (int i = 0; i < n; ++i) for (int k = 0; k < terms; ++k) r(i) += a(i,k)*std::sin(w(i,k)*t + p(i,k));
		return r; };
	auto du = [a, p, w, n, terms](double t) { vec r = arma::zeros(n);
		for (int i = 0; i < n; ++i) for (int k = 0; k < terms; ++k) r(i) += a(i,k)*w(i,k)*std::cos(w(i,k)*t + p(i,k));
		return r; };
	P.sol = u;
	P.f = [=](double t, const vec &y) { vec e = Q.t()*(y - u(t));
		vec r = -(d%e) - c3*(e%e%e); return vec(du(t) + Q*r); };
	P.j = [=](double t, const vec &y) { vec e = Q.t()*(y - u(t));
		vec r = -d - 3*c3*(e%e); return mat(Q*arma::diagmat(r)*Q.t()); };
	P.what = "forced";
	return P;
}

/// Independent autonomous equations with closed solutions, mixed orthogonally.
inline ExactProblem autonomous_problem(Source &s, int n, double L, double t0, bool may_grow)
{
	ExactProblem P;
	P.rate = L;
	struct Blk { int kind; int at; double r, a, b; };
	std::vector<Blk> bl;
	int at = 0;
	std::string names;
	while (at < n) {
		Blk b;
		b.kind = s.below(5);
		if (b.kind == 1 && at + 2 > n) b.kind = 0;
		b.at = at;
		b.r = L*s.real(0.1, 1);
		b.a = s.real(0.1, 1.5); b.b = s.real(-3, 3);
		// The equilibrium -1 of kind 4 is unstable: stay away from it.
		if (b.kind == 4) b.b = s.real(-0.5, 2);
		if (b.kind == 0 && may_grow && s.chance(1, 4)) b.r = -b.r;
		names += "DHLBA"[b.kind];
		at += b.kind == 1 ? 2 : 1;
		bl.push_back(b);
	}
	P.n = n;
	mat Q = s.chance(1, 3) ? mat(arma::eye(n, n)) : rand_orth(s, n);
	P.sol = [=](double t) {
		vec x(n); double T = t - t0;
		for (auto &b : bl) switch (b.kind) {
		case 0: x(b.at) = b.b*std::exp(-b.r*T); break;            // y' = -r y
		case 1: x(b.at) = b.a*std::sin(b.r*T + b.b); x(b.at+1) = b.a*std::cos(b.r*T + b.b); break;
		case 2: x(b.at) = 1.0/(1.0 + std::exp(-b.r*T)*b.a*3); break; // y' = r y (1-y)
		case 3: x(b.at) = 1.0/std::sqrt(1.0/(b.a*b.a) + 2*b.r*T); break; // y' = -r y^3
		case 4: x(b.at) = std::tanh(b.r*T + b.b); break;           // y' = r (1-y^2)
		}
		return vec(Q*x);
	};
	P.f = [=](double, const vec &y) {
		vec x = Q.t()*y, r(n);
		for (auto &b : bl) { double v = x(b.at); switch (b.kind) {
		case 0: r(b.at) = -b.r*v; break;
		case 1: r(b.at) = b.r*x(b.at+1); r(b.at+1) = -b.r*v; break;
		case 2: r(b.at) = b.r*v*(1 - v); break;
		case 3: r(b.at) = -b.r*v*v*v; break;
		case 4: r(b.at) = b.r*(1 - v*v); break;
		} }
		return vec(Q*r);
	};
	P.j = [=](double, const vec &y) {
		vec x = Q.t()*y; mat D = arma::zeros(n, n);
		for (auto &b : bl) { double v = x(b.at); int i = b.at; switch (b.kind) {
		case 0: D(i,i) = -b.r; break;
		case 1: D(i,i+1) = b.r; D(i+1,i) = -b.r; break;
		case 2: D(i,i) = b.r*(1 - 2*v); break;
		case 3: D(i,i) = -3*b.r*v*v; break;
		case 4: D(i,i) = -2*b.r*v; break;
		} }
		return mat(Q*D*Q.t());
	};
	P.what = "autonomous " + names;
	return P;
}

/// The largest error of the trajectory in units of the tolerance.
inline double error_ratio(const ExactProblem &P, const Run &r, double atol, double rtol, size_t &where)
{
	double worst = 0, big = 0;
	where = 0;
	for (size_t i = 0; i < r.t.size(); ++i) {
		vec u = P.sol(r.t[i]);
		// The norm of the library's own tolerance: root mean square over components. Errors
		// made when the solution was larger, or in a coupled component, may still be there.
		big = std::max(big, inf_norm(u));
		double q = 0;
		for (arma::uword k = 0; k < u.n_elem; ++k) {
			double e = (r.y[i](k) - u(k))/(atol + rtol*big);
			q += e*e;
		}
		q = std::sqrt(q/u.n_elem);
		if (!(q <= worst)) { worst = q; where = i; }
	}
	return worst;
}
inline std::string bucket(const char *n, double x)
{
	std::ostringstream o;
	double b = x < 1 ? 1 : x < 3 ? 3 : x < 10 ? 10 : x < 30 ? 30 : x < 100 ? 100 : x < 300 ? 300 : 1e9;
	o << n << "<" << b;
	return o.str();
}
} // namespace pbt
#endif
