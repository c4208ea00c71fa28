// Generators of nonlinear systems F(x) = 0.
#ifndef PBT_ROOTS_HPP
#define PBT_ROOTS_HPP
#include "ode.hpp"
namespace pbt {

struct System {
	typedef mat jac_type;
	std::function<vec(const vec &)> f;
	std::function<mat(const vec &)> j;
	std::vector<vec> at;        ///< where fun was called
	unsigned long nf = 0, nj = 0;
	vec fun(const vec &x) { ++nf; at.push_back(x); if (nf > 200000) throw BudgetExceeded{nf}; return f(x); }
	mat jac(const vec &x) { ++nj; return j(x); }
};

struct RootProblem { System S; vec root; int n; std::string what; double curv; };

/// D P (x + eps W tanh(C x)) - same at the root: one root, the Jacobian close to a known matrix.
inline RootProblem mild_system(Source &s, int n, double eps, bool scaled)
{
	RootProblem R;
	R.n = n;
	mat W = rand_mat(s, n, n, eps/n), C = rand_mat(s, n, n, 1.0);
	for (int i = 0; i < n; ++i) C.row(i) /= std::max(1.0, arma::accu(arma::abs(C.row(i))));
	mat M = scaled ? rand_orth(s, n) : mat(arma::eye(n, n));
	if (scaled) for (int i = 0; i < n; ++i) M.row(i) *= (s.flag() ? 1 : -1)*s.logreal(0.1, 10);
	R.root = rand_vec(s, n, 2.0);
	vec r0 = M*(R.root + W*arma::tanh(C*R.root));
	R.S.f = [=](const vec &x) { return vec(M*(x + W*arma::tanh(C*x)) - r0); };
	R.S.j = [=](const vec &x) { vec th = arma::tanh(C*x); return mat(M*(arma::eye(n, n) + W*arma::diagmat(1 - th%th)*C)); };
	R.curv = eps;
	R.what = "mild";
	return R;
}

/// Quadratic: B (x - r) + q(x - r), with a regular B.
inline RootProblem quadratic_system(Source &s, int n, double q)
{
	RootProblem R;
	R.n = n;
	mat B = rand_orth(s, n);
	for (int i = 0; i < n; ++i) B.row(i) *= (s.flag() ? 1 : -1)*s.logreal(0.3, 3);
	std::vector<mat> Q;
	for (int i = 0; i < n; ++i) Q.push_back(rand_mat(s, n, n, q/n));
	vec root = rand_vec(s, n, 2.0);
	R.root = root;
	R.S.f = [=](const vec &x) { vec d = x - root, v = B*d; for (int i = 0; i < n; ++i) v(i) += arma::dot(d, Q[i]*d); return v; };
	R.S.j = [=](const vec &x) { vec d = x - root; mat J = B; for (int i = 0; i < n; ++i) J.row(i) += (Q[i]*d + Q[i].t()*d).t(); return J; };
	R.curv = q;
	R.what = "quadratic";
	return R;
}

inline RootProblem linear_system(Source &s, int n)
{
	RootProblem R;
	R.n = n;
	mat B = rand_orth(s, n), Q = rand_orth(s, n);
	for (int i = 0; i < n; ++i) B.row(i) *= (s.flag() ? 1 : -1)*s.logreal(0.03, 30);
	B = Q*B;
	vec root = rand_vec(s, n, 5.0);
	R.root = root;
	R.S.f = [=](const vec &x) { return vec(B*(x - root)); };
	R.S.j = [=](const vec &) { return B; };
	R.curv = 0;
	R.what = "linear";
	return R;
}

/// Anything: no roots, several, singular Jacobians, wild growth, NaN.
inline RootProblem wild_system(Source &s)
{
	RootProblem R;
	int k = s.below(9);
	double a = s.real(-3, 3), b = s.logreal(0.1, 10);
	R.n = 1;
	auto scalar = [&](std::function<double(double)> f, std::function<double(double)> j) {
		R.S.f = [f](const vec &x) { return vec{f(x(0))}; };
		R.S.j = [j](const vec &x) { mat J(1, 1); J(0,0) = j(x(0)); return J; };
	};
	switch (k) {
	case 0: scalar([=](double x) { return x*x + b; }, [](double x) { return 2*x; }); R.what = "no root"; break;
	case 1: scalar([=](double x) { return (x - a)*(x - a); }, [=](double x) { return 2*(x - a); }); R.what = "double root"; break;
	case 2: scalar([=](double x) { return std::atan(b*(x - a)); }, [=](double x) { double u = b*(x - a); return b/(1 + u*u); }); R.what = "atan"; break;
	case 3: scalar([=](double x) { return std::exp(b*x) - 1 - a; }, [=](double x) { return b*std::exp(b*x); }); R.what = "exp"; break;
	case 4: scalar([=](double x) { return std::log(x) - a; }, [=](double x) { return 1/x; }); R.what = "log"; break;
	case 5: scalar([=](double x) { return x*x*x - 2*x + a; }, [=](double x) { return 3*x*x - 2; }); R.what = "cubic"; break;
	case 6: scalar([=](double x) { return std::sin(b*x) + 0.3*a; }, [=](double x) { return b*std::cos(b*x); }); R.what = "sin"; break;
	case 7: // gradient of Rosenbrock
		R.n = 2; R.what = "rosenbrock";
		R.S.f = [=](const vec &x) { return vec{2*(x(0) - 1) - 4*b*x(0)*(x(1) - x(0)*x(0)), 2*b*(x(1) - x(0)*x(0))}; };
		R.S.j = [=](const vec &x) { mat J(2, 2); J(0,0) = 2 - 4*b*(x(1) - 3*x(0)*x(0)); J(0,1) = J(1,0) = -4*b*x(0); J(1,1) = 2*b; return J; };
		break;
	default: // singular everywhere
		R.n = 2; R.what = "singular";
		R.S.f = [=](const vec &x) { double u = x(0) + x(1) - a; return vec{u, b*u + (a > 0 ? 0.0 : 1.0)}; };
		R.S.j = [=](const vec &) { mat J(2, 2); J(0,0) = J(0,1) = 1; J(1,0) = J(1,1) = b; return J; };
		break;
	}
	R.root = vec();
	return R;
}

inline newton::options rand_nopts(Source &s, bool &quiet, Case &c)
{
	newton::options o;
	o.dx_delta = s.logreal(1e-10, 1e-4);
	o.tol = s.logreal(1e-10, 1e-4);
	o.refresh_jac = s.flag() ? s.range(1, 20) : (s.flag() ? 0 : -1);
	o.precondition = s.flag();
	o.time_internals = s.flag();
	o.limit_step = s.flag();
	quiet = s.flag();
	c.desc << " dx_delta " << o.dx_delta << " tol " << o.tol << " refresh " << o.refresh_jac << (o.precondition ? " precondition" : "")
	       << (o.time_internals ? " time" : "") << (o.limit_step ? " limit_step" : "") << (quiet ? "" : " loud");
	return o;
}

/// A status object: a fresh one, or one that says something about an earlier solve.
inline newton::status rand_status(Source &s, Case &c)
{
	newton::status st;
	if (s.chance(2, 5)) {
		st.conv_status = s.chance(2, 3) ? (int)newton::SUCCESS : s.pick(std::vector<int>{newton::INCREMENT_DIVERGE, newton::ITERATION_ERROR_TOO_LARGE, newton::MAXIT_EXCEEDED, newton::GENERIC_ERROR});
		st.iters = s.range(0, 60);
		st.res = s.chance(1, 4) ? NAN : s.logreal(1e-14, 1e3);
		st.eta_final = s.real(-2, 2);
		c.desc << " status object of an earlier solve (" << st.conv_status << ", " << st.iters << " iterations)";
		c.label("used status");
	}
	return st;
}
} // namespace pbt
#endif
