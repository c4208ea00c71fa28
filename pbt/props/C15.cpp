// C15: numerical Jacobians.
#include "../roots.hpp"
using namespace pbt;

static mat call(const vec &y, System &S, double h) { return newton::approx_jacobi_matrix(y, S, h); }

struct Pinned { System S; mat J; double fmax, third; };

/// f_i(x) = sum_k a_ik sin(w_ik . x + p_ik) + linear: derivatives of all orders are known.
static Pinned smooth(Source &s, int n, const vec &y, double h)
{
	int terms = 1 + s.below(3);
	std::vector<mat> W; std::vector<vec> A, Ph;
	double third = 0;
	for (int i = 0; i < n; ++i) {
		W.push_back(rand_mat(s, terms, n, s.logreal(0.1, 3)));
		A.push_back(rand_vec(s, terms, s.logreal(0.1, 10)));
		Ph.push_back(rand_vec(s, terms, 3));
		double q = 0;
		for (int k = 0; k < terms; ++k) { double w = inf_norm(vec(W[i].row(k).t())); q += std::fabs(A[i](k))*w*w*w; }
		third = std::max(third, q);
	}
	mat B = rand_mat(s, n, n, 3.0);
	Pinned P;
	P.S.f = [=](const vec &x) { vec r = B*x; for (int i = 0; i < n; ++i) r(i) += arma::dot(A[i], arma::sin(W[i]*x + Ph[i])); return r; };
	P.S.j = [=](const vec &x) { mat J = B; for (int i = 0; i < n; ++i) J.row(i) += (W[i].t()*(A[i]%arma::cos(W[i]*x + Ph[i]))).t(); return J; };
	P.J = P.S.j(y);
	P.third = third;
	P.fmax = 1;
	for (int i = 0; i < n; ++i) P.fmax = std::max(P.fmax, arma::accu(arma::abs(A[i])) + h + 3*arma::accu(arma::abs(y)));
	return P;
}

PROP(accuracy, 50000, 1500000,
     "Smooth functions of 1 to 8 variables, points and steps h from 1e-6 to 0.3: every entry within h^2/6 times the "
     "bound on the third derivative, plus rounding; the point is unmodified. Non-trivial: at least 2 variables.")
{
	int n = rand_dim(s, 4, 8);
	vec y = rand_vec(s, n, s.logreal(0.1, 100)), keep = y;
	double h = s.logreal(1e-6, 0.3);
	Pinned P = smooth(s, n, y, h);
	c.desc << "n=" << n << " h=" << h << " y=" << show(y);
	mat J = call(y, P.S, h);
	c.nontrivial = n >= 2;
	CHECK(same_vec(y, keep), "the point was modified");
	CHECK((int)J.n_rows == n && (int)J.n_cols == n, "a " << J.n_rows << " by " << J.n_cols << " matrix for " << n << " variables");
	// The distance of the two points is rounded too.
	double lim = 1.01*h*h*P.third/6 + 1e-14*P.fmax/h + 4e-16*(1 + inf_norm(y))/h*arma::abs(P.J).max();
	mat D = arma::abs(J - P.J);
	CHECK(D.max() <= lim, "error " << D.max() << " in entry " << D.index_max() << ", limit " << lim);
}

PROP(quadratic, 40000, 1200000,
     "Quadratic functions: exact up to rounding for any step from 1e-3 to 10. Non-trivial: at least 2 variables.")
{
	int n = rand_dim(s, 4, 8);
	vec y = rand_vec(s, n, 3.0), keep = y;
	double h = s.logreal(1e-3, 10);
	std::vector<mat> Q;
	for (int i = 0; i < n; ++i) Q.push_back(rand_mat(s, n, n, 2.0));
	mat B = rand_mat(s, n, n, 3.0);
	vec q = rand_vec(s, n, 5.0);
	System S;
	S.f = [=](const vec &x) { vec v = B*x + q; for (int i = 0; i < n; ++i) v(i) += arma::dot(x, Q[i]*x); return v; };
	mat J = B;
	for (int i = 0; i < n; ++i) J.row(i) += (Q[i]*y + Q[i].t()*y).t();
	c.desc << "n=" << n << " h=" << h << " y=" << show(y);
	mat D = call(y, S, h);
	c.nontrivial = n >= 2;
	CHECK(same_vec(y, keep), "the point was modified");
	double big = 2*n*n*(3 + h)*(3 + h) + 10*n*(3 + h);
	double e = arma::abs(D - J).max();
	CHECK(e <= 1e-14*big/h + 1e-14*big, "error " << e << " for a quadratic function");
}

PROP(order, 30000, 800000,
     "Second order: for a function of cubic terms the error is h^2 times the cubic coefficient, entry by entry. Non-trivial: "
     "at least 2 variables.")
{
	int n = rand_dim(s, 4, 6);
	vec y = rand_vec(s, n, 1.0);
	double h = s.logreal(1e-3, 1);
	mat K = rand_mat(s, n, n, 2.0), B = rand_mat(s, n, n, 2.0);
	System S;
	S.f = [=](const vec &x) { return vec(B*x + K*(x%x%x)); };
	mat J = B + 3*K*arma::diagmat(y%y);
	c.desc << "n=" << n << " h=" << h << " y=" << show(y);
	mat D = call(y, S, h);
	c.nontrivial = n >= 2;
	double e = arma::abs(D - J - h*h*K).max();
	CHECK(e <= 1e-13*n/h*(1 + h)*(1 + h)*(1 + h)*(1 + h), "error " << e << " besides the cubic term");
}

struct Checked {
	typedef mat jac_type;
	Pinned P;
	int bad_i, bad_j;
	double bad;
	vec fun(const vec &x) { return P.S.fun(x); }
	mat jac(const vec &x) { mat J = P.S.jac(x); if (bad) J(bad_i, bad_j) += bad; return J; }
};

PROP(accepts, 40000, 1200000,
     "The check accepts the true Jacobian of functions with moderate derivatives, and leaves the point as it is. "
     "Non-trivial: at least 2 variables.")
{
	int n = rand_dim(s, 4, 8);
	vec y = rand_vec(s, n, 1.0), keep = y;
	Checked C{smooth(s, n, y, 1e-4), 0, 0, 0};
	if (C.P.third > 50) throw Discard();
	c.desc << "n=" << n << " y=" << show(y);
	CHECK(newton::verify_jacobi_matrix(y, C), "a correct Jacobian was refused at " << show(y));
	CHECK(same_vec(y, keep), "the point was modified");
	c.nontrivial = n >= 2;
}

FINDING(rejects, "A Jacobian that is wrong by 1 in one entry is refused by verify_jacobi_matrix.")
{
	vec y = {0.3, -0.2};
	Checked C;
	C.P.S.f = [](const vec &x) { return vec{x(0)*x(1), std::sin(x(0))}; };
	C.P.S.j = [](const vec &x) { mat J(2, 2); J(0,0) = x(1); J(0,1) = x(0); J(1,0) = std::cos(x(0)); J(1,1) = 0; return J; };
	C.bad_i = 1; C.bad_j = 1; C.bad = 1.0;
	c.nontrivial = true;
	CHECK(!newton::verify_jacobi_matrix(y, C), "a Jacobian with an entry off by 1 was accepted");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C15"); }
