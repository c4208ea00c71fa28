PRE = r'''
#include "arma_include.hpp"
#include "rehuel.hpp"
#include <cstdio>
#include <cmath>
#include <functional>
typedef arma::vec V;
typedef arma::mat M;
// A nonlinear, time-dependent problem in three equations.
struct smooth_problem {
	typedef arma::mat jac_type;
	long nf = 0, nj = 0;
	V fun(double t, const V &y) {
		++nf;
		V f(3);
		f(0) = -0.7*y(0) + y(1)*y(2) + std::sin(t);
		f(1) = -y(1) + 0.5*std::cos(y(0)) + 0.2*t;
		f(2) = -0.4*y(2)*y(2) + 0.3*y(0) + std::cos(2*t);
		return f;
	}
	M jac(double t, const V &y) {
		++nj;
		M J(3, 3);
		J(0,0) = -0.7; J(0,1) = y(2); J(0,2) = y(1);
		J(1,0) = -0.5*std::sin(y(0)); J(1,1) = -1; J(1,2) = 0;
		J(2,0) = 0.3; J(2,1) = 0; J(2,2) = -0.8*y(2);
		return J;
	}
};
static newton::options tight() {
	newton::options n;
	n.tol = 1e-13; n.dx_delta = 1e-13; n.maxit = 200; n.refresh_jac = 1;
	return n;
}
static int bad(const char *what, double x = 0, double y = 0) {
	std::fprintf(stderr, "wrong: %s (%g, %g)\n", what, x, y);
	return 1;
}
'''
