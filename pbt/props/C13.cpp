// C13: Newton iteration.
#include "../roots.hpp"
using namespace pbt;

/// What must hold after any call.
static void outcome(const char *what, System &S, const vec &x0, const vec &x, const newton::options &o, const newton::status &st)
{
	CHECK(x.n_elem == x0.n_elem, what << ": result of dimension " << x.n_elem);
	CHECK(st.iters <= o.maxit, what << ": " << st.iters << " iterations of " << o.maxit);
	if (st.conv_status == newton::SUCCESS) {
		CHECK(st.iters < o.maxit, what << ": success after all " << o.maxit << " iterations");
		CHECK(x.is_finite(), what << ": success at " << show(x));
		double r = arma::norm(S.f(x));
		CHECK(std::fabs(st.res - r) <= 1e-12*r + 1e-300, what << ": reports residual " << st.res << ", it is " << r << " at " << show(x));
	} else {
		CHECK(same_vec(x, x0), what << ": failed with status " << st.conv_status << " and returned " << show(x)
		      << " instead of the starting guess " << show(x0));
		CHECK(st.conv_status == newton::INCREMENT_DIVERGE || st.conv_status == newton::ITERATION_ERROR_TOO_LARGE
		      || st.conv_status == newton::MAXIT_EXCEEDED || st.conv_status == newton::GENERIC_ERROR,
		      what << ": status " << st.conv_status << " is not a known one");
	}
	if (o.max_step > 0)
		for (size_t i = 1; i < S.at.size(); ++i) {
			double d = arma::norm(S.at[i] - S.at[i-1]);
			// An iterate far away has few digits.
			CHECK(!(d > o.max_step*(1 + 1e-9) + 1e-14*arma::norm(S.at[i])), what << ": step " << i << " of length " << d << ", limit " << o.max_step);
		}
}

static void label(Case &c, const newton::options &o, bool quiet)
{
	int bits = (o.refresh_jac > 0) + 2*o.precondition + 4*o.time_internals + 8*o.limit_step + 16*quiet;
	c.label("combo-" + std::to_string(bits));
}

PROP(good_guess, 60000, 2000000,
     "A system of 1 to 8 equations with a simple root and a guess close to it, all 32 combinations of options, with and "
     "without a step limit: success, the root, its residual. Non-trivial: at least 2 iterations.")
{
	int n = rand_dim(s, 4, 8);
	bool q = s.flag();
	RootProblem R = q ? quadratic_system(s, n, s.real(0, 1)) : mild_system(s, n, 0.25, s.flag());
	vec d = rand_vec(s, n, 1.0);
	d *= (q ? 0.05 : s.real(0, 1))/std::max(1.0, arma::norm(d));
	bool quiet;
	c.desc << R.what << " n=" << n << " guess off by " << arma::norm(d);
	newton::options o = rand_nopts(s, quiet, c);
	if (s.chance(1, 3)) { o.max_step = s.logreal(0.005, 2); c.desc << " max_step " << o.max_step; }
	o.maxit = 5000;
	label(c, o, quiet);
	vec x0 = R.root + d;
	newton::status st = rand_status(s, c);
	vec x = newton::newton_iterate(R.S, x0, o, st, quiet);
	outcome(R.what.c_str(), R.S, x0, x, o, st);
	CHECK(st.conv_status == newton::SUCCESS, R.what << ": not found, status " << st.conv_status << " after " << st.iters << " iterations");
	double lim = 3*o.dx_delta + 1e-12;
	CHECK(inf_norm(vec(x - R.root)) <= lim, R.what << ": found " << show(x) << ", the root is " << show(R.root) << ", tolerance " << o.dx_delta);
	// Quadratic convergence, when nothing holds it back.
	if (o.refresh_jac > 0 && !o.limit_step && o.max_step <= 0)
		CHECK(st.iters <= 12, R.what << ": " << st.iters << " iterations");
	c.nontrivial = st.iters >= 2;
}

PROP(any_guess, 60000, 2000000,
     "Systems with one root and a guess anywhere, and few iterations allowed: success with the root, or failure with the "
     "guess. Non-trivial: at least 2 iterations.")
{
	int n = rand_dim(s, 4, 8);
	RootProblem R = mild_system(s, n, 0.25, s.flag());
	vec x0 = rand_vec(s, n, s.logreal(0.1, 100));
	bool quiet;
	c.desc << R.what << " n=" << n;
	newton::options o = rand_nopts(s, quiet, c);
	o.maxit = s.flag() ? s.range(1, 8) : s.range(1, 2000);
	if (s.chance(1, 2)) o.max_step = s.logreal(0.001, 10);
	c.desc << " maxit " << o.maxit << " max_step " << o.max_step << " x0=" << show(x0);
	label(c, o, quiet);
	newton::status st = rand_status(s, c);
	vec x = newton::newton_iterate(R.S, x0, o, st, quiet);
	outcome(R.what.c_str(), R.S, x0, x, o, st);
	c.label(st.conv_status == newton::SUCCESS ? "success" : "failure");
	if (st.conv_status == newton::SUCCESS)
		CHECK(inf_norm(vec(x - R.root)) <= 3*o.dx_delta + 1e-11, R.what << ": found " << show(x) << ", the root is " << show(R.root));
	c.nontrivial = st.iters >= 2;
}

PROP(linear, 40000, 1200000,
     "Linear system of 1 to 10 equations, any guess, any refreshing and preconditioning: at most two iterations. "
     "Non-trivial: at least 2 equations.")
{
	int n = rand_dim(s, 4, 10);
	RootProblem R = linear_system(s, n);
	vec x0 = rand_vec(s, n, 10);
	bool quiet;
	c.desc << "linear n=" << n;
	newton::options o = rand_nopts(s, quiet, c);
	o.limit_step = false;
	o.dx_delta = std::max(o.dx_delta, 1e-8);
	o.maxit = s.range(3, 100);
	label(c, o, quiet);
	newton::status st = rand_status(s, c);
	vec x = newton::newton_iterate(R.S, x0, o, st, quiet);
	outcome("linear", R.S, x0, x, o, st);
	CHECK(st.conv_status == newton::SUCCESS && st.iters <= 2, "linear: status " << st.conv_status << " after " << st.iters << " iterations");
	CHECK(inf_norm(vec(x - R.root)) <= 1e-9, "linear: found " << show(x) << ", the root is " << show(R.root));
	c.nontrivial = n >= 2;
}

PROP(wild, 60000, 2000000,
     "Functions without a root, with double roots, singular or exploding: success only at a point where the Newton "
     "correction is small, failure with the guess. Non-trivial: at least 3 iterations or a failure.")
{
	RootProblem R = wild_system(s);
	vec x0 = rand_vec(s, R.n, s.logreal(0.1, 30));
	bool quiet;
	c.desc << R.what;
	newton::options o = rand_nopts(s, quiet, c);
	o.maxit = s.range(1, 300);
	if (s.chance(1, 3)) o.max_step = s.logreal(0.01, 10);
	c.desc << " maxit " << o.maxit << " max_step " << o.max_step << " x0=" << show(x0);
	label(c, o, quiet);
	c.label(R.what);
	newton::status st = rand_status(s, c);
	vec x = newton::newton_iterate(R.S, x0, o, st, quiet);
	outcome(R.what.c_str(), R.S, x0, x, o, st);
	c.label(st.conv_status == newton::SUCCESS ? "success" : "failure");
	c.nontrivial = st.iters >= 3 || st.conv_status != newton::SUCCESS;
	if (st.conv_status == newton::SUCCESS && o.refresh_jac > 0 && R.n == 1) {
		double F = R.S.f(x)(0), J = R.S.j(x)(0, 0);
		// The function changes its slope by little over the last step.
		double J2 = R.S.j(vec{x(0) + 2*o.dx_delta})(0, 0), J3 = R.S.j(vec{x(0) - 2*o.dx_delta})(0, 0);
		if (std::fabs(J) > 0 && std::fabs(J2/J - 1) < 0.2 && std::fabs(J3/J - 1) < 0.2)
			CHECK(std::fabs(F/J) <= 2*o.dx_delta, R.what << ": success at " << x(0) << " where the function is " << F
			      << " and its slope " << J);
	}
	if (R.what == "no root") CHECK(st.conv_status != newton::SUCCESS, "success for a function without a root, at " << x(0));
}

PROP(iterates, 30000, 1000000,
     "The iterates themselves, from the calls of the function, against the Newton formula (frozen or fresh Jacobian, damping "
     "1/(1+|F|^2), step limit). Non-trivial: at least 2 iterations.")
{
	int n = rand_dim(s, 3, 6);
	RootProblem R = s.flag() ? mild_system(s, n, 0.25, s.flag()) : quadratic_system(s, n, s.real(0, 0.3));
	vec x0 = R.root + rand_vec(s, n, s.logreal(0.01, 1));
	bool quiet;
	c.desc << R.what << " n=" << n;
	newton::options o = rand_nopts(s, quiet, c);
	o.maxit = s.range(2, 60);
	if (s.chance(1, 2)) o.max_step = s.logreal(0.01, 3);
	c.desc << " maxit " << o.maxit << " max_step " << o.max_step << " x0=" << show(x0);
	label(c, o, quiet);
	newton::status st = rand_status(s, c);
	newton::newton_iterate(R.S, x0, o, st, quiet);
	c.nontrivial = st.iters >= 2;
	// Distinct points, in order.
	std::vector<vec> p;
	for (auto &x : R.S.at) if (p.empty() || !same_vec(p.back(), x)) p.push_back(x);
	CHECK(p.size() && same_vec(p[0], x0), "the first evaluation is not at the guess");
	CHECK((int)p.size() <= st.iters + 1, p.size() << " points in " << st.iters << " iterations");
	mat J0 = R.S.j(x0);
	for (size_t i = 1; i < p.size(); ++i) {
		vec F = R.S.f(p[i-1]);
		mat J = o.refresh_jac > 0 ? R.S.j(p[i-1]) : J0;
		// Until it has run away, or has no direction to go.
		if (!(inf_norm(F) < 1e50) || !(inf_norm(p[i-1]) < 1e50) || arma::rcond(J) < 1e-6) break;
		vec d = -arma::solve(J, F);
		if (o.limit_step) d /= 1 + arma::dot(F, F);
		double len = arma::norm(d);
		if (o.max_step > 0 && len > o.max_step) d *= o.max_step/len;
		double e = inf_norm(vec(p[i] - p[i-1] - d));
		CHECK(e <= 1e-7*arma::norm(d) + 1e-11, R.what << ": iterate " << i << " moved by " << show(vec(p[i] - p[i-1])) << " instead of " << show(d));
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C13"); }
