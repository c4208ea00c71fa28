// C14: Broyden iteration.
#include "../roots.hpp"
using namespace pbt;

static void outcome(const char *what, System &S, const vec &x0, const vec &x, const newton::options &o, const newton::status &st)
{
	CHECK(x.n_elem == x0.n_elem, what << ": result of dimension " << x.n_elem);
	CHECK(S.at.size() && same_vec(S.at[0], x0), what << ": the first evaluation is not at the guess");
	CHECK((long)S.nf == std::max(1, st.iters), what << ": " << S.nf << " evaluations in " << st.iters << " iterations");
	CHECK(S.nj == 0, what << ": evaluated a Jacobian");
	CHECK(st.iters <= std::max(1, o.maxit), what << ": " << st.iters << " iterations of " << o.maxit);
	double r = arma::norm(S.f(x));
	if (st.conv_status == newton::SUCCESS) {
		CHECK(std::isfinite(r) && x.is_finite(), what << ": success at " << show(x) << " with residual " << r);
		CHECK(std::fabs(st.res - r) <= 1e-12*r + 1e-300, what << ": reports residual " << st.res << ", it is " << r);
		double step = S.at.size() > 1 ? inf_norm(vec(S.at.back() - S.at[S.at.size()-2])) : HUGE_VAL;
		CHECK(r <= o.tol*(1 + 1e-9) || step <= o.dx_delta*(1 + 1e-9) + 1e-14*inf_norm(x), what << ": success with residual " << r << " (tolerance " << o.tol
		      << ") after a step of " << step << " (" << o.dx_delta << ")");
	} else if (st.conv_status == newton::MAXIT_EXCEEDED) {
		CHECK(st.iters >= o.maxit, what << ": gave up after " << st.iters << " of " << o.maxit << " iterations");
	} else CHECK(st.conv_status == newton::GENERIC_ERROR, what << ": status " << st.conv_status);
	if (!std::isfinite(r)) CHECK(st.conv_status == newton::GENERIC_ERROR, what << ": status " << st.conv_status << " with residual " << r);
	if (std::isfinite(r) && r < 1e150) CHECK(st.conv_status != newton::GENERIC_ERROR, what << ": generic error with residual " << r);
	if (o.max_step > 0) for (size_t i = 1; i < S.at.size(); ++i) {
		double d = arma::norm(S.at[i] - S.at[i-1]);
		CHECK(!(d > o.max_step*(1 + 1e-9) + 1e-14*arma::norm(S.at[i])), what << ": step " << i << " of length " << d << ", limit " << o.max_step);
	}
	if (st.iters > 1 && st.conv_status != newton::GENERIC_ERROR) CHECK(same_vec(x, S.at.back()), what << ": returned " << show(x) << ", the last iterate is " << show(S.at.back()));
}

static newton::options opts(Source &s, Case &c, bool &quiet)
{
	newton::options o = rand_nopts(s, quiet, c);
	o.maxit = s.flag() ? s.range(1, 20) : s.range(1, 1000);
	if (s.chance(1, 3)) { o.max_step = s.logreal(0.01, 10); c.desc << " max_step " << o.max_step; }
	c.desc << " maxit " << o.maxit;
	return o;
}

PROP(any, 60000, 2000000,
     "Mild, quadratic and linear systems of 1 to 8 equations and any guess, few or many iterations, a step limit: status, "
     "residual, counts and step lengths agree with the calls made. Non-trivial: at least 3 iterations.")
{
	int n = rand_dim(s, 4, 8);
	RootProblem R;
	switch (s.below(3)) {
	case 0: R = mild_system(s, n, s.real(0, 0.5), s.flag()); break;
	case 1: R = quadratic_system(s, n, s.real(0, 0.5)); break;
	default: R = linear_system(s, n);
	}
	vec x0 = R.root + rand_vec(s, n, s.logreal(0.01, 30));
	bool quiet;
	c.desc << R.what << " n=" << n;
	newton::options o = opts(s, c, quiet);
	c.desc << " x0=" << show(x0);
	newton::status st = rand_status(s, c);
	vec x = newton::broyden_iterate(R.S, x0, o, st, quiet);
	outcome(R.what.c_str(), R.S, x0, x, o, st);
	c.label(R.what + (st.conv_status == newton::SUCCESS ? " success" : st.conv_status == newton::MAXIT_EXCEEDED ? " maxit" : " error"));
	c.nontrivial = st.iters >= 3;
}

PROP(wild, 60000, 2000000,
     "Functions without a root, with double roots, singular, exploding or not a number. Non-trivial: at least 3 iterations "
     "or a failure.")
{
	RootProblem R = wild_system(s);
	vec x0 = rand_vec(s, R.n, s.logreal(0.1, 30));
	bool quiet;
	c.desc << R.what;
	newton::options o = opts(s, c, quiet);
	c.desc << " x0=" << show(x0);
	newton::status st = rand_status(s, c);
	vec x = newton::broyden_iterate(R.S, x0, o, st, quiet);
	outcome(R.what.c_str(), R.S, x0, x, o, st);
	c.label(R.what + (st.conv_status == newton::SUCCESS ? " success" : st.conv_status == newton::MAXIT_EXCEEDED ? " maxit" : " error"));
	c.nontrivial = st.iters >= 3 || st.conv_status != newton::SUCCESS;
}

PROP(solves, 40000, 1200000,
     "Systems close to the identity: the root is found, in few iterations. Non-trivial: at least 3 iterations.")
{
	int n = rand_dim(s, 4, 8);
	RootProblem R = mild_system(s, n, 0.25, false);
	vec d = rand_vec(s, n, 1.0);
	d *= s.real(0, 1.5)/std::max(1.0, arma::norm(d));
	vec x0 = R.root + d;
	bool quiet;
	c.desc << "near identity n=" << n << " guess off by " << arma::norm(d);
	newton::options o = rand_nopts(s, quiet, c);
	o.maxit = 200;
	newton::status st = rand_status(s, c);
	vec x = newton::broyden_iterate(R.S, x0, o, st, quiet);
	outcome(R.what.c_str(), R.S, x0, x, o, st);
	CHECK(st.conv_status == newton::SUCCESS && st.iters <= 60, "near identity: status " << st.conv_status << " after " << st.iters << " iterations");
	CHECK(inf_norm(vec(x - R.root)) <= 3*std::max(o.tol, o.dx_delta), "near identity: found " << show(x) << ", the root is " << show(R.root));
	c.nontrivial = st.iters >= 3;
}

PROP(iterates, 40000, 1200000,
     "The iterates, from the calls of the function, against Broyden's good update of the inverse started from the identity, "
     "damped by 1/sqrt(1+|F|^2), with and without a step limit. Non-trivial: at least 3 iterations.")
{
	int n = rand_dim(s, 4, 6);
	RootProblem R = s.flag() ? mild_system(s, n, 0.5, false) : quadratic_system(s, n, s.real(0, 0.3));
	vec x0 = R.root + rand_vec(s, n, s.logreal(0.1, 2));
	bool quiet;
	c.desc << R.what << " n=" << n;
	newton::options o = opts(s, c, quiet);
	o.maxit = std::min(o.maxit, 25);
	c.desc << " x0=" << show(x0);
	newton::status st = rand_status(s, c);
	newton::broyden_iterate(R.S, x0, o, st, quiet);
	c.nontrivial = st.iters >= 3;
	mat H = arma::eye(n, n);
	auto &p = R.S.at;
	for (size_t i = 1; i < p.size(); ++i) {
		vec F = R.S.f(p[i-1]);
		vec d = -H*F/std::sqrt(1 + arma::dot(F, F));
		double len = arma::norm(d);
		if (o.max_step > 0 && len > o.max_step) d *= o.max_step/len;
		double e = inf_norm(vec(p[i] - p[i-1] - d));
		CHECK(e <= 1e-6*arma::norm(d) + 1e-13*(1 + inf_norm(p[i]))*arma::norm(H), R.what << ": iterate " << i << " moved by " << show(vec(p[i] - p[i-1])) << " instead of " << show(d));
		vec dx = p[i] - p[i-1], df = R.S.f(p[i]) - F;
		double den = arma::dot(dx, H*df);
		// Updates with few digits left end the comparison.
		if (std::fabs(den) < 1e-4*arma::norm(dx)*arma::norm(H*df) || arma::norm(df) < 1e-6) break;
		H += (dx - H*df)*(dx.t()*H)/den;
		if (arma::norm(H) > 1e3) break;
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C14"); }
