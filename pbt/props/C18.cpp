// C18: stored stages.
#include "../run.hpp"
using namespace pbt;

static double scale_of(const vec &K) { return inf_norm(K); }

/// The independently constructed tableau; GAUSS_LEGENDRE_42 has an additional stage in the library
/// (weight zero, for its embedded pair), so its own one is taken.
static RefTableau tableau(const MethodInfo &m)
{
	RefTableau R = reference().at(m.code);
	if (std::string(m.name) == "GAUSS_LEGENDRE_42") {
		auto sc = irk::get_coefficients(m.code);
		R.A = sc.A; R.b = sc.b; R.c = sc.c;
	}
	return R;
}

/// Checks stages of step i (from t, y over h to yn): they satisfy the stage equations of the
/// tableau, and add up to the difference of the values.
static void check_step(const Ode &o, const MethodInfo &m, const RefTableau &R, double t, const vec &y, double h,
                       const vec &yn, const vec &stages, double L, double ntol, size_t i)
{
	int n = y.n_elem, N = R.b.n_elem;
	CHECK((int)stages.n_elem == n*N, m.name << ": " << stages.n_elem << " numbers stored for " << N << " stages of " << n << " equations");
	mat K(n, N);
	for (int k = 0; k < N; ++k) for (int q = 0; q < n; ++q) K(q, k) = stages(k*n + q);
	double ks = scale_of(stages), tm = std::max(std::fabs(t), std::fabs(t + h)), fuzz = time_fuzz(tm, L*(1 + ks));
	// The sum.
	vec inc = h*(K*R.b);
	double lim = 1e-12*(1 + inf_norm(y) + h*ks*N) + (m.implicit ? 3e3*ntol : 0) + fuzz*(1 + ks)*N;
	double d = inf_norm(vec(yn - y - inc));
	CHECK(d <= lim, m.name << ": step " << i << " at t = " << t << ", h = " << h << ": the value changes by " << show(vec(yn - y))
	      << ", the stages combine to " << show(inc) << ", off by " << d << " > " << lim);
	// The stages.
	for (int k = 0; k < N; ++k) {
		vec Yk = y + h*(K*R.A.row(k).t());
		vec f = o.f(t + R.c(k)*h, Yk);
		double lk = 1e-11*(1 + ks + L*(1 + inf_norm(Yk))) + (m.implicit ? 1e4*ntol*(L + 1/h) : 0) + fuzz*(1 + L)*(1 + ks)*N + time_fuzz(tm, ks)/h;
		double dk = inf_norm(vec(f - K.col(k)));
		CHECK(dk <= lk, m.name << ": step " << i << " at t = " << t << ", h = " << h << ": stage " << k << " is " << show(vec(K.col(k)))
		      << ", the right-hand side at its time and value " << show(f) << ", off by " << dk << " > " << lk);
	}
}

PROP(equations, 40000, 1500000,
     "Any method, constant or adaptive steps, random nonlinear non-autonomous systems, with and without rejected attempts: the stages "
     "stored with every step are the right-hand side at their own times and values (tableaus constructed independently), and "
     "add up to the difference of the neighbouring values. Non-trivial: at least 3 steps.")
{
	Problem P = any_problem(s, c);
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	CHECK(r.status == SUCCESS, P.g.m.name << ": status " << r.status);
	RefTableau R = tableau(P.g.m);
	CHECK(r.stages.size() == r.t.size() && r.y.size() == r.t.size(), P.g.m.name << ": " << r.stages.size() << " stages for " << r.t.size() << " points");
	c.nontrivial = r.t.size() > 3;
	if (r.reject_err) c.label("rejections");
	if (r.reject_newton) c.label("newton-rejections");
	for (size_t i = 0; i + 1 < r.t.size(); ++i)
		check_step(o, P.g.m, R, r.t[i], r.y[i], r.t[i+1] - r.t[i], r.y[i+1], r.stages[i+1], P.L, P.g.nopt.tol, i);
}

PROP(rejected, 15000, 500000,
     "Embedded method and a first step that is 3 to 300 times too long, so that attempts are rejected before the first steps: as above. "
     "Non-trivial: the first stored step was preceded by a rejected attempt.")
{
	Problem P;
	MethodInfo m = s.pick(all_embedded());
	P = rand_problem(s, m, 0.4, 1, 3, 6);
	P.g.adaptive = true;
	P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
	P.g.rtol = P.g.atol = s.logreal(1e-9, 1e-5);
	P.g.dt = s.logreal(0.3, m.implicit ? 3 : 20)/P.L;
	P.g.t1 = P.g.t0 + P.g.dt*s.real(1, 2);
	P.g.max_steps = 3;
	P.g.nopt = tight_newton(s.logreal(1e-11, 1e-8));
	if (s.chance(1, 3)) P.g.nopt.maxit = 3 + s.below(6);
	c.desc << m.name << " n=" << P.sys.n << " L=" << P.L << " t0=" << P.g.t0 << " dt=" << P.g.dt << " tol=" << P.g.rtol << " maxit=" << P.g.nopt.maxit;
	c.label(m.name);
	Ode o = P.sys.ode();
	o.budget = 1000000;
	Run r = run(o, P.g);
	c.nontrivial = r.t.size() > 1 && r.t[1] - r.t[0] < 0.99*std::min(P.g.dt, P.g.t1 - P.g.t0);
	RefTableau R = tableau(m);
	for (size_t i = 0; i + 1 < r.t.size(); ++i)
		check_step(o, m, R, r.t[i], r.y[i], r.t[i+1] - r.t[i], r.y[i+1], r.stages[i+1], P.L, P.g.nopt.tol, i);
}

PROP(every_kth, 8000, 200000,
     "With an output interval of k the stages stored with a point are those of the one step that ends there: their weighted sum over the "
     "step gives the change from the step before, known from the run with interval 1. Non-trivial: k > 1 and 2 points stored.")
{
	Problem P = any_problem(s, c);
	size_t k = 1 + s.below(4);
	P.g.interval = k;
	c.desc << " interval=" << k;
	Ode o = P.sys.ode();
	Run r = run(o, P.g);
	P.g.interval = 1;
	Run full = run(o, P.g);
	RefTableau R = tableau(P.g.m);
	CHECK(r.stages.size() == r.t.size(), P.g.m.name << ": " << r.stages.size() << " stages for " << r.t.size() << " points");
	c.nontrivial = k > 1 && r.t.size() > 2;
	for (size_t i = 1; i < r.t.size(); ++i) {
		size_t q = i*k;
		CHECK(q < full.t.size() && full.t[q] == r.t[i], P.g.m.name << ": point " << i << " is not point " << q << " of the full run");
		check_step(o, P.g.m, R, full.t[q-1], full.y[q-1], full.t[q] - full.t[q-1], r.y[i], r.stages[i], P.L, P.g.nopt.tol, i);
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C18"); }
