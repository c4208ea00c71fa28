// C12: composing and merging integrations.
#include "../run.hpp"
using namespace pbt;

PROP(compose, 30000, 1000000,
     "Any method with constant steps on a dyadic grid, interrupted 1 to 4 times at random grid points and continued "
     "from the value reached, against one integration over the whole interval (also with an output interval). Non-trivial: "
     "at least 3 steps in all and a part of more than one.")
{
	MethodInfo m = s.pick(all_methods());
	Problem P = rand_problem(s, m, m.implicit ? 0.4 : 0.6, 4, 3, 6);
	P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
	P.g.dt = std::ldexp(1.0, (int)std::floor(std::log2(P.g.dt)));
	P.g.t0 = s.chance(1, 3) ? 0.0 : (double)s.range(-64, 64)*0.25;
	int steps = 2 + s.below(12);
	P.g.t1 = P.g.t0 + steps*P.g.dt;
	std::set<int> cuts;
	int k = 1 + s.below(4);
	for (int i = 0; i < k; ++i) cuts.insert(1 + s.below(steps - 1));
	cuts.insert(steps);
	c.label(m.name);
	c.desc << m.name << " n=" << P.sys.n << " L=" << P.L << " t0=" << P.g.t0 << " dt=" << P.g.dt << " steps " << steps << " cut after";
	for (int x : cuts) c.desc << " " << x;
	c.desc << " y0=" << show(P.g.y0);
	Ode o = P.sys.ode();
	Run full = run(o, P.g);
	CHECK(full.status == SUCCESS && (int)full.t.size() == steps + 1, m.name << ": " << brief(full) << " for " << steps << " steps");
	double tol = m.implicit ? 1e-8 : 1e-12, big = 0;
	for (auto &y : full.y) big = std::max(big, inf_norm(y));
	int at = 0;
	vec y = P.g.y0;
	bool merge = m.implicit && s.flag();
	irk::rk_output merged;
	unsigned long long nf = 0;
	for (int cut : cuts) {
		Cfg g = P.g;
		g.t0 = P.g.t0 + at*P.g.dt; g.t1 = P.g.t0 + cut*P.g.dt; g.y0 = y;
		Ode q = P.sys.ode();
		Run r;
		if (merge) {
			irk::solver_options so = irk::default_solver_options();
			newton::options no = g.nopt;
			fill_opts(so, g); so.newton_opts = &no;
			output_options oo;
			auto part = irk::odeint(q, g.t0, g.t1, g.y0, so, oo, m.code, g.dt);
			r = to_run(part);
			merged = at == 0 ? part : irk::merge_rk_output(merged, part);
			nf += q.nf;
		} else r = run(q, g);
		CHECK(r.status == SUCCESS && (int)r.t.size() == cut - at + 1, m.name << ": part of " << cut - at << " steps has "
		      << r.t.size() << " points, status " << r.status);
		for (int i = 0; i <= cut - at; ++i) {
			CHECK(r.t[i] == full.t[at + i], m.name << ": time " << r.t[i] << " instead of " << full.t[at + i]);
			double d = inf_norm(vec(r.y[i] - full.y[at + i]));
			CHECK(d <= tol*(1 + big), m.name << ": after continuing at step " << at << ", the value of step " << at + i
			      << " is " << show(r.y[i]) << " instead of " << show(full.y[at + i]));
		}
		c.nontrivial = c.nontrivial || (cut - at > 1 && steps > 2);
		y = r.y.back();
		at = cut;
	}
	if (merge) {
		size_t np = steps + cuts.size();
		CHECK(merged.y_vals.size() == np && merged.stages.size() == np && merged.err_est.size() == np && merged.err.size() == np,
		      m.name << ": merging the parts: " << merged.t_vals.size() << " " << merged.y_vals.size() << " " << merged.stages.size()
		      << " " << merged.err_est.size() << " " << merged.err.size() << " entries");
		CHECK(merged.t_vals.size() == steps + cuts.size() && merged.count.attempt == (size_t)steps
		      && merged.count.fun_evals == nf && merged.status == SUCCESS, m.name << ": merging the parts: "
		      << merged.t_vals.size() << " points, " << merged.count.attempt << " attempts, " << merged.count.fun_evals << " evaluations");
		CHECK(std::fabs(merged.accept_frac - 1) < 1e-12, m.name << ": acceptance fraction " << merged.accept_frac);
	}
}

// ---------------------------------------------------------------- merging

static irk::rk_output rand_output(Source &s)
{
	irk::rk_output r;
	static const int st[] = {SUCCESS, GENERAL_ERROR, ERROR_MAX_STEPS_EXCEEDED, INTERNAL_SOLVE_FAILURE};
	r.status = s.chance(1, 4) ? (int)s.below(64) : st[s.below(4)];
	int n = s.chance(1, 6) ? 0 : s.below(6), d = 1 + s.below(3), k = 1 + s.below(3);
	bool uneven = s.chance(1, 6);
	auto len = [&] { return uneven ? (int)s.below(5) : n; };
	for (int i = len(); i-- > 0; ) r.t_vals.push_back(s.real(-5, 5));
	for (int i = len(); i-- > 0; ) r.y_vals.push_back(rand_vec(s, d, 3));
	for (int i = len(); i-- > 0; ) r.stages.push_back(rand_vec(s, d*k, 3));
	for (int i = len(); i-- > 0; ) r.err_est.push_back(rand_vec(s, d, 1));
	for (int i = len(); i-- > 0; ) r.err.push_back(s.unit());
	// As integrations report their starting point.
	if (!r.err.empty() && s.chance(1, 3)) r.err[0] = 0;
	if (!r.err_est.empty() && s.chance(1, 3)) r.err_est[0].zeros();
	if (!r.stages.empty() && s.chance(1, 3)) r.stages[0].zeros();
	// Entries that occur twice.
	if (n > 1 && s.chance(1, 4)) {
		int i = s.below(n - 1);
		if ((int)r.t_vals.size() == n) r.t_vals[i + 1] = r.t_vals[i];
		if ((int)r.y_vals.size() == n) r.y_vals[i + 1] = r.y_vals[i];
	}
	if (s.chance(1, 4)) std::sort(r.t_vals.begin(), r.t_vals.end());
	r.elapsed_time = s.logreal(1e-3, 1e5);
	r.accept_frac = s.pick(std::vector<double>{0.0, 1.0, s.unit(), s.unit()});
	auto &q = r.count;
	for (auto *p : {&q.attempt, &q.reject_newton, &q.reject_err, &q.newton_success, &q.newton_incr_diverge,
	                &q.newton_iter_error_too_large, &q.newton_maxit_exceed, &q.fun_evals, &q.jac_evals})
		*p = s.chance(1, 6) ? 5000000000ULL + s.below(1000) : s.below(1000);
	return r;
}

/// Lets b start where a ends, as when an integration is continued.
static void join(Source &s, const irk::rk_output &a, irk::rk_output &b)
{
	if (a.t_vals.empty() || b.t_vals.empty()) return;
	double shift = a.t_vals.back() - b.t_vals[0];
	for (double &t : b.t_vals) t += shift;
	b.t_vals[0] = a.t_vals.back();
	if (!a.y_vals.empty() && !b.y_vals.empty()) b.y_vals[0] = a.y_vals.back();
	if (s.flag() && !a.stages.empty() && !b.stages.empty()) b.stages[0] = a.stages.back();
	if (s.flag()) b.status = SUCCESS;
}

static bool same_out(const irk::rk_output &a, const irk::rk_output &b)
{
	return differ(to_run(a), to_run(b)).empty() && a.elapsed_time == b.elapsed_time && a.err == b.err;
}

template <typename V, typename E>
static void concat(const V &a, const V &b, const V &m, const char *what, E eq)
{
	CHECK(m.size() == a.size() + b.size(), what << ": " << a.size() << " and " << b.size() << " merged to " << m.size());
	for (size_t i = 0; i < m.size(); ++i)
		CHECK(eq(m[i], i < a.size() ? a[i] : b[i - a.size()]), what << ": element " << i << " of the merged list");
}

PROP(merge, 40000, 1500000,
     "Merging two random results (empty, uneven, different dimensions, the second starting where the first ends, zeros and repeated entries, every status, counters above 2^32, also with itself): lists are concatenated, counters "
     "and times added, status bits combined, the fraction is between the two, the arguments stay. Non-trivial: both have points.")
{
	irk::rk_output a = rand_output(s), b = rand_output(s);
	bool joined = s.chance(1, 3);
	if (joined) join(s, a, b);
	if (joined) c.label("the second starts where the first ends");
	bool self = s.chance(1, 10);
	const irk::rk_output &bb = self ? a : b;
	irk::rk_output ka = a, kb = bb;
	irk::rk_output m = irk::merge_rk_output(a, bb);
	c.desc << a.t_vals.size() << "+" << bb.t_vals.size() << " points, status " << a.status << " " << bb.status
	       << ", fraction " << a.accept_frac << " " << bb.accept_frac;
	c.nontrivial = a.t_vals.size() > 0 && bb.t_vals.size() > 0;
	auto deq = [](double x, double y) { return same_bits(x, y); };
	auto veq = [](const vec &x, const vec &y) { return same_vec(x, y); };
	concat(ka.t_vals, kb.t_vals, m.t_vals, "times", deq);
	concat(ka.y_vals, kb.y_vals, m.y_vals, "values", veq);
	concat(ka.stages, kb.stages, m.stages, "stages", veq);
	concat(ka.err_est, kb.err_est, m.err_est, "error vectors", veq);
	concat(ka.err, kb.err, m.err, "error norms", deq);
	CHECK(m.status == (ka.status | kb.status), "status " << m.status << " of " << ka.status << " and " << kb.status);
	CHECK(std::fabs(m.elapsed_time - (ka.elapsed_time + kb.elapsed_time)) <= 1e-12*m.elapsed_time, "elapsed time " << m.elapsed_time
	      << " of " << ka.elapsed_time << " and " << kb.elapsed_time);
#define SUM(X) CHECK(m.count.X == ka.count.X + kb.count.X, #X " " << m.count.X << " of " << ka.count.X << " and " << kb.count.X)
	SUM(attempt); SUM(reject_newton); SUM(reject_err); SUM(newton_success); SUM(newton_incr_diverge);
	SUM(newton_iter_error_too_large); SUM(newton_maxit_exceed); SUM(fun_evals); SUM(jac_evals);
	double lo = std::min(ka.accept_frac, kb.accept_frac), hi = std::max(ka.accept_frac, kb.accept_frac);
	CHECK(m.accept_frac >= lo - 1e-12 && m.accept_frac <= hi + 1e-12, "acceptance fraction " << m.accept_frac << " of "
	      << ka.accept_frac << " and " << kb.accept_frac);
	CHECK(same_out(a, ka) && same_out(bb, kb), "merging changed its arguments");
}

PROP(associative, 15000, 400000,
     "Merging three random results in either order of association gives the same lists, counters and status. "
     "Non-trivial: all three have points.")
{
	irk::rk_output a = rand_output(s), b = rand_output(s), d = rand_output(s);
	Run x = to_run(irk::merge_rk_output(irk::merge_rk_output(a, b), d));
	Run y = to_run(irk::merge_rk_output(a, irk::merge_rk_output(b, d)));
	c.desc << a.t_vals.size() << "+" << b.t_vals.size() << "+" << d.t_vals.size() << " points";
	c.nontrivial = a.t_vals.size() && b.t_vals.size() && d.t_vals.size();
	x.accept_frac = y.accept_frac;
	std::string e = differ(x, y);
	CHECK(e.empty(), "merging is not associative: " << e);
	CHECK(std::fabs(x.elapsed - y.elapsed) <= 1e-12*x.elapsed, "elapsed time " << x.elapsed << " and " << y.elapsed);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C12"); }
