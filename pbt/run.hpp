// One way to run any Runge-Kutta method of the library.
#ifndef PBT_RUN_HPP
#define PBT_RUN_HPP

#include "ref.hpp"

namespace pbt {

struct Cfg {
	MethodInfo m;
	double t0 = 0, t1 = 1, dt = 0.1;
	vec y0;
	bool adaptive = false;
	double rtol = 1e-4, atol = 1e-4, max_dt = 0;
	long long max_steps = -1;
	newton::options nopt = tight_newton();
	size_t mode = output_options::STORE_IN_VECTORS, interval = 1;
	std::ostream *stream = nullptr;
	int log_interval = 0;
	bool timings = false;
};

struct Run {
	int status = -1;
	std::vector<double> t, err;
	std::vector<vec> y, stages, err_est;
	double elapsed = 0, accept_frac = 0;
	unsigned long long attempt = 0, reject_err = 0, reject_newton = 0, fun = 0, jac = 0;
	unsigned long long nsuccess = 0, ndiv = 0, nlarge = 0, nmax = 0;
};

template <typename O> void copy_common(Run &r, const O &o)
{
	r.status = o.status; r.t = o.t_vals; r.y = o.y_vals; r.stages = o.stages;
	r.err_est = o.err_est; r.err = o.err; r.elapsed = o.elapsed_time;
	r.accept_frac = o.accept_frac; r.attempt = o.count.attempt;
	r.reject_err = o.count.reject_err; r.fun = o.count.fun_evals;
}
inline Run to_run(const erk::rk_output &o) { Run r; copy_common(r, o); return r; }
inline Run to_run(const irk::rk_output &o)
{
	Run r; copy_common(r, o);
	r.jac = o.count.jac_evals; r.reject_newton = o.count.reject_newton;
	r.nsuccess = o.count.newton_success; r.ndiv = o.count.newton_incr_diverge;
	r.nlarge = o.count.newton_iter_error_too_large; r.nmax = o.count.newton_maxit_exceed;
	return r;
}

template <typename SO> void fill_opts(SO &so, const Cfg &g)
{
	so.adaptive_step_size = g.adaptive;
	so.rel_tol = g.rtol; so.abs_tol = g.atol; so.max_dt = g.max_dt;
	so.max_steps = g.max_steps; so.out_interval = g.log_interval;
	so.time_internals = g.timings;
}

template <typename F> Run run(F &f, const Cfg &g)
{
	output_options oo;
	oo.output_mode = g.mode; oo.output_interval = g.interval;
	oo.output_stream = g.stream;
	if (g.m.implicit) {
		irk::solver_options so = irk::default_solver_options();
		fill_opts(so, g);
		newton::options no = g.nopt;
		so.newton_opts = &no;
		return to_run(irk::odeint(f, g.t0, g.t1, g.y0, so, oo, g.m.code, g.dt));
	}
	erk::solver_options so = erk::default_solver_options();
	fill_opts(so, g);
	newton::options no = g.nopt;
	so.newton_opts = &no;
	return to_run(erk::odeint(f, g.t0, g.t1, g.y0, so, oo, g.m.code, g.dt));
}

inline std::vector<MethodInfo> all_methods()
{
	std::vector<MethodInfo> v = erk_methods();
	v.insert(v.end(), irk_methods().begin(), irk_methods().end());
	return v;
}
inline std::vector<MethodInfo> all_embedded() { return embedded(all_methods()); }

inline int n_stages(const MethodInfo &m)
{
	return m.implicit ? irk::get_coefficients(m.code).b.n_elem
	                  : erk::get_coefficients(m.code).b.n_elem;
}

/// Error from rounding times: the step size used and t[i+1]-t[i] differ.
inline double time_fuzz(double t, double fscale)
{ return 8*2.3e-16*(std::fabs(t) + 1.0)*(1.0 + fscale); }

/// Trajectories as text, for messages.
inline std::string brief(const Run &r)
{
	std::ostringstream o;
	o << "status " << r.status << ", " << r.t.size() << " points, attempts " << r.attempt;
	return o.str();
}

/// A random problem with a method, a start and a step size that both are fit
/// for each other: L*dt is at most ratio.
struct Problem {
	SmoothSystem sys;
	double L;
	Cfg g;
};

inline Problem rand_problem(Source &s, const MethodInfo &m, double ratio, int max_steps,
                            int common_dim = 4, int max_dim = 12)
{
	Problem P;
	P.g.m = m;
	int n = rand_dim(s, common_dim, m.implicit ? std::min(max_dim, 8) : max_dim);
	if (m.implicit && n > 8) n = 8 + n/4;
	P.L = s.logreal(0.2, 5.0);
	P.sys = rand_system(s, n, P.L);
	P.g.y0 = rand_vec(s, n, 2.0);
	P.g.t0 = rand_t0(s);
	P.g.dt = ratio/P.L*s.logreal(0.02, 1.0);
	double steps = 1 + s.below(max_steps);
	// The last step is often a shorter one.
	if (s.chance(1, 2)) steps -= s.real(0, 0.99);
	P.g.t1 = P.g.t0 + steps*P.g.dt;
	return P;
}

/// A random integration with any method: constant or adaptive, with and without rejections.
inline Problem any_problem(Source &s, Case &c, int want = -1, bool may_be_long = true)
{
	std::vector<MethodInfo> v;
	for (auto &m : all_methods()) if (want < 0 || m.implicit == (want == 1)) v.push_back(m);
	MethodInfo m = s.pick(v);
	Problem P = rand_problem(s, m, m.implicit ? 0.4 : 0.6, 8, 3, 6);
	P.g.adaptive = m.embedded && s.chance(2, 3);
	// Solutions of implicit problems should not grow: the stage solver's tolerance is absolute.
	if (m.implicit || P.g.adaptive) P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
	if (P.g.adaptive) {
		P.g.rtol = s.logreal(1e-7, 1e-2);
		P.g.atol = s.logreal(1e-7, 1e-2);
		double T = s.logreal(0.2, m.implicit ? 4 : 8)/P.L;
		P.g.t1 = P.g.t0 + T;
		P.g.dt = T*s.logreal(1e-3, 1.5);
		if (s.chance(1, 2)) {
			// Fast forcing, which makes rejections.
			P.sys.g = rand_vec(s, P.sys.n, 3*P.L);
			P.sys.v = P.L*s.real(2, 20);
		}
		if (s.chance(1, 6)) P.g.max_dt = T*s.logreal(0.02, 1);
	}
	if (may_be_long && s.chance(1, 50)) {
		// Hundreds of steps, of a solution that does not grow.
		c.label("long");
		if (P.g.adaptive) {
			P.g.rtol = P.g.atol = s.logreal(1e-5, 1e-3);
			double T = s.logreal(20, 100)/P.L;
			P.sys.v = P.L*s.real(0.5, 2);
			P.g.t1 = P.g.t0 + T;
			P.g.dt = s.logreal(1e-3, 0.2)/P.L;
			P.g.max_dt = s.chance(1, 2) ? T/s.range(100, 300) : 0;
		} else {
			if (!m.implicit) P.sys.A -= 2.5*P.L*arma::eye(P.sys.n, P.sys.n);
			P.g.dt = s.logreal(0.01, 0.2)/P.L;
			P.g.t1 = P.g.t0 + P.g.dt*(s.range(60, 400) - (s.chance(1, 2) ? s.unit() : 0));
		}
	}
	P.g.nopt = tight_newton(s.logreal(1e-11, 1e-7));
	if (s.chance(1, 3)) P.g.nopt.refresh_jac = s.range(0, 30);
	c.label(m.name);
	c.label(P.g.adaptive ? "adaptive" : "constant");
	c.desc << m.name << (P.g.adaptive ? " adaptive" : " constant") << " n=" << P.sys.n << " L=" << P.L << " ["
	       << P.g.t0 << ", " << P.g.t1 << "] dt=" << P.g.dt << " max_dt=" << P.g.max_dt << " rtol=" << P.g.rtol
	       << " atol=" << P.g.atol << " newton " << P.g.nopt.tol << " refresh " << P.g.nopt.refresh_jac
	       << " y0=" << show(P.g.y0);
	return P;
}

/// Bitwise equality of (parts of) two runs; empty when equal.
inline std::string differ(const Run &a, const Run &b, bool counters = true)
{
	std::ostringstream o; o.precision(17);
	if (a.status != b.status) { o << "status " << a.status << " and " << b.status; return o.str(); }
	if (a.t.size() != b.t.size()) { o << a.t.size() << " and " << b.t.size() << " points"; return o.str(); }
	if (a.y.size() != b.y.size() || a.stages.size() != b.stages.size() || a.err.size() != b.err.size()
	    || a.err_est.size() != b.err_est.size()) return "lists of different length";
	for (size_t i = 0; i < a.t.size(); ++i) {
		if (!same_bits(a.t[i], b.t[i])) { o << "time " << i << ": " << a.t[i] << " and " << b.t[i]; return o.str(); }
	}
	for (size_t i = 0; i < a.y.size(); ++i)
		if (!same_vec(a.y[i], b.y[i])) { o << "value " << i << ": " << show(a.y[i]) << " and " << show(b.y[i]); return o.str(); }
	// What belongs to the initial point has no meaning.
	for (size_t i = 1; i < a.stages.size(); ++i)
		if (!same_vec(a.stages[i], b.stages[i])) { o << "stages " << i; return o.str(); }
	for (size_t i = 1; i < a.err.size(); ++i)
		if (!same_bits(a.err[i], b.err[i])) { o << "error norm " << i << ": " << a.err[i] << " and " << b.err[i]; return o.str(); }
	for (size_t i = 1; i < a.err_est.size(); ++i) {
		if (!same_vec(a.err_est[i], b.err_est[i])) { o << "error vector " << i; return o.str(); }
	}
	if (counters) {
#define PBT_CMP(X) if (a.X != b.X) { o << #X << " " << a.X << " and " << b.X; return o.str(); }
		PBT_CMP(attempt) PBT_CMP(reject_err) PBT_CMP(reject_newton) PBT_CMP(fun) PBT_CMP(jac)
		PBT_CMP(nsuccess) PBT_CMP(ndiv) PBT_CMP(nlarge) PBT_CMP(nmax) PBT_CMP(accept_frac)
#undef PBT_CMP
	}
	return "";
}

} // namespace pbt

#endif // PBT_RUN_HPP
