// C10: determinism and isolation.
#include "../run.hpp"
#include <thread>
using namespace pbt;

/// Something else the library can be asked to do; its own result must not change either.
struct Other {
	int kind;
	Problem P;
	int order;
};

static Other rand_other(Source &s)
{
	Other q;
	q.kind = s.below(6);
	Case dummy;
	q.P = any_problem(s, dummy);
	q.P.g.max_steps = 6;
	q.order = 1 + s.below(5);
	return q;
}

struct System {
	typedef mat jac_type;
	mat A; vec b;
	vec fun(const vec &x) { return vec(A*x + 0.1*arma::sin(x) - b); }
	mat jac(const vec &x) { return mat(A + 0.1*arma::diagmat(arma::cos(x))); }
};

static std::vector<double> perform(const Other &q)
{
	std::vector<double> out;
	auto put = [&](const vec &v) { for (double x : v) out.push_back(x); };
	Ode o = q.P.sys.ode();
	const Cfg &g = q.P.g;
	switch (q.kind) {
	case 0: case 1: {
		Run r = run(o, g);
		for (size_t i = 0; i < r.t.size(); ++i) { out.push_back(r.t[i]); put(r.y[i]); out.push_back(r.err[i]); }
		out.push_back(r.fun);
		break; }
	case 2: {
		multistep::solver_options so; so.order = q.order;
		double dt = 0.1/q.P.L;
		auto r = multistep::adams_bashforth(o, g.t0, g.t0 + 8*dt, g.y0, so, dt);
		for (size_t i = 0; i < r.t_vals.size(); ++i) { out.push_back(r.t_vals[i]); put(r.y_vals[i]); }
		break; }
	case 3: {
		multistep::solver_options so; so.order = q.order;
		double dt = 0.1/q.P.L;
		auto r = multistep::bdf(o, g.t0, g.t0 + 8*dt, g.y0, so, dt);
		for (size_t i = 0; i < r.t_vals.size(); ++i) { out.push_back(r.t_vals[i]); put(r.y_vals[i]); }
		out.push_back(r.status);
		break; }
	case 4: {
		System S; int n = q.P.sys.n;
		S.A = q.P.sys.A/q.P.L + 3*arma::eye(n, n); S.b = g.y0;
		newton::options no; no.tol = no.dx_delta = 1e-9; no.refresh_jac = q.order > 2;
		newton::status st;
		put(newton::newton_iterate(S, arma::zeros(n), no, st)); out.push_back(st.res); out.push_back(st.iters);
		put(newton::broyden_iterate(S, arma::zeros(n), no, st)); out.push_back(st.res); out.push_back(st.iters);
		break; }
	case 5: {
		for (auto &m : all_methods()) {
			if (m.implicit) {
				auto sc = irk::get_coefficients(m.code);
				put(arma::vectorise(sc.A)); put(sc.b); put(sc.c); put(sc.b2); out.push_back(sc.order);
				out.push_back(irk::verify_solver_coeffs(sc)); out.push_back(irk::name_to_method(m.name));
				out.push_back(irk::name_to_method(std::string("NO_") + m.name));
				out.push_back(std::string(irk::method_to_name(q.order*7919)).size());
				put(irk::vec_type(arma::vectorise(irk::collocation_interpolate_coeffs(arma::linspace(0.1, 1, 1 + q.order)))));
				// The copy is ours to change.
				sc.A *= 2; sc.b.zeros(); sc.c.zeros();
			} else {
				auto sc = erk::get_coefficients(m.code);
				put(arma::vectorise(sc.A)); put(sc.b); put(sc.c); put(sc.b2); out.push_back(sc.order);
				out.push_back(erk::verify_solver_coeffs(sc)); out.push_back(erk::name_to_method(m.name));
				out.push_back(erk::name_to_method(std::string("NO_") + m.name));
				sc.A *= 2; sc.b.zeros(); sc.c.zeros();
			}
		}
		out.push_back(irk::all_method_names().size()); out.push_back(erk::all_method_names().size());
		break; }
	}
	return out;
}

static bool same(const std::vector<double> &a, const std::vector<double> &b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false;
	return true;
}

PROP(history, 12000, 400000,
     "Any integration, before and after a random history of 1 to 5 other integrations, multistep runs, "
     "Newton and Broyden solves and catalogue queries (whose copies are changed), and each of those before and after: bitwise the "
     "same. Non-trivial: at least 2 others.")
{
	Problem P = any_problem(s, c);
	std::vector<Other> h;
	int n = 1 + s.below(5);
	for (int i = 0; i < n; ++i) h.push_back(rand_other(s));
	Ode o = P.sys.ode();
	Run a = run(o, P.g);
	std::vector<std::vector<double>> ra;
	for (auto &q : h) { ra.push_back(perform(q)); c.desc << " | " << q.kind; c.label("other-" + std::to_string(q.kind)); }
	Ode o2 = P.sys.ode();
	Run b = run(o2, P.g);
	std::string d = differ(a, b);
	CHECK(d.empty(), P.g.m.name << " gives something else after other work: " << d);
	for (int i = n; i-- > 0; ) CHECK(same(ra[i], perform(h[i])), "repeating kind " << h[i].kind << " gives something else");
	c.nontrivial = n >= 2;
}

PROP(nested, 8000, 250000,
     "The right-hand side and the Jacobian themselves integrate, solve or query at random calls: the outer result "
     "and each inner result are bitwise those of separate runs. Non-trivial: at least 3 inner runs.")
{
	Problem P = any_problem(s, c);
	Other q = rand_other(s);
	q.P.g.max_steps = 3;
	std::vector<double> alone = perform(q);
	Ode o = P.sys.ode();
	Run a = run(o, P.g);
	Ode o2 = P.sys.ode();
	int every = 1 + s.below(9), calls = 0, inner = 0;
	bool ok = true;
	auto f = o2.f; auto j = o2.j;
	auto meddle = [&] { if (++calls % every == 0 && inner < 40) { ++inner; ok = ok && same(alone, perform(q)); } };
	bool before = s.flag();
	o2.f = [&](double t, const vec &y) { if (before) meddle(); vec r = f(t, y); if (!before) meddle(); return r; };
	o2.j = [&](double t, const vec &y) { mat r = j(t, y); meddle(); return r; };
	Run b = run(o2, P.g);
	c.desc << ", inner kind " << q.kind << " " << q.P.g.m.name << " every " << every;
	c.label("inner-" + std::to_string(q.kind));
	c.nontrivial = inner >= 3;
	std::string d = differ(a, b);
	CHECK(d.empty(), P.g.m.name << " changed by work inside its right-hand side: " << d);
	CHECK(ok, "work inside a right-hand side (kind " << q.kind << ", " << q.P.g.m.name << ") gives something else");
}

PROP(threads, 1500, 40000,
     "2 to 6 threads that integrate, solve and query at the same time, started together, each repeating its work: "
     "every result is bitwise that of the same work done alone. Non-trivial: at least 3 threads.")
{
	int n = 2 + s.below(5), rep = 1 + s.below(4);
	std::vector<Other> w;
	for (int i = 0; i < n; ++i) { w.push_back(rand_other(s)); c.desc << " " << w[i].kind << w[i].P.g.m.name; c.label("work-" + std::to_string(w[i].kind)); }
	std::vector<std::vector<double>> alone;
	std::vector<int> ok(n, 1);
	std::vector<std::thread> th;
	std::atomic<int> ready(0);
	bool cold = s.flag(); // the threads come first
	if (!cold) for (auto &q : w) alone.push_back(perform(q));
	std::vector<std::vector<std::vector<double>>> got(n);
	for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
		++ready; while (ready < n) {}
		for (int k = 0; k < rep; ++k) got[i].push_back(perform(w[i]));
	});
	for (auto &t : th) t.join();
	if (cold) for (auto &q : w) alone.push_back(perform(q));
	c.nontrivial = n >= 3;
	for (int i = 0; i < n; ++i) for (auto &g : got[i])
		CHECK(same(g, alone[i]), "thread " << i << " of " << n << " (kind " << w[i].kind << ", "
		      << w[i].P.g.m.name << ") gives something else than alone");
}

PROP(arguments, 15000, 500000,
     "Initial value, solver, Newton and output options and coefficients are bitwise what they were after an "
     "integration that ends in success, at a limit, or in failure. Non-trivial: at least 1 step.")
{
	Problem P = any_problem(s, c);
	if (s.chance(1, 4)) P.g.max_steps = s.below(4);
	if (s.chance(1, 4)) P.g.nopt.maxit = s.range(4, 9);
	if (s.chance(1, 3)) P.g.dt *= s.logreal(1, 100);
	Ode o = P.sys.ode();
	o.budget = 1000000;
	output_options oo;
	std::ostringstream out;
	oo.output_stream = nullptr;
	if (s.flag()) oo.set_output_stream(out);
	oo.output_interval = 1 + s.below(3);
	size_t mode = oo.output_mode, iv = oo.output_interval;
	vec y0 = P.g.y0, keep = y0;
	newton::options no = P.g.nopt;
	size_t steps;
	if (P.g.m.implicit) {
		irk::solver_options so = irk::default_solver_options();
		fill_opts(so, P.g); so.newton_opts = &no;
		auto r = irk::odeint(o, P.g.t0, P.g.t1, y0, so, oo, P.g.m.code, P.g.dt);
		steps = r.count.attempt;
		CHECK(so.adaptive_step_size == P.g.adaptive && so.rel_tol == P.g.rtol && so.abs_tol == P.g.atol
		      && so.max_dt == P.g.max_dt && so.max_steps == P.g.max_steps && so.newton_opts == &no, "solver options changed");
		auto sc = irk::get_coefficients(P.g.m.code), sk = sc;
		so.max_steps = 2;
		irk::irk_guts(o, P.g.t0, P.g.t1, y0, so, P.g.dt, sc, oo);
		CHECK(same_vec(sc.b, sk.b) && same_vec(sc.c, sk.c) && same_vec(sc.b2, sk.b2)
		      && same_vec(arma::vectorise(sc.A), arma::vectorise(sk.A)) && sc.order == sk.order && sc.gamma == sk.gamma,
		      P.g.m.name << ": coefficients changed");
	} else {
		erk::solver_options so = erk::default_solver_options();
		fill_opts(so, P.g);
		auto r = erk::odeint(o, P.g.t0, P.g.t1, y0, so, oo, P.g.m.code, P.g.dt);
		steps = r.count.attempt;
		CHECK(so.adaptive_step_size == P.g.adaptive && so.rel_tol == P.g.rtol && so.abs_tol == P.g.atol
		      && so.max_dt == P.g.max_dt && so.max_steps == P.g.max_steps, "solver options changed");
		auto sc = erk::get_coefficients(P.g.m.code), sk = sc;
		so.max_steps = 2;
		erk::erk_guts(o, P.g.t0, P.g.t1, y0, so, P.g.dt, sc, oo);
		CHECK(same_vec(sc.b, sk.b) && same_vec(sc.c, sk.c) && same_vec(sc.b2, sk.b2)
		      && same_vec(arma::vectorise(sc.A), arma::vectorise(sk.A)) && sc.order == sk.order && sc.FSAL == sk.FSAL,
		      P.g.m.name << ": coefficients changed");
	}
	c.nontrivial = steps >= 1;
	CHECK(same_vec(y0, keep), P.g.m.name << ": the initial value changed");
	CHECK(oo.output_mode == mode && oo.output_interval == iv, "output options changed");
	CHECK(no.tol == P.g.nopt.tol && no.dx_delta == P.g.nopt.dx_delta && no.maxit == P.g.nopt.maxit
	      && no.max_step == P.g.nopt.max_step && no.refresh_jac == P.g.nopt.refresh_jac
	      && no.precondition == P.g.nopt.precondition && no.limit_step == P.g.nopt.limit_step, "Newton options changed");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C10"); }
