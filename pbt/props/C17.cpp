// C17: dense output.
#include "../exact.hpp"
using namespace pbt;

static std::vector<MethodInfo> dense()
{
	std::vector<MethodInfo> v;
	for (auto &m : irk_methods()) if (irk::get_coefficients(m.code).b_interp.n_elem) v.push_back(m);
	return v;
}
static bool collocation(const MethodInfo &m) { return std::string(m.name).substr(0, 5) == "RADAU"; }

PROP(weights, 20000, 400000,
     "Every method with dense output, fractions of the step from -0.5 to 1.5 (often 0, 1 or a node): zero at the start, the "
     "method's weights at the end, rows of the matrix at the nodes of collocation methods, and polynomials of degree below the stage "
     "count integrated exactly. Non-trivial: a fraction that is neither 0 nor 1.")
{
	std::vector<MethodInfo> v = dense();
	for (auto code : {irk::RADAU_IIA_32, irk::RADAU_IIA_53, irk::RADAU_IIA_95, irk::RADAU_IIA_137, irk::LOBATTO_IIIC_85})
		CHECK(irk::get_coefficients(code).b_interp.n_elem, irk::method_to_name(code) << " has no dense output");
	MethodInfo m = s.pick(v);
	auto sc = irk::get_coefficients(m.code);
	int N = sc.b.n_elem;
	double th;
	int node = -1;
	switch (s.below(5)) {
	case 0: th = 0; break;
	case 1: th = 1; break;
	case 2: node = s.below(N); th = sc.c(node); break;
	case 3: th = s.real(0, 1); break;
	default: th = s.real(-0.5, 1.5);
	}
	c.desc << m.name << " theta " << th;
	c.label(m.name);
	c.nontrivial = th != 0 && th != 1;
	vec b = irk::project_b(th, sc);
	CHECK((int)b.n_elem == N, m.name << ": " << b.n_elem << " weights");
	double big = 1 + arma::accu(arma::abs(b)), tol = 2e-11;
	if (th == 0) CHECK(inf_norm(b) <= 1e-14, m.name << ": weights " << show(b) << " at the start of the step");
	if (th == 1) CHECK(inf_norm(vec(b - sc.b)) <= tol, m.name << ": weights " << show(b) << " at the end, the method's are " << show(sc.b));
	if (node >= 0 && collocation(m)) CHECK(inf_norm(vec(b - sc.A.row(node).t())) <= tol, m.name << ": weights " << show(b) << " at node " << node);
	for (int k = 0; k < N; ++k) {
		double q = 0;
		for (int i = 0; i < N; ++i) q += b(i)*std::pow(sc.c(i), k);
		double want = std::pow(th, k + 1)/(k + 1);
		CHECK(std::fabs(q - want) <= tol*big, m.name << ": integrates x^" << k << " up to " << th << " to " << q << " instead of " << want);
	}
}

PROP(generator, 20000, 400000,
     "Interpolation coefficients for 1 to 8 random distinct nodes (in or around the step, any order): with them, polynomials of degree "
     "below the number of nodes are integrated exactly over any fraction, and each row is the integral of its Lagrange polynomial, also close to the start; the same for coefficient sets of explicit methods. Non-trivial: at least 2 nodes.")
{
	int N = 1 + s.below(s.chance(1, 4) ? 8 : 5);
	vec x(N);
	// Distinct nodes: jittered grid, then shuffled.
	double lo = s.chance(1, 2) ? 0 : s.real(-1, 0.5), w = s.real(0.5, 2);
	for (int i = 0; i < N; ++i) x(i) = lo + w*(i + s.real(0.1, 0.9))/N;
	if (s.chance(1, 4)) x(0) = 0;
	if (s.chance(1, 4) && N > 1) x(N-1) = std::max(1.0, x(N-1));
	for (int i = N; i-- > 1; ) std::swap(x(i), x(s.below(i + 1)));
	for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) if (std::fabs(x(i) - x(j)) < 0.02) throw Discard();
	vec keep = x;
	c.desc << "nodes " << show(x);
	c.nontrivial = N >= 2;
	irk::solver_coeffs sc;
	sc.b_interp = irk::collocation_interpolate_coeffs(x);
	sc.b = arma::zeros(N); sc.c = x; sc.A = arma::zeros(N, N);
	CHECK(same_vec(x, keep), "the nodes were modified");
	CHECK((int)sc.b_interp.n_rows == N && (int)sc.b_interp.n_cols == N, "a " << sc.b_interp.n_rows << " by " << sc.b_interp.n_cols << " matrix");
	double th = s.real(-1, 2);
	vec b = irk::project_b(th, sc);
	// Rounding: sums of products of coefficients.
	double cond = arma::abs(sc.b_interp).max()*N*std::pow(std::max(1.0, std::fabs(th)), N);
	for (int k = 0; k < N; ++k) {
		double q = 0, mag = 0;
		for (int i = 0; i < N; ++i) { q += b(i)*std::pow(x(i), k); mag = std::max(mag, std::pow(std::fabs(x(i)), k)); }
		double want = std::pow(th, k + 1)/(k + 1);
		CHECK(std::fabs(q - want) <= 1e-13*cond*(1 + mag)*N, "integrates x^" << k << " up to " << th << " to " << q << " instead of " << want);
	}
	// The same coefficients in a set of an explicit method.
	erk::solver_coeffs se;
	se.b_interp = sc.b_interp; se.b = sc.b; se.c = sc.c; se.A = sc.A;
	vec be = erk::project_b(th, se);
	CHECK(be.n_elem == b.n_elem && inf_norm(vec(be - b)) <= 1e-14*cond, "weights of an explicit method with the same coefficients are " << show(be) << " instead of " << show(b) << " at " << th);
	// Close to the start, relative to the distance: b_i(th) is the integral of its Lagrange polynomial.
	double small = s.logreal(1e-6, 1e-2)*(s.flag() ? 1 : -1);
	vec bs = irk::project_b(small, sc), bse = erk::project_b(small, se);
	for (int i = 0; i < N; ++i) {
		// th*(constant coefficient) + th^2*..., in Horner form.
		long double w = 0;
		for (int k = 0; k < N; ++k) w = (w + sc.b_interp(i, k))*small;
		double lim = 1e-14*std::fabs(small)*arma::abs(sc.b_interp.row(i)).max()*N;
		CHECK(std::fabs(bs(i) - (double)w) <= lim && std::fabs(bse(i) - (double)w) <= lim, "weight " << i << " at " << small << " is " << bs(i) << " and " << bse(i) << " (explicit) instead of " << (double)w);
	}
}

PROP(close_nodes, 20000, 400000,
     "2 to 6 distinct nodes, two of which are 0.1 to 1e-5 apart: with the coefficients, polynomials of degree below the number of nodes are integrated exactly over any fraction, "
     "up to the rounding that the distances cause. Non-trivial: a distance below 0.01.")
{
	int N = 2 + s.below(5);
	vec x(N);
	double gap = s.logreal(1e-5, 0.1);
	for (int i = 0; i < N; ++i) x(i) = s.real(0, 1);
	int i = s.below(N), j = (i + 1 + s.below(N - 1)) % N;
	x(j) = x(i) + (s.flag() ? 1 : -1)*gap;
	vec so = arma::sort(x);
	double least = 1;
	for (int k = 1; k < N; ++k) {
		if (so(k) == so(k-1)) throw Discard();
		// One pair is close, the others are not.
		if (so(k) - so(k-1) < 0.02 && so(k) - so(k-1) < 0.99*gap) throw Discard();
		least = std::min(least, so(k) - so(k-1));
	}
	c.desc << "nodes " << show(x) << " gap " << gap;
	c.nontrivial = gap < 0.01;
	irk::solver_coeffs sc;
	sc.b_interp = irk::collocation_interpolate_coeffs(x);
	sc.b = arma::zeros(N); sc.c = x; sc.A = arma::zeros(N, N);
	double th = s.real(-0.2, 1.2);
	vec b = irk::project_b(th, sc);
	// The weights are large as 1/distance; solving for them by elimination loses as much again.
	double big = std::max(1/least, arma::abs(sc.b_interp).max()), tol = 1e-14*N*N*big*(10 + 0.1/least);
	for (int k = 0; k < N; ++k) {
		double q = 0;
		for (int m = 0; m < N; ++m) q += b(m)*std::pow(x(m), k);
		double want = std::pow(th, k + 1)/(k + 1);
		CHECK(std::fabs(q - want) <= tol, "integrates x^" << k << " up to " << th << " to " << q << " instead of " << want << ", off by " << std::fabs(q - want) << " > " << tol);
	}
}

PROP(expansion, 20000, 400000,
     "Expansion of two random coefficient lists: the ordered Cartesian product, arguments unmodified; and its size and content are printed. "
     "Non-trivial: both lists have at least 2 entries.")
{
	auto rnd = [&] { irk::coeff_list l; int n = s.below(5); for (int i = 0; i < n; ++i) { std::vector<int> e; int k = s.below(4);
		for (int j = 0; j < k; ++j) e.push_back(s.range(-1, 9)); l.push_back(e); } return l; };
	irk::coeff_list a = rnd(), b = rnd(), ka = a, kb = b, want;
	for (auto &x : a) for (auto &y : b) { std::vector<int> e = x; e.insert(e.end(), y.begin(), y.end()); want.push_back(e); }
	irk::coeff_list r = irk::expand(a, b);
	c.desc << a.size() << " by " << b.size();
	c.nontrivial = a.size() >= 2 && b.size() >= 2;
	CHECK(r == want, "expansion of " << a.size() << " by " << b.size() << " entries has " << r.size() << ", or others");
	CHECK(a == ka && b == kb, "arguments modified");
	// Associative, too.
	irk::coeff_list d = rnd();
	CHECK(irk::expand(irk::expand(a, b), d) == irk::expand(a, irk::expand(b, d)), "expansion is not associative");
}

PROP(inside, 20000, 500000,
     "Problems with known solution integrated with constant steps by every method with dense output: values interpolated with the stored stages "
     "anywhere in a random step are as accurate as the order of the interpolation tells, and continuous at the ends of the step. Non-trivial: at least 2 steps.")
{
	MethodInfo m = s.pick(dense());
	auto sc = irk::get_coefficients(m.code);
	int N = sc.b.n_elem, n = 1 + s.below(4);
	Cfg g;
	g.m = m;
	g.t0 = s.real(-5, 5);
	double L = s.logreal(0.3, 3);
	ExactProblem P;
	if (s.flag()) { vec d(n); for (auto &x : d) x = L*s.real(0, 1); P = forced_problem(s, n, L, d); }
	else P = autonomous_problem(s, n, L, g.t0, false);
	double z = s.logreal(0.02, 0.4);
	g.dt = z/L;
	g.t1 = g.t0 + g.dt*(1 + s.below(6));
	g.y0 = P.sol(g.t0);
	g.nopt = tight_newton(1e-11);
	c.desc << m.name << " " << P.what << " n=" << n << " L*dt=" << z << " steps " << (g.t1 - g.t0)/g.dt;
	c.label(m.name);
	Ode o = P.ode();
	Run r = run(o, g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = r.t.size() > 2;
	size_t i = 1 + s.below(r.t.size() - 1);
	double h = r.t[i] - r.t[i-1];
	mat K = arma::reshape(r.stages[i], n, N);
	auto at = [&](double th) { return vec(r.y[i-1] + h*K*irk::project_b(th, sc)); };
	CHECK(inf_norm(vec(at(0) - r.y[i-1])) <= 1e-13*(1 + inf_norm(r.y[i-1])), m.name << ": interpolation at the start");
	CHECK(inf_norm(vec(at(1) - r.y[i])) <= 1e-9*(1 + inf_norm(r.y[i])), m.name << ": interpolation at the end gives " << show(at(1)) << ", the value is " << show(r.y[i]));
	double th = s.unit();
	vec e = at(th) - P.sol(r.t[i-1] + th*h);
	double e0 = std::max(inf_norm(vec(r.y[i-1] - P.sol(r.t[i-1]))), inf_norm(vec(r.y[i] - P.sol(r.t[i]))));
	// Forced problems have up to three terms and, like the cubic ones, derivatives of some times L^k.
	double lim = 2*e0 + 30*std::pow(4*z, N + 1)/std::tgamma(N + 2)*3 + 1e-9;
	CHECK(inf_norm(e) <= lim, m.name << ": error " << inf_norm(e) << " at fraction " << th << " of a step of L*h = " << z << ", errors at its ends " << e0);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C17"); }
