// C03: stability functions.
#include "../run.hpp"
#include <complex>
using namespace pbt;
typedef std::complex<long double> cld;
typedef std::complex<double> cd;

/// (numerator degree, denominator degree) of the Pade approximant.
static std::pair<int,int> pade_degrees(int code)
{
	switch (code) {
	case irk::IMPLICIT_EULER: return {0, 1};
	case irk::RADAU_IIA_32: return {1, 2};
	case irk::RADAU_IIA_53: return {2, 3};
	case irk::RADAU_IIA_95: return {4, 5};
	case irk::RADAU_IIA_137: return {6, 7};
	case irk::LOBATTO_IIIA_43: return {2, 2};
	case irk::LOBATTO_IIIA_127: return {6, 6};
	case irk::LOBATTO_IIIC_43: return {1, 3};
	case irk::LOBATTO_IIIC_64: return {2, 4};
	case irk::LOBATTO_IIIC_85: return {3, 5};
	case irk::GAUSS_LEGENDRE_42: return {2, 2};
	case irk::GAUSS_LEGENDRE_147: return {7, 7};
	}
	return {-1, -1};
}

static long double fact(int n) { long double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }

/// Numerator and denominator of the (k,j) approximant in z, scaled by z^-j when
/// z is large so that nothing overflows.
static void pade(int k, int j, cld z, cld &P, cld &Q)
{
	P = Q = 0;
	for (int i = k; i >= 0; --i)
		P = P*z + cld(fact(j + k - i)/(fact(i)*fact(k - i))*fact(k)/fact(j + k));
	for (int i = j; i >= 0; --i)
		Q = Q*(-z) + cld(fact(j + k - i)/(fact(i)*fact(j - i))*fact(j)/fact(j + k));
}
static cld pade_value(int k, int j, cld z, bool &ok)
{
	cld P, Q;
	pade(k, j, z, P, Q);
	// In the right half plane stay away from the poles.
	long double s = 0;
	for (int i = 0; i <= j; ++i) s += std::pow(std::abs(z), i)*fact(j + k - i)/(fact(i)*fact(j - i))*fact(j)/fact(j + k);
	ok = std::abs(Q) > 0.02L*s || z.real() <= 0;
	return P/Q;
}

struct LinProblem { mat A; std::vector<cd> ev; mat Q; int n; };

/// Q blockdiag(eigenvalues) Q^T; complex ones as 2x2 blocks. Times dt these are zs.
static LinProblem linear_from(Source &s, const std::vector<cd> &zs, double dt)
{
	LinProblem L;
	L.n = 0;
	for (auto &z : zs) L.n += z.imag() != 0 ? 2 : 1;
	mat D = arma::zeros(L.n, L.n);
	int p = 0;
	for (auto &z : zs) {
		if (z.imag() == 0) { D(p,p) = z.real()/dt; L.ev.push_back(z); ++p; }
		else {
			D(p,p) = D(p+1,p+1) = z.real()/dt;
			D(p,p+1) = z.imag()/dt; D(p+1,p) = -z.imag()/dt;
			L.ev.push_back(z); L.ev.push_back(std::conj(z));
			p += 2;
		}
	}
	L.Q = s.chance(1, 2) ? rand_orth(s, L.n) : mat(arma::eye(L.n, L.n));
	L.A = L.Q*D*L.Q.t();
	return L;
}
static Ode lin_ode(const mat &A)
{
	Ode o;
	o.f = [A](double, const vec &y) { return vec(A*y); };
	o.j = [A](double, const vec &) { return A; };
	return o;
}
/// What the exact stability function makes of y0 in the eigenbasis.
template <typename R>
static vec expected(const LinProblem &L, const vec &y0, R &&stab, int steps)
{
	vec x = L.Q.t()*y0, r(L.n);
	for (int p = 0; p < L.n; ++p) {
		if (L.ev[p].imag() == 0) {
			cld m = std::pow(stab(cld(L.ev[p].real())), steps);
			r(p) = (double)(m.real()*x(p));
		} else {
			// block [a b; -b a] acts as multiplication of x - i*y by a + i*b
			cld v(x(p), -x(p+1));
			cld m = v*std::pow(stab(cld(L.ev[p].real(), L.ev[p].imag())), steps);
			r(p) = (double)m.real(); r(p+1) = -(double)m.imag();
			++p;
		}
	}
	return L.Q*r;
}

static cd rand_z(Source &s, double lo, double hi, int where)
{
	// where: 0 left half plane, 1 imaginary axis, 2 anywhere
	double r = s.logreal(lo, hi);
	if (where == 1) return cd(0, s.flag() ? r : -r);
	bool real = s.chance(1, 3);
	double ph = real ? 3.14159265358979323846 : s.real(1.5708, 4.7123);
	if (where == 2 && s.flag()) { if (real) return cd(r, 0); ph += 3.14159265358979323846; }
	if (real) return cd(-r, 0);
	return cd(r*std::cos(ph), r*std::sin(ph));
}

struct Setup { LinProblem L; Cfg g; double zmax; int steps; };
static Setup setup(Source &s, Case &c, const MethodInfo &m, int where, double lo, double hi, int maxsteps)
{
	Setup S;
	S.g.m = m;
	int k = 1 + s.below(3);
	double dt = s.chance(1, 2) ? 1.0 : s.logreal(0.01, 100);
	std::vector<cd> zs;
	S.zmax = 0;
	for (int i = 0; i < k; ++i) {
		zs.push_back(rand_z(s, lo, hi, where));
		S.zmax = std::max(S.zmax, std::abs(zs.back()));
	}
	S.L = linear_from(s, zs, dt);
	S.g.y0 = rand_vec(s, S.L.n, 1.0);
	S.g.dt = dt;
	S.steps = 1 + s.below(maxsteps);
	S.g.t0 = 0;
	S.g.t1 = S.steps*dt;
	S.g.nopt = tight_newton(1e-12);
	c.desc << m.name << " dt=" << dt << " steps=" << S.steps << " z =";
	for (auto &z : zs) c.desc << " (" << z.real() << "," << z.imag() << ")";
	c.desc << " y0=" << show(S.g.y0);
	c.label(m.name);
	return S;
}

PROP(implicit_pade, 30000, 1200000,
     "Implicit method, linear system with 1 to 3 eigenvalues anywhere in the plane (real, or "
     "complex pairs, |z| from 1e-3 to 1e3 in the left half plane, to 4 in the right), mixed "
     "orthogonally, 1 to 3 steps (1 in the right half plane), compared to the Pade approximant of the family. Non-trivial: "
     "some |z| > 0.1.")
{
	MethodInfo m = s.pick(irk_methods());
	bool right = s.chance(1, 3);
	Setup S = setup(s, c, m, right ? 2 : 0, 1e-3, right ? 4 : 1e3, right ? 1 : 3);
	if (right) S.g.nopt = tight_newton(2e-11); // growing values, growing rounding errors
	auto d = pade_degrees(m.code);
	bool good = true;
	double amp = 1;
	auto stab = [&](cld z) { bool ok; cld r = pade_value(d.first, d.second, z, ok); good = good && ok;
		amp = std::max(amp, (double)std::abs(r)); return r; };
	vec want = expected(S.L, S.g.y0, stab, S.steps);
	if (!good) throw Discard();
	Ode o = lin_ode(S.L.A);
	Run r = run(o, S.g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = S.zmax > 0.1;
	double lim = (1e-10 + 1e-13*S.zmax)*std::pow(amp, S.steps)*(1 + inf_norm(S.g.y0));
	double e = inf_norm(want - r.y.back());
	CHECK(e <= lim, m.name << ": " << show(r.y.back()) << " instead of " << show(want)
	      << ", off by " << e << " > " << lim);
}

PROP(stiff_damping, 10000, 300000,
     "Radau IIA, Lobatto IIIC and implicit Euler with 1 to 3 eigenvalues in the left half plane "
     "with |z| from 1e2 to 1e9: one step leaves at most a multiple of 1/|z| of the solution. All "
     "cases are non-trivial.")
{
	std::vector<MethodInfo> v;
	for (auto &m : irk_methods()) {
		auto d = pade_degrees(m.code);
		if (d.first < d.second) v.push_back(m);
	}
	MethodInfo m = s.pick(v);
	Setup S = setup(s, c, m, 0, 1e2, 1e9, 1);
	double zmin = 1e300;
	for (auto &z : S.L.ev) zmin = std::min(zmin, std::abs(z));
	Ode o = lin_ode(S.L.A);
	Run r = run(o, S.g);
	if (r.status != SUCCESS && S.zmax > 1e6) throw Discard();
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = true;
	auto d = pade_degrees(m.code);
	// |R(z)| is about (j!/k!)/|z|^(j-k) for large |z|; all these are below 60/|z|.
	double lim = (2.0*d.second*d.second + 4)/zmin*arma::norm(S.g.y0, 2) + 1e-11 + 1e-15*S.zmax;
	CHECK(arma::norm(r.y.back(), 2) <= lim, m.name << ": a stiff component survives: |y1| = "
	      << arma::norm(r.y.back(), 2) << " > " << lim);
}

PROP(modulus, 12000, 400000,
     "Gauss-Legendre and Lobatto IIIA methods on purely imaginary eigenvalues (|z| 1e-3..1e3): the "
     "Euclidean norm is preserved over 1 to 5 steps. Non-trivial: |z| > 0.1.")
{
	std::vector<MethodInfo> v;
	for (auto &m : irk_methods()) {
		auto d = pade_degrees(m.code);
		if (d.first == d.second) v.push_back(m);
	}
	MethodInfo m = s.pick(v);
	Setup S = setup(s, c, m, 1, 1e-3, 1e3, 5);
	Ode o = lin_ode(S.L.A);
	Run r = run(o, S.g);
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = S.zmax > 0.1;
	double a = arma::norm(S.g.y0, 2), lim = (1e-10 + 1e-13*S.zmax)*(1 + a);
	for (auto &y : r.y) CHECK(std::fabs(arma::norm(y, 2) - a) <= lim, m.name << ": norm "
	                          << arma::norm(y, 2) << " instead of " << a);
}

PROP(a_stable, 12000, 400000,
     "No implicit method amplifies any eigenvalue in the closed left half plane, |z| from 1e-3 to "
     "1e6, over 1 to 5 steps. Non-trivial: |z| > 1.")
{
	MethodInfo m = s.pick(irk_methods());
	Setup S = setup(s, c, m, s.chance(1, 5) ? 1 : 0, 1e-3, s.flag() ? 20 : 1e6, 5);
	Ode o = lin_ode(S.L.A);
	Run r = run(o, S.g);
	if (r.status != SUCCESS && S.zmax > 1e4) throw Discard();
	CHECK(r.status == SUCCESS, m.name << ": status " << r.status);
	c.nontrivial = S.zmax > 1;
	double lim = (1e-10 + 1e-13*S.zmax);
	for (size_t i = 1; i < r.y.size(); ++i)
		CHECK(arma::norm(r.y[i], 2) <= arma::norm(r.y[i-1], 2)*(1 + lim) + lim,
		      m.name << ": amplifies " << arma::norm(r.y[i-1], 2) << " to " << arma::norm(r.y[i], 2));
}

PROP(explicit_taylor, 20000, 600000,
     "Explicit method, |z| in 0.005..0.3: one step agrees with the Taylor polynomial of the order "
     "up to 0.2|z|^(p+1) (exactly for methods with as many stages as their order). All cases are "
     "non-trivial.")
{
	MethodInfo m = s.pick(erk_methods());
	auto sc = erk::get_coefficients(m.code);
	Setup S = setup(s, c, m, 2, 0.005, 0.3, 1);
	int p = reference().at(m.code).order;
	auto stab = [&](cld z) { cld r = 0; for (int k = p; k >= 0; --k) r += std::pow(z, k)/fact(k); return r; };
	vec want = expected(S.L, S.g.y0, stab, 1);
	Ode o = lin_ode(S.L.A);
	Run r = run(o, S.g);
	c.nontrivial = true;
	bool exact = (int)sc.b.n_elem == p;
	double lim = ((exact ? 0 : 0.2*std::pow(S.zmax, p + 1)) + 1e-13)*2*(inf_norm(S.g.y0) + 0.01);
	double e = inf_norm(want - r.y.back());
	CHECK(e <= lim, m.name << ": off by " << e << " > " << lim);
}

PROP(explicit_polynomial, 20000, 600000,
     "Explicit method, |z| in 0.1..10 anywhere: one step is the stability polynomial of the "
     "literature tableau. Non-trivial: |z| > 0.5.")
{
	MethodInfo m = s.pick(erk_methods());
	Setup S = setup(s, c, m, 2, 0.1, 10, 1);
	const RefTableau &R = reference().at(m.code);
	std::vector<long double> co = {1};
	vec k = arma::ones(R.b.n_elem);
	for (size_t i = 0; i < R.b.n_elem; ++i) { co.push_back(arma::dot(R.b, k)); k = R.A*k; }
	double amp = 0;
	auto stab = [&](cld z) { cld r = 0; for (size_t i = co.size(); i-- > 0;) r = r*z + co[i]; return r; };
	for (size_t i = 0; i < co.size(); ++i) amp += std::fabs(co[i])*std::pow(S.zmax, i);
	vec want = expected(S.L, S.g.y0, stab, 1);
	Ode o = lin_ode(S.L.A);
	Run r = run(o, S.g);
	c.nontrivial = S.zmax > 0.5;
	double lim = 1e-11*(1 + amp*10)*(1 + inf_norm(S.g.y0));
	double e = inf_norm(want - r.y.back());
	CHECK(e <= lim, m.name << ": off by " << e << " > " << lim);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C03"); }
