// C22: the supplied test equations.
#include <memory>
#include "../ode.hpp"
#include "test_equations.hpp"
using namespace pbt;
namespace te = test_equations;

/// One of the supplied problems, and what it should be.
struct Known {
	std::string name;
	std::shared_ptr<functor> fun;
	std::function<vec(double, const vec &)> rhs;      ///< typed from the literature
	std::vector<vec> linear;                          ///< weights of conserved sums
	std::function<vec(double)> sol, sol0;             ///< supplied solution; solution from the literature
	vec y; double t;
};

static Known make(Source &s, int which)
{
	Known K;
	K.t = s.chance(1, 3) ? 0 : s.real(-10, 10);
	switch (which) {
	case 0: {
		double l = s.chance(1, 6) ? 1.0 : s.real(-5, 5);
		auto p = l == 1.0 && s.flag() ? std::make_shared<te::exponential>() : std::make_shared<te::exponential>(l);
		K.name = "exponential"; K.fun = p; K.y = rand_vec(s, 1, 3);
		K.rhs = [=](double, const vec &y) { return vec{l*y(0)}; };
		K.t /= 1 + std::fabs(l);
		K.sol = [=](double t) { return p->sol(t); }; K.sol0 = [=](double t) { return vec{std::exp(l*t)}; };
		break; }
	case 1: {
		double w = s.real(-8, 8);
		auto p = std::make_shared<te::harmonic>(w);
		K.name = "harmonic"; K.fun = p; K.y = rand_vec(s, 2, 3);
		K.rhs = [=](double, const vec &y) { return vec{w*y(1), -w*y(0)}; };
		K.sol = [=](double t) { return p->sol(t); }; K.sol0 = [=](double t) { return vec{std::sin(w*t), std::cos(w*t)}; };
		break; }
	case 2: {
		double mu = s.chance(1, 6) ? 0.5 : s.logreal(1e-3, 10);
		K.name = "vdpol"; K.fun = mu == 0.5 && s.flag() ? std::make_shared<te::vdpol>() : std::make_shared<te::vdpol>(mu);
		K.y = rand_vec(s, 2, 3);
		K.rhs = [=](double, const vec &y) { return vec{y(1), ((1 - y(0)*y(0))*y(1) - y(0))/mu}; };
		break; }
	case 3: {
		bool def = s.chance(1, 6);
		double a = def ? 1.0 : s.real(-3, 3), b = def ? 2.5 : s.real(-4, 4);
		K.name = "bruss"; K.fun = def ? std::make_shared<te::bruss>() : std::make_shared<te::bruss>(a, b);
		K.y = rand_vec(s, 2, 4);
		K.rhs = [=](double, const vec &y) { return vec{a - (b + 1)*y(0) + y(0)*y(0)*y(1), b*y(0) - y(0)*y(0)*y(1)}; };
		break; }
	case 4: {
		K.name = "rober"; K.fun = std::make_shared<te::rober>();
		K.y = vec{s.unit(), s.logreal(1e-9, 1e-3), s.unit()};
		if (s.chance(1, 3)) K.y = rand_vec(s, 3, 2);
		K.rhs = [](double, const vec &y) { double r1 = 0.04*y(0), r2 = 3e7*y(1)*y(1), r3 = 1e4*y(1)*y(2); return vec{r3 - r1, r1 - r3 - r2, r2}; };
		K.linear = {vec{1, 1, 1}};
		break; }
	case 5: {
		double r = s.logreal(0.05, 20);
		K.name = "dimer"; K.fun = std::make_shared<te::dimer>(r); K.y = rand_vec(s, 2, 3);
		K.rhs = [=](double, const vec &y) { double v = r*y(0)*y(0) - y(1)/r; return vec{-2*v, v}; };
		K.linear = {vec{1, 2}};
		break; }
	case 6: {
		auto p = std::make_shared<te::stiff_eq>();
		K.name = "stiff_eq"; K.fun = p; K.y = rand_vec(s, 2, 3);
		K.rhs = [](double, const vec &y) { return vec{y(1), -1001*y(1) - 1000*y(0)}; };
		K.t = s.logreal(1e-6, 10);
		K.sol = [=](double t) { return p->sol(t); };
		K.sol0 = [](double t) { double f = std::exp(-1000*t), g = std::exp(-t); return vec{(1000*g - f)/999, 1000*(f - g)/999}; };
		break; }
	case 7: {
		double b2 = s.real(0, 5), b3 = s.real(0, 5), b4 = s.real(0, 5);
		K.name = "kinetic_4"; K.fun = std::make_shared<te::kinetic_4>(b2, b3, b4); K.y = rand_vec(s, 4, 3);
		// n-mers grow by a monomer: M + M <-> 2, M + 2 <-> 3, M + 3 <-> 4.
		K.rhs = [=](double, const vec &y) { double v2 = y(0)*y(0) - b2*y(1), v3 = y(0)*y(1) - b3*y(2), v4 = y(0)*y(2) - b4*y(3);
			return vec{-2*v2 - v3 - v4, v2 - v3, v3 - v4, v4}; };
		K.linear = {vec{1, 2, 3, 4}};
		break; }
	default: {
		bool def = s.chance(1, 6);
		double a = def ? 10 : s.real(-20, 20), r = def ? 28 : s.real(-40, 40), b = def ? 8.0/3.0 : s.real(-5, 5);
		K.name = "lorenz"; K.fun = def ? std::make_shared<te::lorenz>() : std::make_shared<te::lorenz>(a, r, b); K.y = rand_vec(s, 3, 20);
		K.rhs = [=](double, const vec &y) { return vec{a*(y(1) - y(0)), y(0)*(r - y(2)) - y(1), y(0)*y(1) - b*y(2)}; };
	} }
	return K;
}

/// Central differences, extrapolated; with an estimate of the accuracy.
static mat numerical_jac(std::function<vec(const vec &)> f, const vec &y, mat &acc)
{
	int n = y.n_elem;
	mat J(n, n); acc.set_size(n, n);
	for (int k = 0; k < n; ++k) {
		double h = 1e-2*std::max(1e-3*inf_norm(y), std::fabs(y(k)));
		if (h == 0) h = 1e-2;
		auto diff = [&](double q) { vec a = y, b = y; a(k) += q; b(k) -= q; return vec((f(a) - f(b))/(a(k) - b(k))); };
		vec d1 = diff(h), d2 = diff(h/2), d4 = diff(h/4);
		vec e1 = (4*d2 - d1)/3, e2 = (4*d4 - d2)/3, r = (16*e2 - e1)/15;
		J.col(k) = r;
		double m = inf_norm(f(y)), m1 = 0;
		{ vec a = y; a(k) += h; m1 = inf_norm(f(a)); }
		acc.col(k) = arma::abs(r - e2)*2 + 1e-13*(m + m1)/h*4;
	}
	return J;
}

static const int n_problems = 9;

PROP(jacobians, 40000, 1500000,
     "Every supplied problem but three_body, random parameters (default ones included), states and times: the Jacobi matrix equals extrapolated central "
     "differences of the right-hand side. Non-trivial: at least 2 equations.")
{
	Known K = make(s, s.below(n_problems));
	c.label(K.name); c.desc << K.name << " y=" << show(K.y);
	mat acc, J = K.fun->jac(K.t, K.y);
	mat D = numerical_jac([&](const vec &y) { return K.fun->fun(K.t, y); }, K.y, acc);
	int n = K.y.n_elem;
	c.nontrivial = n > 1;
	CHECK((int)J.n_rows == n && (int)J.n_cols == n, K.name << ": a " << J.n_rows << " by " << J.n_cols << " Jacobi matrix");
	for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) {
		double lim = acc(i,k) + 1e-9*std::fabs(D(i,k)) + 1e-11*(1 + arma::abs(D.row(i)).max());
		CHECK(std::fabs(J(i,k) - D(i,k)) <= lim, K.name << ": entry (" << i << "," << k << ") is " << J(i,k) << ", the derivative " << D(i,k) << " at " << show(K.y));
	}
}

PROP(right_hand_sides, 40000, 1500000,
     "The same problems against their definition in the literature, and the sums they conserve have zero derivative. Non-trivial: at least 2 equations.")
{
	Known K = make(s, s.below(n_problems));
	c.label(K.name); c.desc << K.name << " y=" << show(K.y);
	c.nontrivial = K.y.n_elem > 1;
	vec keep = K.y, f = K.fun->fun(K.t, K.y), g = K.rhs(K.t, K.y);
	CHECK(same_vec(keep, K.y), K.name << ": the state was modified");
	CHECK(f.n_elem == g.n_elem, K.name << ": " << f.n_elem << " components");
	double big = inf_norm(g);
	// Terms may cancel: compare to the largest that the state can make.
	double terms = 0;
	{ mat J = K.fun->jac(K.t, K.y); terms = arma::accu(arma::abs(J)*arma::abs(K.y)); }
	CHECK(inf_norm(vec(f - g)) <= 1e-13*(big + terms + 1), K.name << ": right-hand side " << show(f) << " instead of " << show(g) << " at " << show(K.y));
	for (auto &w : K.linear) CHECK(std::fabs(arma::dot(w, f)) <= 1e-12*(big + terms + 1), K.name << ": a conserved sum changes at the rate " << arma::dot(w, f));
}

PROP(solutions, 20000, 600000,
     "The supplied solutions of exponential, harmonic and stiff_eq at random times and parameters: as in the literature, and their derivative (extrapolated "
     "differences) is the right-hand side. Non-trivial: a time other than 0.")
{
	static const std::vector<int> with = {0, 1, 6};
	Known K = make(s, s.pick(with));
	c.label(K.name); c.desc << K.name << " t=" << K.t;
	c.nontrivial = K.t != 0;
	vec u = K.sol(K.t), v = K.sol0(K.t);
	CHECK(u.n_elem == v.n_elem && inf_norm(vec(u - v)) <= 1e-13*(1 + inf_norm(v)), K.name << ": solution " << show(u) << " instead of " << show(v));
	auto d = [&](double h) { return vec((K.sol(K.t + h) - K.sol(K.t - h))/(2*h)); };
	double h = K.name == "stiff_eq" ? 1e-5 : 1e-2;
	if (K.name == "stiff_eq" && K.t > 0.02) h = 1e-3*K.t;
	vec d1 = d(h), d2 = d(h/2), d4 = d(h/4);
	vec D = (16*(4*d4 - d2)/3 - (4*d2 - d1)/3)/15, f = K.fun->fun(K.t, u);
	double lim = 1e-6*(inf_norm(f) + inf_norm(u) + 1e-8) + 1e-13*inf_norm(u)/h*100;
	CHECK(inf_norm(vec(D - f)) <= lim, K.name << ": derivative " << show(D) << " of the solution at t = " << K.t << ", right-hand side " << show(f));
}

/// A functor that counts, for compute().
struct Counting : functor {
	mat A; int nf = 0, nj = 0;
	double lastt = 0;
	arma::vec fun(double t, const vec_type &y) override { ++nf; lastt = t; return A*y + std::sin(t); }
	jac_type jac(double t, const vec_type &y) override { ++nj; lastt = t; mat J = A; J(0,0) += t*y(0); return J; }
};

PROP(together, 20000, 600000,
     "compute() of every supplied problem and of a random functor: the value is that of fun, the matrix that of jac when asked for, and otherwise it is left "
     "alone and jac is not called. Non-trivial: always.")
{
	c.nontrivial = true;
	bool want = s.flag();
	if (s.chance(1, 3)) {
		Counting F;
		int n = 1 + s.below(4);
		F.A = rand_mat(s, n, n, 2);
		vec y = rand_vec(s, n, 3); double t = s.real(-5, 5);
		c.desc << "functor n=" << n << " matrix " << want;
		mat J = rand_mat(s, n, n, 9), K = J;
		functor &G = F;
		vec f = G.compute(t, y, J, want);
		CHECK(F.nf == 1 && F.nj == (want ? 1 : 0), F.nf << " and " << F.nj << " calls");
		CHECK(same_vec(f, F.fun(t, y)), "value differs");
		mat W = want ? F.jac(t, y) : K;
		CHECK(same_vec(arma::vectorise(J), arma::vectorise(W)), "matrix " << (want ? "differs" : "was changed"));
		return;
	}
	Known K;
	int which = s.below(n_problems + 1);
	if (which < n_problems) K = make(s, which);
	else { K.name = "three_body"; K.fun = std::make_shared<te::three_body>(s.real(0.5, 2), s.real(0.5, 2), 1.0); K.y = rand_vec(s, 12, 1); K.t = 0; K.y(2) += 4; K.y(5) += 4; }
	c.label(K.name); c.desc << K.name << " matrix " << want;
	int n = K.y.n_elem;
	mat J = rand_mat(s, n, n, 9), B = J;
	vec f = K.fun->compute(K.t, K.y, J, want);
	mat W = want ? K.fun->jac(K.t, K.y) : B;
	CHECK(same_vec(f, K.fun->fun(K.t, K.y)), K.name << ": value differs");
	CHECK(same_vec(arma::vectorise(J), arma::vectorise(W)), K.name << ": matrix " << (want ? "differs" : "was changed"));
}

// ------------------------------------------------------------ three_body

struct Bodies { double m[3]; vec y; };
static Bodies rand_bodies(Source &s)
{
	Bodies B;
	for (double &m : B.m) m = s.chance(1, 4) ? 1.0 : s.real(0.2, 3);
	B.y.set_size(12);
	for (int k = 0; k < 6; ++k) B.y(k) = s.real(-3, 3);
	for (int k = 6; k < 12; ++k) B.y(k) = s.real(-2, 2);
	for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j)
		if (std::hypot(B.y(2*i) - B.y(2*j), B.y(2*i+1) - B.y(2*j+1)) < 0.3) throw Discard();
	return B;
}
/// Newton's law for unit gravity; q = p/m.
static vec bodies_rhs(const Bodies &B)
{
	vec f = arma::zeros(12);
	for (int i = 0; i < 3; ++i) { f(2*i) = B.y(6 + 2*i)/B.m[i]; f(2*i+1) = B.y(7 + 2*i)/B.m[i];
		for (int j = 0; j < 3; ++j) if (j != i) {
			double dx = B.y(2*j) - B.y(2*i), dy = B.y(2*j+1) - B.y(2*i+1), r = std::hypot(dx, dy), w = B.m[i]*B.m[j]/(r*r*r);
			f(6 + 2*i) += w*dx; f(7 + 2*i) += w*dy; } }
	return f;
}
static te::three_body bodies(Source &s, const Bodies &B)
{
	// Two ways to set the masses.
	if (s.flag()) return te::three_body(B.m[0], B.m[1], B.m[2]);
	te::three_body T; T.set_m1(B.m[0]); T.set_m2(B.m[1]); T.set_m3(B.m[2]);
	return T;
}

PROP(bodies_rhs_and_potential, 20000, 600000,
     "three_body with random masses and states: every component of the right-hand side is that of Newton's law (component 9, a known finding, may also be the known wrong value), the potential energy "
     "has the forces as its gradient, the kinetic energy is that of unit masses or the right one, masses are the ones given. Non-trivial: masses differ.")
{
	Bodies B = rand_bodies(s);
	te::three_body T = bodies(s, B);
	c.desc << "masses " << B.m[0] << " " << B.m[1] << " " << B.m[2] << " y=" << show(B.y);
	c.nontrivial = B.m[0] != B.m[1] || B.m[1] != B.m[2];
	CHECK(T.m1 == B.m[0] && T.m2 == B.m[1] && T.m3 == B.m[2], "masses");
	vec f = T.fun(s.real(-5, 5), B.y), g = bodies_rhs(B);
	double lim = 1e-12*(1 + inf_norm(g));
	for (int k = 0; k < 12; ++k) {
		double want = g(k);
		if (k == 9 && std::fabs(f(9) - want) > lim) {
			double r12 = std::hypot(B.y(2) - B.y(0), B.y(3) - B.y(1)), r23 = std::hypot(B.y(4) - B.y(2), B.y(5) - B.y(3));
			want = -B.m[0]*B.m[1]*(B.y(3) - B.y(1))/std::pow(r12, 3) + B.m[1]*B.m[2]*(B.y(4) - B.y(2))/std::pow(r23, 3);
		}
		CHECK(std::fabs(f(k) - want) <= lim, "three_body: component " << k << " is " << f(k) << " instead of " << g(k));
	}
	auto V = [&](const vec &y) { double v = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) v -= B.m[i]*B.m[j]/std::hypot(y(2*i) - y(2*j), y(2*i+1) - y(2*j+1)); return v; };
	CHECK(std::fabs(T.pot_energy(B.y) - V(B.y)) <= 1e-12*(1 + std::fabs(V(B.y))), "three_body: potential energy " << T.pot_energy(B.y) << " instead of " << V(B.y));
	double k1 = 0, km = 0;
	for (int k = 6; k < 12; ++k) { k1 += 0.5*B.y(k)*B.y(k); km += 0.5*B.y(k)*B.y(k)/B.m[(k - 6)/2]; }
	double k = T.kin_energy(B.y);
	CHECK(std::fabs(k - k1) <= 1e-12*(1 + k1) || std::fabs(k - km) <= 1e-12*(1 + km), "three_body: kinetic energy " << k << " instead of " << km);
}

PROP(bodies_jacobi, 20000, 400000,
     "The Jacobi matrix of three_body (a known finding): every entry is the derivative, or the known wrong one: the negative derivative of the forces in the block of the "
     "momenta (with two known powers of a distance wrong), and -1/m in that of the positions. Non-trivial: masses differ.")
{
	Bodies B = rand_bodies(s);
	te::three_body T = bodies(s, B);
	c.desc << "masses " << B.m[0] << " " << B.m[1] << " " << B.m[2] << " y=" << show(B.y);
	c.nontrivial = B.m[0] != B.m[1] || B.m[1] != B.m[2];
	mat J = T.jac(0, B.y), H = arma::zeros(6, 6), D = arma::zeros(12, 12), W = arma::zeros(12, 12);
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) {
		double d[2] = {B.y(2*j) - B.y(2*i), B.y(2*j+1) - B.y(2*i+1)}, r = std::hypot(d[0], d[1]), w = B.m[i]*B.m[j];
		for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
			double v = w*((a == b)/(r*r*r) - 3*d[a]*d[b]/std::pow(r, 5));
			H(2*i+a, 2*j+b) += v; H(2*i+a, 2*i+b) -= v; }
	}
	for (int k = 0; k < 6; ++k) { D(k, 6 + k) = 1/B.m[k/2]; W(k, k) = -1/B.m[k/2]; }
	D.submat(6, 0, 11, 5) = H; W.submat(6, 6, 11, 11) = -H;
	double r12 = std::hypot(B.y(2) - B.y(0), B.y(3) - B.y(1)), r13 = std::hypot(B.y(4) - B.y(0), B.y(5) - B.y(1));
	W(9, 9) += B.m[0]*B.m[1]*(1/std::pow(r13, 3) - 1/std::pow(r12, 3));
	W(11, 7) -= B.m[0]*B.m[2]*(1/std::pow(r13, 2) - 1/std::pow(r13, 3)); W(7, 11) = W(11, 7);
	double lim = 1e-11*(1 + arma::abs(H).max());
	CHECK(J.n_rows == 12 && J.n_cols == 12, "three_body: a " << J.n_rows << " by " << J.n_cols << " Jacobi matrix");
	for (int i = 0; i < 12; ++i) for (int k = 0; k < 12; ++k)
		CHECK(std::fabs(J(i,k) - D(i,k)) <= lim || std::fabs(J(i,k) - W(i,k)) <= lim, "three_body: entry (" << i << "," << k << ") is " << J(i,k) << " instead of " << D(i,k));
}

FINDING(bodies_momentum, "Momentum of three_body does not change: the forces add up to zero.")
{
	vec y = {0, 0, 1, 0.5, -0.5, 2, 0.1, 0.2, 0, 0, -0.1, 0.3};
	te::three_body T(1, 2, 3);
	c.nontrivial = true;
	vec f = T.fun(0, y);
	double px = f(6) + f(8) + f(10), py = f(7) + f(9) + f(11);
	CHECK(std::fabs(px) < 1e-12 && std::fabs(py) < 1e-12, "the momentum changes at the rate (" << px << ", " << py << ")");
}
FINDING(bodies_jacobian, "The Jacobi matrix of three_body is the derivative of its right-hand side.")
{
	vec y = {0, 0, 1, 0.5, -0.5, 2, 0.1, 0.2, 0, 0, -0.1, 0.3};
	te::three_body T(1, 2, 3);
	c.nontrivial = true;
	mat acc, D = numerical_jac([&](const vec &x) { return T.fun(0, x); }, y, acc), J = T.jac(0, y);
	CHECK(arma::abs(J - D).max() < 1e-6, "the largest difference is " << arma::abs(J - D).max());
}
FINDING(bodies_energy, "The kinetic energy of three_body is the sum of p^2/(2 m).")
{
	vec y = {0, 0, 1, 0.5, -0.5, 2, 0.1, 0.2, 0, 0, -0.1, 0.3};
	te::three_body T(1, 2, 3);
	c.nontrivial = true;
	double want = 0.5*(0.05/1 + 0.1/3);
	CHECK(std::fabs(T.kin_energy(y) - want) < 1e-12, "kinetic energy " << T.kin_energy(y) << " instead of " << want);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C22"); }
