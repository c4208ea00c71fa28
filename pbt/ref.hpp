// Reference definitions of the methods, independent of the library: implicit
// families are constructed from their quadrature nodes in long double, explicit
// tableaux are typed from the literature as rationals.
#ifndef PBT_REF_HPP
#define PBT_REF_HPP

#include "ode.hpp"

namespace pbt {

typedef long double ld;
typedef std::vector<ld> lvec;
typedef std::vector<lvec> lmat;

struct RefTableau {
	std::string name;
	int order, order2;
	bool explicit_method;
	bool fsal;
	mat A; vec b, c;
	vec b2; ///< explicit pairs only
};

/// Gaussian elimination with pivoting in long double.
inline lvec lsolve(lmat M, lvec r)
{
	size_t n = r.size();
	for (size_t k = 0; k < n; ++k) {
		size_t p = k;
		for (size_t i = k; i < n; ++i) if (std::fabs(M[i][k]) > std::fabs(M[p][k])) p = i;
		std::swap(M[p], M[k]); std::swap(r[p], r[k]);
		for (size_t i = k + 1; i < n; ++i) {
			ld m = M[i][k]/M[k][k];
			for (size_t j = k; j < n; ++j) M[i][j] -= m*M[k][j];
			r[i] -= m*r[k];
		}
	}
	for (size_t k = n; k-- > 0;) {
		for (size_t j = k + 1; j < n; ++j) r[k] -= M[k][j]*r[j];
		r[k] /= M[k][k];
	}
	return r;
}

/// Shifted Legendre polynomial P_n(2x-1).
inline ld legendre(int n, ld x)
{
	ld u = 2*x - 1, p0 = 1, p1 = u;
	if (n == 0) return 1;
	for (int k = 2; k <= n; ++k) { ld p2 = ((2*k - 1)*u*p1 - (k - 1)*p0)/k; p0 = p1; p1 = p2; }
	return p1;
}

/// Roots of f in (lo,hi), found by sign changes on a fine grid and bisection.
inline lvec roots_of(std::function<ld(ld)> f, ld lo, ld hi)
{
	lvec r;
	const int M = 4000;
	ld x0 = lo, f0 = f(lo);
	for (int i = 1; i <= M; ++i) {
		ld x1 = lo + (hi - lo)*i/M, f1 = f(x1);
		if (f0 == 0) { r.push_back(x0); }
		else if (f0*f1 < 0) {
			ld a = x0, b = x1, fa = f0;
			for (int k = 0; k < 200; ++k) {
				ld m = (a + b)/2, fm = f(m);
				if (fm == 0) { a = b = m; break; }
				if (fa*fm < 0) b = m; else { a = m; fa = fm; }
			}
			r.push_back((a + b)/2);
		}
		x0 = x1; f0 = f1;
	}
	return r;
}

/// sum_j w_j c_j^(k-1) = rhs(k), k = 1..s
inline lvec quad_weights(const lvec &c, const lvec &rhs)
{
	size_t s = c.size();
	lmat M(s, lvec(s));
	for (size_t k = 0; k < s; ++k)
		for (size_t j = 0; j < s; ++j) M[k][j] = k == 0 ? 1 : powl(c[j], k);
	return lsolve(M, rhs);
}

inline mat to_mat(const lmat &m)
{
	mat r(m.size(), m.size());
	for (size_t i = 0; i < m.size(); ++i)
		for (size_t j = 0; j < m.size(); ++j) r(i,j) = (double)m[i][j];
	return r;
}
inline vec to_vec(const lvec &m)
{
	vec r(m.size());
	for (size_t i = 0; i < m.size(); ++i) r(i) = (double)m[i];
	return r;
}

enum Family { GAUSS, RADAU, LOB_A, LOB_C };

inline RefTableau implicit_family(const std::string &name, Family fam, int s)
{
	lvec c;
	ld e = 1e-9L;
	if (fam == GAUSS) c = roots_of([s](ld x) { return legendre(s, x); }, 0, 1);
	else if (fam == RADAU) {
		c = roots_of([s](ld x) { return legendre(s, x) - legendre(s - 1, x); }, 0, 1 - e);
		c.push_back(1);
	} else {
		// Lobatto: P_s - P_{s-2} vanishes in 0, 1 and the interior nodes.
		c = roots_of([s](ld x) { return legendre(s, x) - legendre(s - 2, x); }, e, 1 - e);
		c.insert(c.begin(), 0);
		c.push_back(1);
	}
	if ((int)c.size() != s) { fprintf(stderr, "reference nodes wrong\n"); abort(); }
	lvec rhs(s);
	for (int k = 1; k <= s; ++k) rhs[k-1] = 1.0L/k;
	lvec b = quad_weights(c, rhs);
	lmat A(s);
	for (int i = 0; i < s; ++i) {
		if (fam == LOB_C) {
			// a_i1 = b_1 and sum_j a_ij c_j^(k-1) = c_i^k/k for k = 1..s-1.
			lmat M(s, lvec(s));
			lvec r(s);
			for (int j = 0; j < s; ++j) M[0][j] = j == 0;
			r[0] = b[0];
			for (int k = 1; k < s; ++k) {
				for (int j = 0; j < s; ++j) M[k][j] = k == 1 ? 1 : powl(c[j], k - 1);
				r[k] = powl(c[i], k)/k;
			}
			A[i] = lsolve(M, r);
		} else {
			for (int k = 1; k <= s; ++k) rhs[k-1] = powl(c[i], k)/k;
			A[i] = quad_weights(c, rhs);
		}
	}
	RefTableau t;
	t.name = name;
	t.explicit_method = false;
	t.fsal = false;
	t.order2 = 0;
	t.order = fam == GAUSS ? 2*s : fam == RADAU ? 2*s - 1 : 2*s - 2;
	t.A = to_mat(A); t.b = to_vec(b); t.c = to_vec(c);
	return t;
}

inline RefTableau explicit_tab(const std::string &name, int order, int order2, bool fsal,
                               std::vector<std::vector<double>> rows,
                               std::vector<double> b, std::vector<double> b2,
                               std::vector<double> c)
{
	RefTableau t;
	t.name = name; t.order = order; t.order2 = order2; t.explicit_method = true; t.fsal = fsal;
	size_t s = b.size();
	t.A = arma::zeros(s, s);
	for (size_t i = 0; i < rows.size(); ++i)
		for (size_t j = 0; j < rows[i].size(); ++j) t.A(i+1,j) = rows[i][j];
	t.b = vec(b); t.c = vec(c);
	if (b2.size()) t.b2 = vec(b2);
	return t;
}

inline const std::map<int, RefTableau> &reference()
{
	static std::map<int, RefTableau> m;
	if (m.size()) return m;
	m[erk::EXPLICIT_EULER] = explicit_tab("EXPLICIT_EULER", 1, 0, false, {}, {1.0}, {}, {0.0});
	m[erk::RUNGE_KUTTA_4] = explicit_tab("RUNGE_KUTTA_4", 4, 0, false,
		{{0.5}, {0, 0.5}, {0, 0, 1}}, {1/6., 1/3., 1/3., 1/6.}, {}, {0, 0.5, 0.5, 1});
	m[erk::BOGACKI_SHAMPINE_32] = explicit_tab("BOGACKI_SHAMPINE_32", 3, 2, true,
		{{0.5}, {0, 0.75}, {2/9., 1/3., 4/9.}}, {2/9., 1/3., 4/9., 0},
		{7/24., 1/4., 1/3., 1/8.}, {0, 0.5, 0.75, 1});
	m[erk::CASH_KARP_54] = explicit_tab("CASH_KARP_54", 5, 4, false,
		{{1/5.}, {3/40., 9/40.}, {3/10., -9/10., 6/5.}, {-11/54., 5/2., -70/27., 35/27.},
		 {1631/55296., 175/512., 575/13824., 44275/110592., 253/4096.}},
		{37/378., 0, 250/621., 125/594., 0, 512/1771.},
		{2825/27648., 0, 18575/48384., 13525/55296., 277/14336., 1/4.},
		{0, 1/5., 3/10., 3/5., 1, 7/8.});
	m[erk::DORMAND_PRINCE_54] = explicit_tab("DORMAND_PRINCE_54", 5, 4, true,
		{{1/5.}, {3/40., 9/40.}, {44/45., -56/15., 32/9.},
		 {19372/6561., -25360/2187., 64448/6561., -212/729.},
		 {9017/3168., -355/33., 46732/5247., 49/176., -5103/18656.},
		 {35/384., 0, 500/1113., 125/192., -2187/6784., 11/84.}},
		{35/384., 0, 500/1113., 125/192., -2187/6784., 11/84., 0},
		{5179/57600., 0, 7571/16695., 393/640., -92097/339200., 187/2100., 1/40.},
		{0, 1/5., 3/10., 4/5., 8/9., 1, 1});
	m[erk::FEHLBERG_54] = explicit_tab("FEHLBERG_54", 5, 4, false,
		{{1/4.}, {3/32., 9/32.}, {1932/2197., -7200/2197., 7296/2197.},
		 {439/216., -8, 3680/513., -845/4104.},
		 {-8/27., 2, -3544/2565., 1859/4104., -11/40.}},
		{16/135., 0, 6656/12825., 28561/56430., -9/50., 2/55.},
		{25/216., 0, 1408/2565., 2197/4104., -1/5., 0},
		{0, 1/4., 3/8., 12/13., 1, 1/2.});
	m[irk::IMPLICIT_EULER] = implicit_family("IMPLICIT_EULER", RADAU, 1);
	m[irk::RADAU_IIA_32] = implicit_family("RADAU_IIA_32", RADAU, 2);
	m[irk::RADAU_IIA_53] = implicit_family("RADAU_IIA_53", RADAU, 3);
	m[irk::RADAU_IIA_95] = implicit_family("RADAU_IIA_95", RADAU, 5);
	m[irk::RADAU_IIA_137] = implicit_family("RADAU_IIA_137", RADAU, 7);
	m[irk::LOBATTO_IIIA_43] = implicit_family("LOBATTO_IIIA_43", LOB_A, 3);
	m[irk::LOBATTO_IIIA_127] = implicit_family("LOBATTO_IIIA_127", LOB_A, 7);
	m[irk::LOBATTO_IIIC_43] = implicit_family("LOBATTO_IIIC_43", LOB_C, 3);
	m[irk::LOBATTO_IIIC_64] = implicit_family("LOBATTO_IIIC_64", LOB_C, 4);
	m[irk::LOBATTO_IIIC_85] = implicit_family("LOBATTO_IIIC_85", LOB_C, 5);
	m[irk::GAUSS_LEGENDRE_42] = implicit_family("GAUSS_LEGENDRE_42", GAUSS, 2);
	m[irk::GAUSS_LEGENDRE_147] = implicit_family("GAUSS_LEGENDRE_147", GAUSS, 7);
	return m;
}

/// The stage derivatives of one step of the reference method (one column per
/// stage). Returns false if the implicit equations could not be solved.
template <typename F, typename J>
bool ref_stages(const RefTableau &T, F &&f, J &&jac, double t, const vec &y, double dt, mat &K)
{
	const int s = T.b.n_elem, n = y.n_elem;
	K.zeros(n, s);
	if (T.explicit_method) {
		for (int i = 0; i < s; ++i) {
			vec x = y;
			for (int j = 0; j < i; ++j) if (T.A(i,j) != 0) x += dt*T.A(i,j)*K.col(j);
			K.col(i) = f(t + T.c(i)*dt, x);
		}
		return true;
	}
	// Unknowns: Z_i = Y_i - y. Full Newton, every stage Jacobian at its stage.
	mat Z = arma::zeros(n, s);
	double best = 1e300;
	int worse = 0;
	for (int it = 0; it < 60; ++it) {
		mat Fm(n, s);
		mat M = arma::eye(n*s, n*s);
		for (int j = 0; j < s; ++j) {
			vec x = y + Z.col(j);
			Fm.col(j) = f(t + T.c(j)*dt, x);
			mat Jj = jac(t + T.c(j)*dt, x);
			for (int i = 0; i < s; ++i)
				if (T.A(i,j) != 0)
					M.submat(n*i, n*j, n*i + n - 1, n*j + n - 1) -= dt*T.A(i,j)*Jj;
		}
		mat R = Z - dt*Fm*T.A.t();
		double rn = arma::norm(arma::vectorise(R), 2);
		vec dz;
		if (!std::isfinite(rn) || !arma::solve(dz, M, -arma::vectorise(R))) return false;
		mat dZ = arma::reshape(dz, n, s);
		Z += dZ;
		double inc = arma::norm(dz, 2), zn = arma::norm(arma::vectorise(Z), 2);
		K = Fm;
		if (inc <= 4e-16*(1e-3 + zn)) break;
		if (inc >= 0.5*best) { if (++worse > 4) { if (inc > 1e-11*(1.0 + zn)) return false; break; } }
		best = std::min(best, inc);
		if (it == 59 && inc > 1e-11*(1.0 + zn)) return false;
	}
	for (int j = 0; j < s; ++j) K.col(j) = f(t + T.c(j)*dt, vec(y + Z.col(j)));
	return true;
}

template <typename F, typename J>
bool ref_step(const RefTableau &T, F &&f, J &&jac, double t, const vec &y, double dt,
              vec &yn, mat &K)
{
	if (!ref_stages(T, f, jac, t, y, dt, K)) return false;
	yn = y + dt*K*T.b;
	return yn.is_finite();
}

} // namespace pbt

#endif // PBT_REF_HPP
