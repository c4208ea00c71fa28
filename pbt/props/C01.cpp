// C01: order conditions of all tableaux.
#include "../ref.hpp"
using namespace pbt;

// A rooted tree as a list of subtrees.
struct Tree { std::vector<Tree> kids; };

static Tree rand_tree(Source &s, int n)
{
	// n vertices: distribute n-1 over children.
	Tree t;
	int left = n - 1;
	while (left > 0) {
		int k = 1 + (int)s.below(left);
		t.kids.push_back(rand_tree(s, k));
		left -= k;
	}
	return t;
}
static int tsize(const Tree &t) { int n = 1; for (auto &k : t.kids) n += tsize(k); return n; }
static double tgamma_(const Tree &t)
{ double g = tsize(t); for (auto &k : t.kids) g *= tgamma_(k); return g; }
static std::string tshow(const Tree &t)
{
	std::vector<std::string> v;
	for (auto &k : t.kids) v.push_back(tshow(k));
	std::sort(v.begin(), v.end());
	std::string r = "(";
	for (auto &x : v) r += x;
	return r + ")";
}
/// Stage vector Phi(t): product over children of (A Phi(child)).
static vec phi(const Tree &t, const mat &A)
{
	vec p = arma::ones(A.n_rows);
	for (auto &k : t.kids) p %= vec(A*phi(k, A));
	return p;
}
/// Value of an elementary differential at the start of the step: 1 for the
/// tree with one vertex, 0 else (the slope at the start has only order one).
static double at_start(const Tree &t) { return t.kids.empty() ? 1.0 : 0.0; }

struct Tab { std::string name; mat A; vec b, c, b2; int order, order2; double gamma; bool fsal, expl; };

static Tab get(const MethodInfo &m)
{
	Tab t;
	t.name = m.name;
	auto fill = [&](auto sc) {
		t.A = sc.A; t.b = sc.b; t.c = sc.c; t.b2 = sc.b2;
		t.order = sc.order; t.order2 = sc.order2; t.gamma = sc.gamma; t.fsal = sc.FSAL;
	};
	t.expl = !m.implicit;
	if (m.implicit) fill(irk::get_coefficients(m.code));
	else fill(erk::get_coefficients(m.code));
	return t;
}

static std::vector<MethodInfo> all()
{
	std::vector<MethodInfo> v = erk_methods();
	v.insert(v.end(), irk_methods().begin(), irk_methods().end());
	return v;
}

static const int advertised(const std::string &n)
{
	static std::map<std::string,int> m = {
		{"EXPLICIT_EULER",1},{"RUNGE_KUTTA_4",4},{"BOGACKI_SHAMPINE_32",3},{"CASH_KARP_54",5},
		{"DORMAND_PRINCE_54",5},{"FEHLBERG_54",5},{"IMPLICIT_EULER",1},{"RADAU_IIA_32",3},
		{"RADAU_IIA_53",5},{"RADAU_IIA_95",9},{"RADAU_IIA_137",13},{"LOBATTO_IIIA_43",4},
		{"LOBATTO_IIIA_127",12},{"LOBATTO_IIIC_43",4},{"LOBATTO_IIIC_64",6},
		{"LOBATTO_IIIC_85",8},{"GAUSS_LEGENDRE_42",4},{"GAUSS_LEGENDRE_147",14}};
	return m.at(n);
}

static const double TOL = 1e-14;

// The two sides agree to a few units of rounding, measured against the sum of
// the absolute values of the terms: at most 6e-16 on the coefficients as they are.
static const double REL = 5e-15;

static void check_tree(const Tab &m, const Tree &t, bool emb)
{
	vec p = phi(t, m.A), q = phi(t, arma::abs(m.A));
	double want = 1.0/tgamma_(t);
	double TOL = REL*(arma::dot(arma::abs(emb ? m.b2 : m.b), q) + (emb ? m.gamma*at_start(t) : 0));
	if (!emb) {
		double got = arma::dot(m.b, p);
		CHECK(std::fabs(got - want) < TOL, m.name << ": order condition of tree " << tshow(t)
		      << " (order " << tsize(t) << "): " << got << " instead of " << want);
	} else {
		double got = arma::dot(m.b2, p) + m.gamma*at_start(t);
		CHECK(std::fabs(got - want) < TOL, m.name << ": embedded order condition of tree "
		      << tshow(t) << " (order " << tsize(t) << "): " << got << " instead of " << want);
	}
}

PROP(main_order, 24000, 400000,
     "A method and a random rooted tree with at most as many vertices as its advertised order; "
     "non-trivial: at least 3 vertices.")
{
	MethodInfo mi = s.pick(all());
	Tab m = get(mi);
	CHECK(m.order == advertised(m.name), m.name << " reports order " << m.order
	      << " instead of " << advertised(m.name));
	int n = 1 + s.below(m.order);
	Tree t = rand_tree(s, n);
	c.nontrivial = n >= 3;
	c.label(m.name);
	c.desc << m.name << " tree " << tshow(t);
	check_tree(m, t, false);
}

PROP(embedded_order, 12000, 200000,
     "An embedded method and a random rooted tree up to the advertised embedded order; "
     "non-trivial: at least 2 vertices.")
{
	std::vector<MethodInfo> v;
	for (auto &m : all()) if (m.embedded) v.push_back(m);
	MethodInfo mi = s.pick(v);
	Tab m = get(mi);
	CHECK(m.b2.n_elem == m.b.n_elem, m.name << " has no embedded weights");
	CHECK(m.order2 >= 2 && m.order2 < m.order, m.name << " reports embedded order " << m.order2);
	int n = 1 + s.below(m.order2);
	Tree t = rand_tree(s, n);
	c.nontrivial = n >= 2;
	c.label(m.name);
	c.desc << m.name << " embedded, tree " << tshow(t);
	check_tree(m, t, true);
	// An embedded method equal to the main one estimates nothing.
	CHECK(arma::abs(m.b - m.b2).max() > 1e-3, m.name << ": embedded weights equal the main ones");
}

PROP(structure, 400, 2000,
     "Row sums, triangularity, FSAL flag, sizes, real eigenvalue and reference coefficients of a method; every "
     "case is non-trivial (there are 18 distinct methods).")
{
	MethodInfo mi = s.pick(all());
	Tab m = get(mi);
	c.nontrivial = true;
	c.desc << m.name;
	size_t N = m.b.n_elem;
	CHECK(N > 0 && m.c.n_elem == N && m.A.n_rows == N && m.A.n_cols == N, m.name << ": sizes");
	for (size_t i = 0; i < N; ++i) {
		CHECK(std::fabs(arma::sum(m.A.row(i)) - m.c(i)) < TOL, m.name << ": row sum " << i);
		if (m.expl) for (size_t j = i; j < N; ++j)
			CHECK(m.A(i,j) == 0.0, m.name << ": not strictly lower triangular");
	}
	bool stiffly = m.c(0) == 0.0 && m.c(N-1) == 1.0;
	for (size_t j = 0; j < N; ++j) stiffly = stiffly && std::fabs(m.A(N-1,j) - m.b(j)) < TOL
		&& m.A(0,j) == 0.0;
	if (m.fsal) CHECK(stiffly, m.name << " claims first-same-as-last but its last stage is not "
	                  "the new solution");
	bool want_fsal = m.name == "BOGACKI_SHAMPINE_32" || m.name == "DORMAND_PRINCE_54";
	if (m.expl) CHECK(m.fsal == want_fsal, m.name << ": first-same-as-last flag is " << m.fsal);
	// The weight of the slope at the start is the real eigenvalue of the matrix in the Radau
	// methods that have one.
	if (m.name == "RADAU_IIA_53" || m.name == "RADAU_IIA_95" || m.name == "RADAU_IIA_137") {
		double best = INFINITY;
		for (auto z : arma::cx_vec(arma::eig_gen(m.A))) best = std::min(best, std::abs(z - m.gamma));
		CHECK(best < 1e-13, m.name << ": gamma " << m.gamma << " is " << best << " away from the eigenvalues");
	}
	// The same method as in the literature, up to the order of stages.
	const RefTableau &R = reference().at(mi.code);
	for (size_t j = 0; j < R.b.n_elem; ++j) {
		int hit = -1;
		for (size_t i = 0; i < N; ++i)
			if (std::fabs(m.c(i) - R.c(j)) < 1e-13 && std::fabs(m.b(i) - R.b(j)) < 1e-13) hit = i;
		CHECK(hit >= 0, m.name << ": no stage with node " << R.c(j) << " and weight " << R.b(j));
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C01"); }
