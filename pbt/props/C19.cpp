// C19: the method catalogue.
#include "../run.hpp"
using namespace pbt;

/// What the catalogue should hold (names and codes as documented in enums.hpp).
struct Entry { int code; std::string name; bool supported; };
static const std::vector<Entry> &entries(bool imp)
{
	static const std::vector<Entry> e = {
		{100, "EXPLICIT_EULER", true}, {110, "RUNGE_KUTTA_4", true}, {120, "BOGACKI_SHAMPINE_32", true},
		{130, "CASH_KARP_54", true}, {131, "DORMAND_PRINCE_54", true}, {132, "FEHLBERG_54", true} };
	static const std::vector<Entry> i = {
		{200, "IMPLICIT_EULER", true}, {210, "RADAU_IIA_32", true}, {211, "RADAU_IIA_53", true}, {212, "RADAU_IIA_95", true},
		{213, "RADAU_IIA_137", true}, {220, "LOBATTO_IIIA_43", true}, {221, "LOBATTO_IIIA_85", false}, {222, "LOBATTO_IIIA_127", true},
		{230, "LOBATTO_IIIC_43", true}, {231, "LOBATTO_IIIC_64", true}, {232, "LOBATTO_IIIC_85", true}, {233, "LOBATTO_IIIC_127", false},
		{240, "GAUSS_LEGENDRE_42", true}, {241, "GAUSS_LEGENDRE_63", false}, {242, "GAUSS_LEGENDRE_105", false}, {243, "GAUSS_LEGENDRE_147", true} };
	return imp ? i : e;
}
static const Entry *by_code(bool imp, int code)
{ for (auto &e : entries(imp)) if (e.code == code) return &e; return nullptr; }
static const Entry *by_name(bool imp, const std::string &name)
{ for (auto &e : entries(imp)) if (e.name == name) return &e; return nullptr; }

static std::string rand_name(Source &s, bool imp)
{
	std::string n = s.pick(entries(imp)).name;
	switch (s.below(6)) {
	case 0: return n;
	case 1: return s.pick(entries(!imp)).name;
	case 2: n[s.below(n.size())] ^= 32; return n;           // wrong case
	case 3: n.erase(s.below(n.size()), 1); return n;
	case 4: n.insert(n.begin() + s.below(n.size() + 1), " _A\0z9"[s.below(6)]); return n;
	default: { std::string r; for (int k = s.below(12); k > 0; --k) r += (char)s.range(1, 126); return r; }
	}
}
static int rand_code(Source &s, bool imp)
{
	switch (s.below(4)) {
	case 0: case 1: return s.pick(entries(imp)).code;
	case 2: return s.range(90, 260);
	default: return s.pick(std::vector<int>{0, -1, 1, 10, 11, 20, 99, 1000, INT32_MAX, INT32_MIN, (int)s.range(-5000, 5000)});
	}
}
template <typename C> static bool same_coeffs(const C &a, const C &b)
{
	auto same = [](const mat &x, const mat &y) { return x.n_rows == y.n_rows && x.n_cols == y.n_cols && same_vec(arma::vectorise(x), arma::vectorise(y)); };
	return same(a.A, b.A) && same(a.b, b.b) && same(a.c, b.c) && same(a.b2, b.b2) && same(a.b_interp, b.b_interp) && a.order == b.order
		&& a.order2 == b.order2 && a.FSAL == b.FSAL && a.gamma == b.gamma && std::string(a.name) == b.name;
}

/// Both integrators have the same functions, in different namespaces.
struct E {
	typedef erk::solver_coeffs coeffs;
	static constexpr bool imp = false;
	static int code(const std::string &n) { return erk::name_to_method(n); }
	static const char *name(int c) { return erk::method_to_name(c); }
	static coeffs get(int c) { return erk::get_coefficients(c); }
	static bool ok(const coeffs &c) { return erk::verify_solver_coeffs(c); }
	static std::vector<std::string> all() { return erk::all_method_names(); }
};
struct I {
	typedef irk::solver_coeffs coeffs;
	static constexpr bool imp = true;
	static int code(const std::string &n) { return irk::name_to_method(n); }
	static const char *name(int c) { return irk::method_to_name(c); }
	static coeffs get(int c) { return irk::get_coefficients(c); }
	static bool ok(const coeffs &c) { return irk::verify_solver_coeffs(c); }
	static std::vector<std::string> all() { return irk::all_method_names(); }
};

template <typename M> static void query(Source &s, Case &c, std::map<int, typename M::coeffs> &seen)
{
	switch (s.below(4)) {
	case 0: {
		std::string n = rand_name(s, M::imp);
		const Entry *e = by_name(M::imp, n);
		c.desc << (M::imp ? "irk" : "erk") << ".code(" << n << ") ";
		c.label(e ? "known-name" : "unknown-name");
		int got = M::code(n);
		CHECK(got == (e ? e->code : 0), "the code of '" << n << "' is " << got);
		if (e) CHECK(M::name(got) == n, n << " has code " << got << ", which is called " << M::name(got));
		break; }
	case 1: {
		int code = rand_code(s, M::imp);
		const Entry *e = by_code(M::imp, code);
		c.desc << (M::imp ? "irk" : "erk") << ".name(" << code << ") ";
		c.label(e ? "known-code" : "unknown-code");
		std::string got = M::name(code);
		CHECK(got == (e ? e->name : ""), "method " << code << " is called '" << got << "'");
		if (e) CHECK(M::code(got) == code, "method " << code << " is called " << got << ", whose code is " << M::code(got));
		break; }
	case 2: {
		int code = rand_code(s, M::imp);
		const Entry *e = by_code(M::imp, code);
		c.desc << (M::imp ? "irk" : "erk") << ".get(" << code << ") ";
		auto sc = M::get(code);
		c.label(!e ? "get-unknown" : e->supported ? "get-supported" : "get-unsupported");
		CHECK(M::ok(sc) == (e && e->supported), "coefficients of method " << code << " are " << (M::ok(sc) ? "" : "not ") << "valid");
		CHECK(sc.name != nullptr && std::string(sc.name) == (e ? e->name : ""), "coefficients of method " << code << " are called " << sc.name);
		auto it = seen.find(code);
		if (it == seen.end()) seen[code] = sc;
		else CHECK(same_coeffs(it->second, sc), "method " << code << " has other coefficients than before");
		if (e && e->supported) {
			const RefTableau &R = reference().at(code);
			CHECK(sc.order == R.order, e->name << " has order " << sc.order);
			CHECK(M::imp || (sc.b2.n_elem == 0) == (R.b2.n_elem == 0), e->name << ": embedded weights");
		}
		break; }
	default: {
		std::vector<std::string> got = M::all();
		std::vector<std::string> want;
		for (auto &e : entries(M::imp)) want.push_back(e.name);
		std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
		std::string g; for (auto &n : got) g += n + " ";
		c.desc << (M::imp ? "irk" : "erk") << ".all ";
		CHECK(got == want, "the methods listed are " << g);
	} }
}

PROP(queries, 40000, 1500000,
     "Random histories of up to 40 queries of both catalogues: names (known, of the other catalogue, misspelt, arbitrary bytes), codes (known, "
     "unsupported, arbitrary), coefficients, lists of names, compared to a table of the documented names and codes; repeated queries "
     "have the same answer. Non-trivial: an unknown name or code was asked for and queries followed.")
{
	int N = 1 + s.below(40);
	std::map<int, E::coeffs> se; std::map<int, I::coeffs> si;
	for (int k = 0; k < N; ++k) { if (s.flag()) query<I>(s, c, si); else query<E>(s, c, se); }
	for (auto &l : c.labels) if (l.substr(0, 7) == "unknown" && N > 3) c.nontrivial = true;
}

template <typename C> static C rand_coeffs(Source &s, bool &consistent, bool &strict)
{
	C sc; sc.name = "x"; sc.order = sc.order2 = 1; sc.FSAL = false; sc.gamma = 0;
	int N = s.below(6), nb = N, nc = N, ar = N, ac = N;
	if (s.chance(1, 2)) switch (s.below(6)) {
		case 0: nb += 1; break;
		case 1: nc += 1; break;
		case 2: ar += 1; break;
		case 3: ac += 1; break;
		case 4: if (N) --nb; break;
		default: ar = s.below(6); ac = s.below(6); nb = s.below(6); nc = s.below(6);
	}
	sc.b = rand_vec(s, nb, 1); sc.c = rand_vec(s, nc, 1);
	sc.A = arma::zeros(ar, ac);
	int kind = s.below(4);
	for (int i = 0; i < ar; ++i) for (int j = 0; j < ac; ++j)
		if (i > j || kind == 0) sc.A(i,j) = s.chance(1, 4) ? 0 : s.real(-2, 2);
	// One entry that is not allowed, possibly very small.
	if (kind == 1 && ar && ac) { int i = s.below(ar), j = s.below(ac); sc.A(i,j) = s.logreal(1e-300, 1)*(s.flag() ? 1 : -1); }
	consistent = N > 0 || nb > 0;
	consistent = consistent && nb > 0 && nb == nc && nb == ar && nb == ac;
	strict = true;
	for (int i = 0; i < ar; ++i) for (int j = i; j < ac; ++j) if (sc.A(i,j) != 0) strict = false;
	return sc;
}

PROP(verification, 60000, 2000000,
     "Random tableaus of 0 to 7 rows with sizes of weights, nodes and matrix that agree or not, and entries on or above the diagonal or not "
     "(down to 1e-300): accepted exactly when consistent (and strictly lower triangular, for explicit methods). Non-trivial: rejected for "
     "one of the reasons, or accepted with at least 2 stages.")
{
	bool ok, strict;
	if (s.flag()) {
		auto sc = rand_coeffs<irk::solver_coeffs>(s, ok, strict);
		c.desc << "irk b " << sc.b.n_elem << " c " << sc.c.n_elem << " A " << sc.A.n_rows << "x" << sc.A.n_cols;
		c.label(ok ? "implicit-valid" : "implicit-invalid");
		c.nontrivial = !ok || sc.b.n_elem > 1;
		CHECK(irk::verify_solver_coeffs(sc) == ok, "tableau with " << sc.b.n_elem << " weights, " << sc.c.n_elem << " nodes, " << sc.A.n_rows << " by "
		      << sc.A.n_cols << " matrix is " << (ok ? "rejected" : "accepted"));
	} else {
		auto sc = rand_coeffs<erk::solver_coeffs>(s, ok, strict);
		c.desc << "erk b " << sc.b.n_elem << " c " << sc.c.n_elem << " A " << sc.A.n_rows << "x" << sc.A.n_cols << " strict " << strict;
		c.label(ok && strict ? "explicit-valid" : ok ? "explicit-not-explicit" : "explicit-invalid");
		c.nontrivial = !ok || sc.b.n_elem > 1;
		CHECK(erk::verify_solver_coeffs(sc) == (ok && strict), "tableau with " << sc.b.n_elem << " weights, " << sc.c.n_elem << " nodes, " << sc.A.n_rows
		      << " by " << sc.A.n_cols << (strict ? " explicit" : " not explicit") << " matrix is " << (ok && strict ? "rejected" : "accepted"));
	}
}

PROP(predicates, 60000, 2000000,
     "Square matrices of size 1 to 8 built to be explicit, diagonally implicit, singly so, or nearly so (one entry off, possibly tiny): the three "
     "predicates agree with the structure. Also all supported methods. Non-trivial: size at least 2.")
{
	irk::solver_coeffs sc; sc.name = "x"; sc.FSAL = false; sc.gamma = 0; sc.order = sc.order2 = 1;
	if (s.chance(1, 20)) {
		MethodInfo m = s.pick(all_methods());
		c.desc << m.name;
		if (m.implicit) sc = irk::get_coefficients(m.code);
		else { auto e = erk::get_coefficients(m.code); sc.A = e.A; sc.b = e.b; sc.c = e.c; }
		CHECK(irk::is_method_explicit(sc) == !m.implicit, m.name << " is taken for " << (m.implicit ? "an explicit" : "an implicit") << " method");
	} else {
		int N = 1 + s.below(8), kind = s.below(5);
		sc.A = arma::zeros(N, N); sc.b = arma::zeros(N); sc.c = arma::zeros(N);
		double d = s.real(-1, 1);
		for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
			if (j < i) sc.A(i,j) = s.chance(1, 5) ? 0 : s.real(-1, 1);
			else if (j == i) sc.A(i,j) = kind == 0 ? 0 : kind == 1 ? d : kind == 2 ? s.real(-1, 1) : kind == 3 && i ? d : kind == 3 ? 0 : s.real(-1, 1);
			else if (kind == 4) sc.A(i,j) = s.chance(1, 2) ? 0 : s.real(-1, 1);
		}
		if (s.chance(1, 3)) { int i = s.below(N), j = s.below(N); sc.A(i,j) += s.logreal(1e-16, 1)*(s.flag() ? 1 : -1); }
		c.desc << "size " << N << " kind " << kind;
		c.nontrivial = N > 1;
	}
	int N = sc.A.n_rows;
	bool ex = true, dirk = true, sdirk = true;
	for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) {
		if (sc.A(i,j) != 0) ex = false;
		if (j > i && sc.A(i,j) != 0) dirk = false;
		if (i == j && sc.A(i,i) != sc.A(0,0)) sdirk = false;
	}
	sdirk = sdirk && dirk;
	c.label(ex ? "explicit" : sdirk ? "sdirk" : dirk ? "dirk" : "full");
	std::ostringstream o; sc.A.print(o);
	CHECK(irk::is_method_explicit(sc) == ex, "is " << (ex ? "not taken" : "taken") << " for explicit:\n" << o.str());
	CHECK(irk::is_method_dirk(sc) == dirk, "is " << (dirk ? "not taken" : "taken") << " for diagonally implicit:\n" << o.str());
	CHECK(irk::is_method_sdirk(sc) == sdirk, "is " << (sdirk ? "not taken" : "taken") << " for singly diagonally implicit:\n" << o.str());
}

PROP(printing, 15000, 400000,
     "Supported methods and random tableaus (with and without embedded weights), printed to a stream: the name, one row per stage with node and "
     "matrix row, the weights, and the embedded weights if any, each number to six digits. Non-trivial: at least 2 stages.")
{
	irk::solver_coeffs sc;
	if (s.chance(1, 3)) sc = irk::get_coefficients(s.pick(irk_methods()).code);
	else {
		int N = 1 + s.below(6);
		sc.name = s.flag() ? "SOME_METHOD" : "X";
		auto num = [&]() { switch (s.below(4)) { case 0: return 0.0; case 1: return (double)s.range(-3, 3)/s.range(1, 7); case 2: return s.gauss()*s.logreal(1e-8, 1e8); default: return s.real(-1, 1); } };
		sc.A.set_size(N, N); sc.b.set_size(N); sc.c.set_size(N);
		for (int i = 0; i < N; ++i) { sc.b(i) = num(); sc.c(i) = num(); for (int j = 0; j < N; ++j) sc.A(i,j) = num(); }
		if (s.flag()) { sc.b2.set_size(N); for (int i = 0; i < N; ++i) sc.b2(i) = num(); }
	}
	int N = sc.b.n_elem;
	c.desc << sc.name << " " << N << " stages, embedded " << sc.b2.n_elem;
	c.nontrivial = N > 1;
	std::ostringstream o; o << sc;
	std::istringstream in(o.str());
	std::string line;
	auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-5*std::fabs(b) + 1e-300; };
	CHECK(std::getline(in, line) && line == sc.name, "the name is printed as '" << line << "'");
	// Numbers of a row; whatever separates them is a matter of taste.
	auto numbers = [](std::string l) { for (char &x : l) if (x == '|' || x == ',' || x == ';') x = ' '; std::istringstream i(l); std::vector<double> v; double d; while (i >> d) v.push_back(d);
		std::string rest; i.clear(); i >> rest; if (!rest.empty()) v.clear(); return v; };
	std::vector<std::vector<double>> rows;
	while (std::getline(in, line)) { auto v = numbers(line); if (!v.empty()) rows.push_back(v); }
	size_t want = N + 1 + (sc.b2.n_elem ? 1 : 0);
	CHECK(rows.size() == want, rows.size() << " rows of numbers instead of " << want << ":\n" << o.str());
	for (size_t i = 0; i < want; ++i) {
		std::vector<double> w;
		if ((int)i < N) { w.push_back(sc.c(i)); for (int j = 0; j < N; ++j) w.push_back(sc.A(i,j)); }
		else for (int j = 0; j < N; ++j) w.push_back((int)i == N ? sc.b(j) : sc.b2(j));
		CHECK(rows[i].size() == w.size(), "row " << i << " has " << rows[i].size() << " numbers instead of " << w.size() << ":\n" << o.str());
		for (size_t j = 0; j < w.size(); ++j) CHECK(close(rows[i][j], w[j]), "row " << i << " shows " << rows[i][j] << " for " << w[j] << ":\n" << o.str());
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C19"); }
