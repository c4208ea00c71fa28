// C26: what the stability-region program writes, against the stability functions.
#include "../run.hpp"
#include <complex>
#include <fcntl.h>
#include <fstream>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

typedef std::complex<ld> cld;

static const int NX = 400, NY = 80;

// ------------------------------------------------------------ running the program

struct Point { double x, y, v; };
struct Limit { double x, v, e; };
struct Output { std::vector<Point> main, embed; std::vector<Limit> limit; std::string bad; };

static std::string dir_of(const std::string &name) { return std::string(getenv("PBT_TMP")) + "/stab_" + name; }

/// Runs the program for one method in a directory of its own, once per check. Files of an
/// earlier run are there already; they have to be replaced.
static void produce(const std::string &name)
{
	std::string d = dir_of(name), lock = d + ".lock", done = d + ".done";
	int fd = open(lock.c_str(), O_CREAT | O_RDWR, 0600);
	flock(fd, LOCK_EX);
	if (access(done.c_str(), F_OK) != 0) {
		mkdir(d.c_str(), 0700);
		for (const char *f : {"_region.dat", "_embedded_region.dat", "_limit.dat"}) {
			std::ofstream old(d + "/stability_" + name + f);
			for (int i = 0; i < 40000; ++i) old << "old " << i << " of an earlier run, and a long one\n";
		}
		std::string exe = std::string(getenv("PBT_TMP")) + "/stability_program";
		pid_t p = fork();
		if (p == 0) {
			if (chdir(d.c_str())) _exit(99);
			int null = open("/dev/null", O_WRONLY);
			dup2(null, 1); dup2(null, 2);
			alarm(300);
			execl(exe.c_str(), "stability_program", name.c_str(), (char *)0);
			_exit(98);
		}
		int st = 0;
		waitpid(p, &st, 0);
		std::ofstream(done) << (WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) << "\n";
	}
	flock(fd, LOCK_UN);
	close(fd);
}

static bool numbers(const std::string &line, std::vector<double> &v)
{
	v.clear();
	const char *p = line.c_str();
	while (*p) {
		char *e;
		double x = strtod(p, &e);
		if (e == p) break;
		v.push_back(x); p = e;
	}
	while (*p == ' ' || *p == '\t' || *p == '\r') ++p;
	return !*p;
}

static std::vector<Point> read_region(const std::string &file, std::string &bad)
{
	std::vector<Point> out;
	std::ifstream in(file);
	if (!in) { bad = "no file " + file; return out; }
	std::string line; std::vector<double> v;
	size_t inrow = 0;
	while (std::getline(in, line)) {
		if (!numbers(line, v) || (v.size() != 0 && v.size() != 3)) { bad = file + ": line '" + line + "'"; return out; }
		if (v.empty()) {
			if (inrow != 0 && inrow != (size_t)NX) { bad = file + ": a row of " + std::to_string(inrow) + " points"; return out; }
			inrow = 0; continue;
		}
		++inrow;
		out.push_back({v[0], v[1], v[2]});
	}
	if (out.size() != (size_t)NX*NY) bad = file + ": " + std::to_string(out.size()) + " points";
	return out;
}

static const Output &output(const std::string &name)
{
	static std::map<std::string, Output> cache;
	auto it = cache.find(name);
	if (it != cache.end()) return it->second;
	produce(name);
	Output &o = cache[name];
	int code = -1;
	std::ifstream(dir_of(name) + ".done") >> code;
	if (code) { o.bad = "exit code " + std::to_string(code); return o; }
	std::string base = dir_of(name) + "/stability_" + name;
	o.main = read_region(base + "_region.dat", o.bad);
	if (o.bad.empty()) o.embed = read_region(base + "_embedded_region.dat", o.bad);
	std::ifstream in(base + "_limit.dat");
	if (!in) o.bad = "no limit file";
	std::string line; std::vector<double> v;
	while (std::getline(in, line)) {
		if (line.empty() || line[0] == '#') continue;
		if (!numbers(line, v) || v.size() != 3) { o.bad = "limit file: line '" + line + "'"; break; }
		o.limit.push_back({v[0], v[1], v[2]});
	}
	return o;
}

// ------------------------------------------------------------ the truth

/// |1 + z (gamma + b'(I - zA)^-1 e)| in long double, and a bound on what double
/// precision, in the coefficients and in the inversion, makes of it.
struct Truth { double value, err; bool pole; };

static Truth truth(double x, double y, const mat &A, const vec &b, double gamma)
{
	const size_t s = b.n_elem;
	cld z(x, y);
	std::vector<std::vector<cld>> M(s, std::vector<cld>(2*s));
	ld normM = 0;
	for (size_t i = 0; i < s; ++i) {
		ld row = 0;
		for (size_t j = 0; j < s; ++j) { M[i][j] = -z*(ld)A(i,j); if (i == j) M[i][j] += 1; row += std::abs(M[i][j]); }
		M[i][s+i] = 1;
		normM = std::max(normM, row);
	}
	for (size_t k = 0; k < s; ++k) {
		size_t p = k;
		for (size_t i = k; i < s; ++i) if (std::abs(M[i][k]) > std::abs(M[p][k])) p = i;
		std::swap(M[p], M[k]);
		if (std::abs(M[k][k]) <= 1e-17L*normM) return {INFINITY, 0, true};
		for (size_t i = 0; i < s; ++i) {
			if (i == k) continue;
			cld f = M[i][k]/M[k][k];
			for (size_t j = k; j < 2*s; ++j) M[i][j] -= f*M[k][j];
		}
	}
	ld normI = 0, bn = 0; cld sum = gamma;
	for (size_t i = 0; i < s; ++i) {
		cld r = 0; ld row = 0;
		for (size_t j = 0; j < s; ++j) { cld e = M[i][s+j]/M[i][i]; r += e; row += std::abs(e); }
		sum += (ld)b(i)*r;
		normI = std::max(normI, row); bn += std::fabs(b(i));
	}
	Truth t;
	t.pole = false;
	t.value = (double)std::abs((ld)1 + z*sum);
	ld eps = 2.3e-16L*s;
	t.err = (double)(eps*std::abs(z)*(bn*normI*std::max((ld)1, normM*normI) + std::fabs(gamma) + 1));
	return t;
}

/// |R| from the definition of one step on y' = lambda y, without inverting anything:
/// det(I - zA + z e b')/det(I - zA).
static double by_determinants(double x, double y, const mat &A, const vec &b)
{
	const size_t s = b.n_elem;
	cld z(x, y), d[2];
	for (int q = 0; q < 2; ++q) {
		std::vector<std::vector<cld>> M(s, std::vector<cld>(s));
		for (size_t i = 0; i < s; ++i)
			for (size_t j = 0; j < s; ++j) {
				M[i][j] = -z*(ld)A(i,j) + (q ? z*(ld)b(j) : cld(0));
				if (i == j) M[i][j] += 1;
			}
		cld det = 1;
		for (size_t k = 0; k < s; ++k) {
			size_t p = k;
			for (size_t i = k; i < s; ++i) if (std::abs(M[i][k]) > std::abs(M[p][k])) p = i;
			if (p != k) { std::swap(M[p], M[k]); det = -det; }
			det *= M[k][k];
			if (M[k][k] == cld(0)) break;
			for (size_t i = k + 1; i < s; ++i) {
				cld f = M[i][k]/M[k][k];
				for (size_t j = k; j < s; ++j) M[i][j] -= f*M[k][j];
			}
		}
		d[q] = det;
	}
	return (double)std::abs(d[1]/d[0]);
}

struct Weights { mat A; vec b; double gamma; };
static bool embedded_weights(const MethodInfo &m, Weights &w)
{
	if (!m.embedded) return false;
	if (!m.implicit) { const RefTableau &T = reference().at(m.code); w = {T.A, T.b2, 0}; return true; }
	auto sc = irk::get_coefficients(m.code);
	w = {sc.A, sc.b2, sc.gamma};
	return true;
}

static bool sharp(const Truth &t) { return t.pole || 20*t.err < 1e-2*t.value; }

static void compare(const char *what, const MethodInfo &m, double x, double y, double got, const Truth &t)
{
	if (t.pole) {
		CHECK(got > 1e10, m.name << " " << what << ": " << got << " at the pole " << x << "+" << y << "i");
		return;
	}
	double tol = 1.5e-5*t.value + 20*t.err + 1e-300;
	CHECK(std::fabs(got - t.value) <= tol, m.name << " " << what << ": |R| = " << got << " at " << x << "+" << y << "i, truth " << t.value << " +- " << tol);
}

static MethodInfo setup(Source &s, Case &c)
{
	MethodInfo m = s.pick(all_methods());
	c.label(m.name);
	c.desc << m.name;
	const Output &o = output(m.name);
	CHECK(o.bad.empty(), m.name << ": " << o.bad);
	return m;
}

static double grid_x(int i) { return -190 + 200.0*i/(NX - 1); }
static double grid_y(int j) { return -20 + 40.0*j/(NY - 1); }

/// Printed with six digits.
static bool printed(double got, double want) { return std::fabs(got - want) <= 1e-5*std::fabs(want) + 1e-9; }

PROP(region, 60000, 2000000,
     "A random point of the grid (rows and columns in the documented order) in the region file of a random method: the modulus of the stability function of the main weights of the independently constructed tableau. Non-trivial: the tolerance is below 1 % of the value.")
{
	MethodInfo m = setup(s, c);
	const RefTableau &T = reference().at(m.code);
	int i = s.chance(1, 2) ? s.below(NX) : NX - 1 - s.below(40), j = s.below(NY);
	const Output &o = output(m.name);
	const Point &p = o.main[(size_t)j*NX + i];
	c.desc << " point " << i << "," << j;
	c.nontrivial = true;
	CHECK(printed(p.x, grid_x(i)) && printed(p.y, grid_y(j)), m.name << ": point " << i << "," << j << " is at " << p.x << "+" << p.y << "i, not " << grid_x(i) << "+" << grid_y(j) << "i");
	Truth t = truth(grid_x(i), grid_y(j), T.A, T.b, 0);
	double d = by_determinants(grid_x(i), grid_y(j), T.A, T.b);
	if (!t.pole && std::fabs(d - t.value) > 1e-6*t.value + 20*t.err) throw Discard();
	compare("region", m, grid_x(i), grid_y(j), p.v, t);
}

PROP(embedded_region, 60000, 2000000,
     "The same for the embedded file and the embedded weights (with the weight of the slope at the start of the step); not-a-number for methods without. Non-trivial: the method has embedded weights and the tolerance is below 1 % of the value.")
{
	MethodInfo m = setup(s, c);
	Weights w;
	bool has = embedded_weights(m, w);
	int i = s.chance(1, 2) ? s.below(NX) : NX - 1 - s.below(40), j = s.below(NY);
	const Point &p = output(m.name).embed[(size_t)j*NX + i];
	c.desc << " point " << i << "," << j;
	CHECK(printed(p.x, grid_x(i)) && printed(p.y, grid_y(j)), m.name << ": point " << i << "," << j << " is at " << p.x << "+" << p.y << "i, not " << grid_x(i) << "+" << grid_y(j) << "i");
	if (!has) { CHECK(std::isnan(p.v), m.name << ": " << p.v << " without embedded weights"); return; }
	Truth t = truth(grid_x(i), grid_y(j), w.A, w.b, w.gamma);
	c.nontrivial = sharp(t);
	compare("embedded region", m, grid_x(i), grid_y(j), p.v, t);
}

PROP(limit, 20000, 100000,
     "A random line of the limit file of a random method: both values, on the real axis; infinity at a pole. Some lines reach below -1000 and some are beyond the origin. Non-trivial: the tolerance is below 1 % of the value.")
{
	MethodInfo m = setup(s, c);
	const RefTableau &T = reference().at(m.code);
	const Output &o = output(m.name);
	CHECK(o.limit.size() >= 10, m.name << ": " << o.limit.size() << " lines in the limit file");
	bool low = false, high = false;
	for (auto &l : o.limit) { low |= l.x <= -1e3; high |= l.x > 0; }
	CHECK(low && high, m.name << ": the limit file covers neither stiff nor unstable values");
	const Limit &l = s.pick(o.limit);
	c.desc << " z=" << l.x;
	Truth t = truth(l.x, 0, T.A, T.b, 0);
	c.nontrivial = sharp(t);
	compare("limit", m, l.x, 0, l.v, t);
	Weights w;
	if (embedded_weights(m, w)) compare("embedded limit", m, l.x, 0, l.e, truth(l.x, 0, w.A, w.b, w.gamma));
	else CHECK(std::isnan(l.e), m.name << ": " << l.e << " without embedded weights");
}

PROP(one_step, 6000, 60000,
     "A random line of the limit file or point of the region: what one step of the integrator multiplies the solution of y' = lambda y (as a real system for complex lambda) by. Non-trivial: the tolerance is below 1 % of the value.")
{
	MethodInfo m = setup(s, c);
	const Output &o = output(m.name);
	double x, y, v;
	int i = NX - 1 - s.below(s.flag() ? 30 : NX), j = s.below(NY);
	x = grid_x(i); y = grid_y(j); v = o.main[(size_t)j*NX + i].v;
	c.desc << " z=" << x << "+" << y << "i";
	Ode od;
	double h = s.logreal(1e-2, 10);
	mat L = {{x/h, -y/h}, {y/h, x/h}};
	od.f = [=](double, const vec &u) { return vec(L*u); };
	od.j = [=](double, const vec &) { return L; };
	Cfg g;
	g.m = m; g.t0 = s.real(-2, 2); g.t1 = g.t0 + h; g.dt = h; g.adaptive = false;
	double a = s.real(0, 2*M_PI);
	g.y0 = {std::cos(a), std::sin(a)};
	g.nopt = tight_newton(1e-9);
	Run r = run(od, g);
	if (r.status != SUCCESS) throw Discard();
	// The last step can be split by the rounding of t0 + h.
	CHECK(r.y.size() >= 2, m.name << ": no step");
	Truth t = truth(x, y, reference().at(m.code).A, reference().at(m.code).b, 0);
	double got = arma::norm(r.y[1], 2)*1.0;
	if (std::fabs(r.t[1] - r.t[0] - h) > 1e-9*h) throw Discard();
	double tol = 2e-5*v + 40*t.err + 1e-7*(1 + std::abs(std::complex<double>(x, y)));
	c.nontrivial = tol < 1e-2*v;
	CHECK(std::fabs(got - v) <= tol, m.name << ": the step multiplies by " << got << ", the file says " << v << " at " << x << "+" << y << "i (h=" << h << ", tolerance " << tol << ")");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C26"); }
