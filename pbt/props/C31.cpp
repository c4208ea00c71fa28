// C31: what the library prints about a run is what happened.
#include "../multi.hpp"
#include "../roots.hpp"
#include <iomanip>
using namespace pbt;

namespace {

/// Everything printed to either standard stream between construction and text().
struct Capture {
	std::ostringstream out, err;
	std::streambuf *o, *e;
	std::streamsize po, pe;
	std::ios::fmtflags fo, fe;
	bool done = false;
	Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())), po(std::cout.precision()), pe(std::cerr.precision()),
	            fo(std::cout.flags()), fe(std::cerr.flags()) {}
	void stop()
	{
		if (done) return;
		done = true;
		std::cout.rdbuf(o); std::cerr.rdbuf(e);
		formats = std::cout.precision() == po && std::cerr.precision() == pe && std::cout.flags() == fo && std::cerr.flags() == fe;
		std::cout.precision(po); std::cerr.precision(pe); std::cout.flags(fo); std::cerr.flags(fe);
	}
	~Capture() { stop(); }
	bool formats = true;
	std::string text() { stop(); return out.str() + err.str(); }
};

std::vector<std::string> lines(const std::string &t)
{
	std::vector<std::string> v;
	std::istringstream in(t);
	for (std::string l; std::getline(in, l);) v.push_back(l);
	return v;
}
int count(const std::string &t, const std::string &what)
{
	int n = 0;
	for (size_t p = t.find(what); p != std::string::npos; p = t.find(what, p + what.size())) ++n;
	return n;
}
/// All words of a line that are numbers.
std::vector<double> numbers(std::string l)
{
	for (char &ch : l) if (ch == ',' || ch == '[' || ch == ']' || ch == '(' || ch == ')' || ch == '/') ch = ' ';
	std::istringstream in(l);
	std::vector<double> v;
	for (std::string w; in >> w;) { char *e; double x = std::strtod(w.c_str(), &e); if (*e == 0 && e != w.c_str()) v.push_back(x); }
	return v;
}
/// A printed number, of which six digits are shown.
bool shown(double a, double b, double more = 0) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 6e-6*std::fabs(b) + more; }

void interval_line(const std::string &t, const std::string &name, double t0, double t1)
{
	size_t p = t.find("Integrating over interval [");
	CHECK(p != std::string::npos, name << ": the interval is not announced");
	std::vector<double> v = numbers(t.substr(p, t.find('\n', p) - p - 3));
	CHECK(v.size() == 2 && shown(v[0], t0) && shown(v[1], t1), name << ": announces '" << t.substr(p, t.find('\n', p) - p) << "' for [" << t0 << ", " << t1 << "]");
}
void reduced_line(const std::string &t, const std::string &name, double dt, double t0, double t1, bool want)
{
	size_t p = t.find("too large for interval");
	CHECK((p != std::string::npos) == want, name << ": a first step of " << dt << " in [" << t0 << ", " << t1 << "] is " << (want ? "not " : "") << "announced as too large");
	if (!want) return;
	size_t a = t.rfind('\n', p); a = a == std::string::npos ? 0 : a + 1;
	std::vector<double> v = numbers(t.substr(a, t.find('\n', p) - a));
	CHECK(v.size() == 2 && shown(v[0], dt) && shown(v[1], t1 - t0), name << ": '" << t.substr(a, t.find('\n', p) - a) << "' for " << dt << " and " << t1 - t0);
}

}

PROP(progress, 20000, 600000,
     "Integrations with any method and log interval (0 to 7), step limits and stage solvers that fail now and then, with both standard streams captured: announcements match the run; with "
     "a log interval k, one line per attempt of every k-th step, in order, whose step number, time, size and error are those of the result (the last line of each step is the accepted one, "
     "those before it were rejected); none without. Non-trivial: at least 3 progress lines.")
{
	Problem P = any_problem(s, c, -1, false);
	Cfg &g = P.g;
	static const int intervals[] = {0, 1, 1, 2, 3, 7, -1};
	g.log_interval = intervals[s.below(7)];
	if (s.chance(1, 4)) g.max_steps = s.below(8);
	if (s.chance(1, 8)) g.dt = (g.t1 - g.t0)*s.real(1.01, 5);
	bool wanted = g.adaptive;
	if (!g.m.embedded && s.chance(1, 3)) { g.adaptive = true; }
	if (g.m.implicit && s.chance(1, 5)) {
		g.nopt.maxit = 3 + s.below(4);
		g.dt *= s.logreal(1, 30);
		if (wanted && g.max_steps < 0) g.max_steps = 100;
	}
	const std::string &name = g.m.name;
	Ode o = P.sys.ode();
	Run r;
	Capture cap;
	r = run(o, g);
	std::string t = cap.text();
	CHECK(cap.formats, name << ": the format of a standard stream was changed");
	c.desc << " log interval " << g.log_interval << " max_steps " << g.max_steps;
	std::string real = g.m.implicit ? irk::method_to_name(g.m.code) : erk::method_to_name(g.m.code);
	interval_line(t, name, g.t0, g.t1);
	CHECK(count(t, "Integrating over interval") == 1, name << ": announced " << count(t, "Integrating over interval") << " times");
	size_t p = t.find("Method = ");
	CHECK(p != std::string::npos && t.substr(p + 9, t.find('\n', p) - p - 9) == real, name << ": announced as '"
	      << (p == std::string::npos ? "" : t.substr(p, t.find('\n', p) - p)) << "'");
	double dt = g.max_dt > 0 ? std::min(g.dt, g.max_dt) : g.dt;
	reduced_line(t, name, dt, g.t0, g.t1, g.t0 + dt > g.t1);
	bool disabled = g.adaptive && !g.m.embedded;
	if (disabled) c.label("not embedded");
	CHECK((count(t, "Cannot have adaptive") > 0) == disabled, name << ": adaptive step size " << (g.adaptive ? "" : "not ") << "asked for, warned " << count(t, "Cannot have adaptive") << " times");
	bool limit = r.status == ERROR_MAX_STEPS_EXCEEDED, failed = r.status == GENERAL_ERROR;
	CHECK((count(t, "Maximum number of attempts exceeded") > 0) == limit, name << ": status " << r.status << ", but the step limit is " << (limit ? "not " : "") << "announced");
	CHECK((count(t, "failed for constant time step") > 0) == failed, name << ": status " << r.status << ", but a failed stage solve is " << (failed ? "not " : "") << "announced");
	if (limit) c.label("limit");
	if (failed) c.label("failed");
	// Progress.
	int header = 0;
	std::vector<std::vector<double>> v;
	for (auto &l : lines(t)) {
		size_t q = l.find("Rehuel:");
		if (q == std::string::npos) continue;
		std::string rest = l.substr(q + 7);
		std::istringstream in(rest);
		std::string a, b, d;
		in >> a >> b >> d;
		if (a == "step" && b == "t" && d == "dt") { CHECK(v.empty(), name << ": header after the first line"); ++header; continue; }
		std::vector<double> w = numbers(rest);
		std::istringstream again(rest);
		size_t words = 0;
		for (std::string x; again >> x;) ++words;
		if (words && w.size() == words) v.push_back(w);
	}
	size_t k = g.log_interval > 0 ? g.log_interval : 0, N = r.t.size() - 1;
	CHECK(header == (k > 0), name << ": " << header << " headers with log interval " << g.log_interval);
	c.nontrivial = v.size() >= 3;
	if (!k) { CHECK(v.empty(), name << ": " << v.size() << " progress lines were not asked for"); return; }
	size_t tried = r.attempt - r.reject_newton - (failed ? 1 : 0);
	if (k == 1) CHECK(v.size() == tried, name << ": " << v.size() << " progress lines for " << tried << " attempts");
	CHECK(v.size() <= tried, name << ": " << v.size() << " progress lines for " << tried << " attempts");
	size_t at = 0, rejected = 0;
	for (size_t n = 0; n < N; n += k) {
		size_t from = at;
		while (at < v.size() && v[at][0] == (double)n) ++at;
		CHECK(at > from, name << ": no progress line for step " << n << " of " << N << ", line " << at << " of " << v.size() << " is for step " << (at < v.size() ? v[at][0] : -1));
		double h = r.t[n+1] - r.t[n];
		for (size_t i = from; i < at; ++i) {
			CHECK(v[i].size() == (g.m.implicit ? 5u : 4u), name << ": " << v[i].size() << " numbers in a progress line");
			CHECK(shown(v[i][1], r.t[n]), name << ": progress line for step " << n << " shows t = " << v[i][1] << " instead of " << r.t[n]);
			if (i + 1 < at) {
				++rejected;
				CHECK(g.adaptive && v[i][3] >= 1 - 1e-5 && v[i][2] > h*(1 - 1e-5) - time_fuzz(r.t[n], 0), name << ": progress line of a rejected attempt at step " << n << " shows size "
				      << v[i][2] << ", error " << v[i][3] << ", while " << h << " was accepted");
			}else{
				CHECK(shown(v[i][2], h, time_fuzz(r.t[n], 0)), name << ": progress line for step " << n << " shows size " << v[i][2] << " instead of " << h);
				CHECK(shown(v[i][3], r.err[n+1]), name << ": progress line for step " << n << " shows error " << v[i][3] << " instead of " << r.err[n+1]);
			}
			if (g.m.implicit) CHECK(v[i][4] >= 1 && v[i][4] == std::floor(v[i][4]), name << ": " << v[i][4] << " iterations");
		}
	}
	CHECK(at == v.size(), name << ": progress line " << at << " of " << v.size() << " is for step " << v[at][0] << " of " << N);
	if (k == 1) CHECK(rejected == r.reject_err, name << ": progress lines of " << rejected << " rejected attempts of " << r.reject_err);
	CHECK(rejected <= r.reject_err, name << ": progress lines of " << rejected << " rejected attempts of " << r.reject_err);
	if (rejected) c.label("rejected");
}

PROP(silence, 12000, 300000,
     "The same run with a log interval, capturing or discarding what it prints, gives bitwise the same result, and a progress line never depends on what is stored. Non-trivial: a line was "
     "printed.")
{
	Problem P = any_problem(s, c, -1, false);
	if (s.chance(1, 4)) P.g.max_steps = s.below(8);
	Ode o = P.sys.ode(), q = P.sys.ode(), z = P.sys.ode();
	P.g.log_interval = 0;
	Capture a;
	Run r0 = run(o, P.g);
	a.stop();
	P.g.log_interval = 1 + s.below(3);
	Capture b;
	Run r1 = run(q, P.g);
	std::string t1 = b.text();
	std::string d = differ(r0, r1);
	CHECK(d.empty(), P.g.m.name << ": differs when progress is shown: " << d);
	// Other storage, same lines.
	std::ostringstream file;
	P.g.interval = 1 + s.below(4);
	static const size_t modes[] = {output_options::NO_OUTPUT, output_options::STORE_IN_VECTORS, output_options::WRITE_TO_FILE, output_options::STORE_IN_VECTORS | output_options::WRITE_TO_FILE};
	P.g.mode = modes[s.below(4)];
	P.g.stream = &file;
	Capture e;
	run(z, P.g);
	std::string t2 = e.text();
	CHECK(t1 == t2, P.g.m.name << ": prints " << t2.size() << " characters instead of " << t1.size() << " with other output options");
	c.nontrivial = lines(t1).size() > 4;
	std::string ft = file.str();
	CHECK(ft.find("Rehuel") == std::string::npos, P.g.m.name << ": messages in the output file");
}

PROP(multistep_messages, 6000, 200000,
     "Multistep runs, also with first steps beyond the end and orders that do not exist: the first announcements are those of the method, its interval and its step; messages about orders "
     "exactly for those that do not exist. Non-trivial: a run.")
{
	bool bdf = s.flag();
	int order = s.range(-1, 8);
	bool valid = order >= 1 && order <= (bdf ? 6 : 5);
	SmoothSystem S = rand_system(s, 1 + s.below(3), 1.0);
	S.A -= 2.5*arma::eye(S.n, S.n);
	double t0 = s.real(-5, 5), dt = s.logreal(1e-3, 0.05), T = s.chance(1, 5) ? dt*s.real(0.1, 0.99) : dt*(8 + s.below(20));
	vec y0 = rand_vec(s, S.n, 2.0);
	Ode o = S.ode();
	multistep::solver_options so;
	so.order = order;
	c.desc << (bdf ? "BDF" : "AB") << order << " [" << t0 << ", " << t0 + T << "] dt=" << dt;
	c.nontrivial = valid;
	Capture cap;
	basic_output r;
	if (bdf) r = multistep::bdf(o, t0, t0 + T, y0, so, dt);
	else r = multistep::adams_bashforth(o, t0, t0 + T, y0, so, dt);
	std::string t = cap.text();
	CHECK(cap.formats, "the format of a standard stream was changed");
	std::string e = cap.err.str();
	bool said = e.find("order") != std::string::npos && (e.find("should be") != std::string::npos || e.find("do not exist") != std::string::npos || e.find("not make sense") != std::string::npos);
	CHECK(said == !valid && (r.status != SUCCESS) == !valid, "order " << order << ", status " << r.status << ": a message about the order is " << (said ? "" : "not ") << "printed");
	if (!valid) return;
	interval_line(e, "multistep", t0, t0 + T);
	std::string want = bdf ? "Method = BDF-" + std::to_string(order) : std::string("Method = Adams-Bashforth");
	size_t p = e.find("Method = ");
	CHECK(p != std::string::npos && e.substr(p, e.find('\n', p) - p) == want, "announced as '" << e.substr(p, e.find('\n', p) - p) << "' instead of '" << want << "'");
	reduced_line(e.substr(0, p), "multistep", dt, t0, t0 + T, t0 + dt > t0 + T);
	if (t0 + dt > t0 + T) c.label("reduced");
}

PROP(iterations, 12000, 400000,
     "Newton's and Broyden's method told not to be quiet: one line per iteration whose number, residual and iterate are those of the iteration, the last with the residual found; results "
     "are bitwise those of the quiet run, which prints nothing. Non-trivial: at least 3 iterations.")
{
	int n = 1 + s.below(4);
	RootProblem R;
	switch (s.below(4)) {
	case 0: R = mild_system(s, n, s.real(0, 0.5), s.flag()); break;
	case 1: R = quadratic_system(s, n, s.real(0, 0.3)); break;
	case 2: R = linear_system(s, n); break;
	default: R = wild_system(s);
	}
	newton::options no;
	no.tol = s.logreal(1e-10, 1e-4); no.dx_delta = s.logreal(1e-11, 1e-4); no.maxit = 2 + s.below(60);
	no.refresh_jac = s.flag(); no.limit_step = s.chance(1, 4); no.precondition = s.flag(); no.time_internals = s.flag();
	if (s.chance(1, 4)) no.max_step = s.logreal(0.05, 2);
	bool broyden = s.chance(1, 3);
	vec x0 = rand_vec(s, R.n, 1.5);
	c.desc << (broyden ? "Broyden " : "Newton ") << R.what << " n=" << R.n << " maxit=" << no.maxit << " x0=" << show(x0);
	newton::status sa, sb;
	System A = R.S, B = R.S;
	vec xa, xb;
	Capture quiet;
	if (broyden) xa = newton::broyden_iterate(A, x0, no, sa, true); else xa = newton::newton_iterate(A, x0, no, sa, true);
	std::string tq = quiet.text();
	Capture loud;
	if (broyden) xb = newton::broyden_iterate(B, x0, no, sb, false); else xb = newton::newton_iterate(B, x0, no, sb, false);
	std::string tl = loud.text();
	CHECK(loud.formats && quiet.formats, "the format of a standard stream was changed");
	CHECK(tq.empty() || count(tq, "generic error") + count(tq, "system is singular") + count(tq, "solve()") > 0, "prints '" << tq << "' when told to be quiet");
	CHECK(same_vec(xa, xb) && sa.conv_status == sb.conv_status && sa.iters == sb.iters && (sa.res == sb.res || (std::isnan(sa.res) && std::isnan(sb.res))) && A.nf == B.nf && A.nj == B.nj,
	      "differs when it is told not to be quiet: " << show(xa) << " and " << show(xb) << ", status " << sa.conv_status << " and " << sb.conv_status << ", iterations " << sa.iters << " and " << sb.iters);
	std::string tag = broyden ? "Broyden:" : "Newton:";
	std::vector<std::vector<double>> v;
	std::vector<std::vector<double>> xs;
	for (auto &l : lines(tl)) {
		size_t p = l.find(tag), q = l.find("x : (");
		if (p != std::string::npos) v.push_back(numbers(l.substr(p + tag.size())));
		if (q != std::string::npos) {
			std::string rest = l.substr(q + 5);
			for (char &ch : rest) if (ch == ')') ch = ' ';
			std::istringstream in(rest);
			std::vector<double> x;
			for (std::string w; in >> w;) x.push_back(std::strtod(w.c_str(), nullptr));
			xs.push_back(x);
		}
	}
	c.nontrivial = v.size() >= 3;
	CHECK(v.size() == xs.size(), v.size() << " lines of iterations, " << xs.size() << " iterates");
	bool complete = sb.conv_status != newton::GENERIC_ERROR;
	// Newton's lines start with iteration 0 and end with the last one, Broyden's leave out the last.
	size_t want = broyden ? sb.iters - 1 : sb.iters + 1;
	if (complete) CHECK(v.size() == want, v.size() << " lines for " << sb.iters << " iterations");
	size_t first = broyden ? 1 : 0;
	for (size_t i = 0; i < v.size(); ++i) {
		CHECK(v[i].size() >= 3, "only " << v[i].size() << " numbers in a line");
		CHECK(v[i][0] == (double)(first + i) && v[i][1] == (double)no.maxit, "iteration " << first + i << " of " << no.maxit << " is shown as " << v[i][0] << " of " << v[i][1]);
		CHECK((int)xs[i].size() == R.n, xs[i].size() << " components instead of " << R.n);
		// The iterate is one where the function was evaluated, and its residual is shown.
		if (i < B.at.size()) {
			vec f = R.S.f(B.at[i]);
			double res2 = dot(f, f);
			if (std::isfinite(res2)) CHECK(shown(v[i][2], res2, 1e-300), "iteration " << first + i << " shows residual " << v[i][2] << " instead of " << res2);
			for (int j = 0; j < R.n; ++j) CHECK(shown(xs[i][j], B.at[i](j)), "iteration " << first + i << " shows iterate " << xs[i][j] << " instead of " << B.at[i](j));
		}
	}
}

PROP(texts, 20000, 400000,
     "Names of statuses, and numbers in columns: every status has a name of its own, other codes a common one; a number in a column of any width that holds it has exactly that width and "
     "reads back to 7 digits, and one that does not fit is complete. Non-trivial: the number is not 0.")
{
	static const int codes[] = {newton::SUCCESS, newton::INCREMENT_DIVERGE, newton::ITERATION_ERROR_TOO_LARGE, newton::MAXIT_EXCEEDED, newton::GENERIC_ERROR};
	static const char *names[] = {"SUCCESS", "INCREMENT_DIVERGE", "ITERATION_ERROR_TOO_LARGE", "MAXIT_EXCEEDED", "GENERIC_ERROR"};
	int code = s.flag() ? codes[s.below(5)] : s.range(-100, 100);
	std::string name = newton::status_message(code);
	int k = -1;
	for (int i = 0; i < 5; ++i) if (codes[i] == code) k = i;
	if (k >= 0) CHECK(name == names[k], "status " << code << " is called " << name << " instead of " << names[k]);
	else for (auto n : names) CHECK(name != n && !name.empty(), "status " << code << " does not exist but is called " << name);
	double x = (s.flag() ? 1 : -1)*s.logreal(1e-300, 1e300);
	if (s.chance(1, 10)) x = 0;
	int w = s.below(40);
	c.nontrivial = x != 0;
	c.desc << "status " << code << ", " << x << " in " << w << " columns";
	Capture cap;
	std::string t = newton::to_fixed_w_string(x, w);
	cap.stop();
	size_t need = 12 + (x < 0) + (std::fabs(x) >= 1e100 || (x != 0 && std::fabs(x) < 1e-99) ? 1 : 0);
	if ((size_t)w >= need + 1) CHECK(t.size() == (size_t)w, "'" << t << "' has width " << t.size() << " instead of " << w);
	CHECK(t.size() >= (size_t)w, "'" << t << "' has width " << t.size() << " instead of " << w);
	char *e;
	double y = std::strtod(t.c_str(), &e);
	while (*e == ' ') ++e;
	CHECK(*e == 0 && (x == y || std::fabs(x - y) <= 6e-7*std::fabs(x)), "'" << t << "' for " << x);
}

PROP(tableau, 6000, 100000,
     "Coefficient sets of the library and random ones (1 to 8 stages, with and without embedded weights), written to a stream with a format of its own: the name, a row of node and stage "
     "weights per stage, a row of weights, and one of embedded weights if there are any, in six digits; the format is left alone. Non-trivial: more than one stage.")
{
	irk::solver_coeffs sc;
	std::string nm = "some_name";
	if (s.flag()) { sc = irk::get_coefficients(s.pick(irk_methods()).code); nm = sc.name; }
	else {
		int n = 1 + s.below(8);
		sc.name = nm.c_str();
		double size = s.logreal(1e-6, 1e6);
		sc.A = rand_mat(s, n, n, size); sc.b = rand_vec(s, n, size); sc.c = rand_vec(s, n, 2.0);
		if (s.flag()) sc.b2 = rand_vec(s, n, size);
	}
	std::ostringstream o;
	o.precision(s.range(1, 17));
	auto p = o.precision(); auto f = o.flags();
	std::ostream &back = o << sc;
	CHECK(&back == &o, "does not return the stream");
	CHECK(o.precision() == p && o.flags() == f, "precision " << p << " is changed to " << o.precision());
	size_t n = sc.b.n_elem;
	c.nontrivial = n > 1;
	c.desc << nm << " with " << n << " stages\n" << o.str();
	std::vector<std::string> l = lines(o.str());
	CHECK(!l.empty() && l[0] == nm, "starts with '" << (l.empty() ? "" : l[0]) << "' instead of " << nm);
	std::vector<std::vector<double>> rows;
	for (size_t i = 1; i < l.size(); ++i) {
		if (l[i].find("---") != std::string::npos) continue;
		size_t bar = l[i].find('|');
		CHECK(bar != std::string::npos, "no column in '" << l[i] << "'");
		std::vector<double> a = numbers(l[i].substr(0, bar)), b = numbers(l[i].substr(bar + 1));
		CHECK(a.size() == (rows.size() < n ? 1u : 0u), "'" << l[i] << "' has " << a.size() << " nodes");
		CHECK(b.size() == n, "'" << l[i] << "' has " << b.size() << " weights instead of " << n);
		if (rows.size() < n) CHECK(shown(a[0], sc.c(rows.size())), "node " << rows.size() << " is shown as " << a[0] << " instead of " << sc.c(rows.size()));
		rows.push_back(b);
	}
	CHECK(rows.size() == n + 1 + (sc.b2.n_elem > 0), rows.size() << " rows for " << n << " stages" << (sc.b2.n_elem ? " and embedded weights" : ""));
	for (size_t i = 0; i < rows.size(); ++i) for (size_t j = 0; j < n; ++j) {
		double want = i < n ? sc.A(i, j) : i == n ? sc.b(j) : sc.b2(j);
		CHECK(shown(rows[i][j], want), "row " << i << ", column " << j << " shows " << rows[i][j] << " instead of " << want);
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C31"); }
