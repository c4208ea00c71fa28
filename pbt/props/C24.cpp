// C24: timers and elapsed times, under a clock that the check controls.
#include "../run.hpp"
#include <memory>
#include <sys/syscall.h>
#include <sys/time.h>
using namespace pbt;

// ------------------------------------------------------------ the clock

static bool faking = false;
static long long now_us = 0;

extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
	if (!faking) return syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec = now_us/1000000; ts->tv_nsec = (now_us%1000000)*1000;
	return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	if (faking) { tv->tv_sec = now_us/1000000; tv->tv_usec = now_us%1000000; return 0; }
	struct timespec ts;
	int r = syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000;
	return r;
}
struct Fake { Fake(long long us) { now_us = us; faking = true; } ~Fake() { faking = false; } };

static long long rand_start(Source &s)
{
	switch (s.below(4)) {
	case 0: return 1000000LL*s.range(1, 100) + s.below(1000000);
	case 1: return 1000000LL*s.range(1, 100) + 999990 + s.below(10);  // just before a full second
	case 2: return 1000000LL*s.range(1000000000, 2000000000) + s.below(1000000);
	default: return 1000000LL*s.range(1, 100);
	}
}
static long long rand_advance(Source &s)
{
	switch (s.below(6)) {
	case 0: return 0;
	case 1: return s.below(1000);
	case 2: return s.below(2000000);
	case 3: return 1000000LL*s.below(100);
	case 4: return 1000000LL*s.below(100000) + s.below(1000000);
	default: return s.below(100)*1000;
	}
}

static bool near(double a, double b, double rel = 1e-9) { return std::fabs(a - b) <= rel*std::fabs(b) + 1e-6*rel; }

/// Checks a line of output: message, milliseconds, seconds, postfix.
static void check_line(std::string line, const std::string &msg, const std::string &post, double ms)
{
	std::string all = line;
	CHECK(!line.empty() && line.back() == '\n', "output '" << all << "' is not a line");
	line.pop_back();
	CHECK(line.find('\n') == std::string::npos, "output is more than a line: '" << all << "'");
	CHECK(line.compare(0, msg.size(), msg) == 0, "output '" << all << "' does not start with '" << msg << "'");
	line.erase(0, msg.size());
	CHECK(line.size() >= post.size() && line.compare(line.size() - post.size(), post.size(), post) == 0, "output '" << all << "' does not end with '" << post << "'");
	line.erase(line.size() - post.size());
	std::vector<double> v; std::string words;
	for (size_t k = 0; k < line.size();) {
		char c = line[k], d = k + 1 < line.size() ? line[k+1] : ' ';
		if (isdigit(c) || (c == '-' && isdigit(d))) { char *e; v.push_back(std::strtod(line.c_str() + k, &e)); k = e - line.c_str(); words += '#'; }
		else { words += c; ++k; }
	}
	CHECK(v.size() == 2, "output '" << all << "' has " << v.size() << " numbers");
	CHECK(near(v[0], ms, 1e-4) && near(v[1], ms*1e-3, 1e-4), "output '" << all << "' after " << ms << " ms");
	size_t a = words.find('#'), b = words.find('#', a + 1);
	CHECK(words.find("ms", a) != std::string::npos && words.find("ms", a) < b && words.find('s', b) != std::string::npos, "output '" << all << "' has no units");
}

PROP(timers, 40000, 1500000,
     "Sequences of up to 30 operations on up to 3 timers (made with and without output, restarted, read with no, one or two messages, output enabled and disabled, start "
     "times stored and read against) while the clock moves on by 0 to 10^5 seconds or (rarely) back: every reading and line of output against a model. Non-trivial: "
     "at least 2 readings of a timer across a second boundary.")
{
	struct T { std::unique_ptr<my_timer> t; std::unique_ptr<std::ostringstream> a, b; std::ostringstream *out = nullptr; long long tic = 0; };
	std::vector<T> ts;
	std::vector<std::pair<timeval, long long>> tics;
	Fake fake(rand_start(s));
	int N = 1 + s.below(30), readings = 0;
	static const std::vector<std::string> text = {"", "msg", "Solving with X", "  spaced ", "done"};
	for (int k = 0; k < N; ++k) {
		now_us += rand_advance(s);
		if (s.chance(1, 40)) now_us -= std::min(now_us - 1000000, (long long)s.below(3000000));
		if (ts.empty() || (ts.size() < 3 && s.chance(1, 10))) {
			T t; t.a.reset(new std::ostringstream); t.b.reset(new std::ostringstream);
			if (s.flag()) { t.t.reset(new my_timer(*t.a)); t.out = t.a.get(); }
			else t.t.reset(new my_timer());
			t.tic = now_us;
			c.desc << "new" << ts.size() << (t.out ? "(out) " : " ");
			ts.push_back(std::move(t));
			continue;
		}
		size_t w = s.below(ts.size());
		T &t = ts[w];
		double want = (now_us - t.tic)/1000.0;
		std::string got, other, expect; bool line = false; std::string msg, post;
		t.a->str(""); t.b->str("");
		switch (s.below(9)) {
		case 0: t.t->tic(); t.tic = now_us; c.desc << "tic" << w << " "; break;
		case 1: c.desc << "enable" << w << " "; t.out = s.flag() ? t.a.get() : t.b.get(); t.t->enable_output(*t.out); break;
		case 2: c.desc << "disable" << w << " "; t.out = nullptr; t.t->disable_output(); break;
		case 3: { c.desc << "get_tic" << w << " "; timeval v = t.t->get_tic();
			CHECK((long long)v.tv_sec*1000000 + v.tv_usec == t.tic, "get_tic is " << v.tv_sec << "." << v.tv_usec << " instead of " << t.tic << " us");
			tics.push_back({v, t.tic}); break; }
		case 4: if (tics.empty()) break; {
			auto p = s.pick(tics); double e = (now_us - p.second)/1000.0, g = t.t->get_elapsed(p.first);
			c.desc << "elapsed" << w << " ";
			CHECK(near(g, e), "elapsed since a stored start: " << g << " instead of " << e << " ms"); ++readings; break; }
		default: {
			msg = s.pick(text); post = s.pick(text);
			double g;
			switch (s.below(3)) { case 0: g = t.t->toc(); msg = post = ""; break; case 1: g = t.t->toc(msg); post = ""; break; default: g = t.t->toc(msg, post); }
			c.desc << "toc" << w << "=" << g << " ";
			CHECK(near(g, want), "toc is " << g << " instead of " << want << " ms");
			if (now_us/1000000 != t.tic/1000000) ++readings;
			line = true; }
		}
		for (auto *o : {t.a.get(), t.b.get()}) {
			if (line && o == t.out) check_line(o->str(), msg, post, want);
			else CHECK(o->str().empty(), "unexpected output '" << o->str() << "'");
		}
	}
	c.nontrivial = readings >= 2;
}

PROP(integrations, 12000, 300000,
     "Integrations with any method, of right-hand sides that take a random time per call (clock moves by up to some seconds), any output and timing options, and with time passing "
     "before and after: the elapsed time reported is that of all calls. Non-trivial: at least 10 calls and some second passed.")
{
	Problem P = any_problem(s, c);
	if (s.chance(1, 3)) P.g.max_steps = s.below(5);
	P.g.timings = s.flag(); P.g.log_interval = s.below(3);
	long long per = 1 + rand_advance(s)%3000000, perj = rand_advance(s)%3000000, spent = 0;
	Ode o = P.sys.ode(), q = o;
	q.f = [&](double t, const vec &y) { now_us += per; spent += per; return o.f(t, y); };
	q.j = [&](double t, const vec &y) { now_us += perj; spent += perj; return o.j(t, y); };
	Run r;
	{ Fake fake(rand_start(s)); r = run(q, P.g); }
	double want = spent/1000.0;
	c.desc << " per call " << per << " us, per Jacobian " << perj << " us";
	c.nontrivial = q.nf > 10 && spent > 1000000;
	CHECK(near(r.elapsed, want, 1e-9), P.g.m.name << ": reports " << r.elapsed << " ms, took " << want << " ms");
	// The clock changes nothing else.
	Ode o2 = P.sys.ode();
	Run z = run(o2, P.g);
	std::string d = differ(r, z);
	CHECK(d.empty(), P.g.m.name << ": differs with the clock: " << d);
}

PROP(breakdown, 30000, 800000,
     "The printed timing breakdown for random timings (6 or more entries, totals from 10 us to 10^6 s, often near a second): unit as announced, every entry scaled to it, "
     "percentages of the total, total the sum. Non-trivial: at least 3 entries are not zero.")
{
	int n = 6;
	std::vector<double> t(n);
	double total = s.chance(1, 4) ? s.real(990, 1010) : s.logreal(1e-2, 1e9), sum = 0;
	for (double &x : t) { x = s.chance(1, 5) ? 0 : s.unit() + 1e-3; sum += x; }
	if (sum == 0) throw Discard();
	int nz = 0; double tot = 0;
	for (double &x : t) { x *= total/sum; tot += x; if (x > 0) ++nz; }
	if (std::fabs(tot - 1000) < 1e-6) throw Discard();
	c.nontrivial = nz >= 3;
	c.desc << "timings"; for (double x : t) c.desc << " " << x;
	std::ostringstream o;
	irk::print_timing_breakdown(t, o, "NAME");
	std::istringstream in(o.str());
	std::string line;
	std::getline(in, line);
	CHECK(line.find("NAME") != std::string::npos, "no method name in '" << line << "'");
	size_t par = line.find('(');
	CHECK(par != std::string::npos, "no unit in '" << line << "'");
	std::string u = line.substr(par + 1, line.find('|', par) - par - 1);
	u.erase(std::remove(u.begin(), u.end(), ' '), u.end());
	CHECK(u == "ms" || u == "s", "unit '" << u << "' in '" << line << "'");
	c.label(u);
	CHECK((u == "s") == (tot > 1000), "unit " << u << " for " << tot << " ms");
	double sc = u == "s" ? 1e-3 : 1;
	std::vector<double> want = {tot}; want.insert(want.end(), t.begin(), t.end());
	for (size_t k = 0; k < want.size(); ++k) {
		CHECK(bool(std::getline(in, line)), "only " << k << " lines");
		size_t a = line.find(':'), b = line.find('|');
		CHECK(a != std::string::npos && b != std::string::npos, "line '" << line << "'");
		double v = std::stod(line.substr(a + 1)), p = std::stod(line.substr(b + 1));
		CHECK(near(v, want[k]*sc, 6e-3), "line " << k << ", '" << line << "', shows " << v << " for " << want[k]*sc << " " << u);
		CHECK(std::fabs(p - 100*want[k]/tot) <= 6e-3*100*want[k]/tot + 1e-9, "line " << k << ", '" << line << "', shows " << p << " percent for " << 100*want[k]/tot);
	}
	CHECK(!std::getline(in, line), "another line '" << line << "'");
}

PROP(breakdown_of_integration, 3000, 60000,
     "The breakdown that an implicit integration prints when asked to time itself, under the controlled clock, with stage solvers that fail now and then: all time was spent in calls of "
     "the right-hand side and Jacobi matrix, so the total is the elapsed time, and that is the sum of the parts. Not printed otherwise; the stream's format is left alone. "
     "Non-trivial: printed.")
{
	Problem P = any_problem(s, c, 1);
	P.g.timings = s.chance(5, 6);
	P.g.mode = output_options::STORE_IN_VECTORS;
	if (s.chance(1, 3)) {
		P.g.nopt.maxit = 3 + s.below(4);
		P.g.nopt.refresh_jac = 0;
		P.g.max_steps = s.below(20);
		P.g.dt *= s.logreal(1, 30);
	}
	if (P.g.adaptive && P.g.max_steps < 0) P.g.max_steps = 200;
	long long per = 1 + rand_advance(s)%3000000, perj = rand_advance(s)%3000000;
	Ode o = P.sys.ode(), q = o;
	q.f = [&](double t, const vec &y) { now_us += per; return o.f(t, y); };
	q.j = [&](double t, const vec &y) { now_us += perj; return o.j(t, y); };
	std::ostringstream err;
	Run r;
	std::streamsize prec = 3 + s.below(10), prec2;
	auto flags = std::cerr.flags(), flags2 = flags;
	{
		Fake fake(rand_start(s));
		auto *old = std::cerr.rdbuf(err.rdbuf());
		auto p = std::cerr.precision(prec);
		try { r = run(q, P.g); } catch (...) { std::cerr.rdbuf(old); std::cerr.precision(p); throw; }
		prec2 = std::cerr.precision(p);
		flags2 = std::cerr.flags(flags);
		std::cerr.rdbuf(old);
	}
	CHECK(prec2 == prec && flags2 == flags, P.g.m.name << ": changed the format of std::cerr, precision " << prec << " to " << prec2);
	std::string text = err.str();
	size_t a = text.find("Total time");
	c.nontrivial = P.g.timings;
	if (r.reject_newton) c.label("newton-failed");
	CHECK((a != std::string::npos) == P.g.timings, P.g.m.name << ": timings " << (P.g.timings ? "not " : "") << "printed");
	if (!P.g.timings) return;
	std::vector<double> v;
	std::istringstream in(text.substr(a));
	for (std::string line; v.size() < 7 && std::getline(in, line);) v.push_back(std::stod(line.substr(line.find(':') + 1)));
	CHECK(v.size() == 7, P.g.m.name << ": the breakdown has " << v.size() << " lines");
	double want = r.elapsed > 1000 ? r.elapsed*1e-3 : r.elapsed, sum = 0;
	for (size_t k = 1; k < v.size(); ++k) sum += v[k];
	CHECK(near(v[0], want, 6e-3), P.g.m.name << ": total " << v[0] << " for an elapsed time of " << r.elapsed << " ms");
	CHECK(near(sum, want, 6e-3), P.g.m.name << ": the parts add up to " << sum << " for an elapsed time of " << r.elapsed << " ms");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C24"); }
