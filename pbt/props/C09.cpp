// C09: output options.
#include "../run.hpp"
using namespace pbt;

static std::vector<std::string> lines_of(const std::string &s, bool &complete)
{
	std::vector<std::string> l;
	std::string cur;
	for (char ch : s) { if (ch == '\n') { l.push_back(cur); cur.clear(); } else cur += ch; }
	complete = cur.empty();
	return l;
}

/// What the numbers of a line should be read as, with the format of the stream.
static std::vector<double> expect_line(const std::ios &fmt, double t, const vec &y)
{
	std::vector<double> r;
	auto one = [&](double x) {
		std::ostringstream o;
		o.copyfmt(fmt); o.width(0);
		o << x;
		r.push_back(std::strtod(o.str().c_str(), nullptr));
	};
	one(t);
	for (double x : y) one(x);
	return r;
}

static void check_stream(const char *name, const std::string &text, const std::ios &fmt, const Run &full, size_t k)
{
	bool complete;
	std::vector<std::string> l = lines_of(text, complete);
	size_t n = full.t.size() - 1;
	CHECK(complete, name << ": the output does not end with a line end");
	CHECK(l.size() == n/k, name << ": " << l.size() << " lines of " << n << " steps with interval " << k);
	for (size_t i = 0; i < l.size(); ++i) {
		std::vector<double> want = expect_line(fmt, full.t[(i+1)*k], full.y[(i+1)*k]), got;
		std::istringstream in(l[i]);
		std::string w;
		while (in >> w) {
			char *end;
			got.push_back(std::strtod(w.c_str(), &end));
			CHECK(!*end, name << ": line " << i << " has the word '" << w << "'");
		}
		CHECK(got == want, name << ": line " << i << " is '" << l[i] << "' for t = " << full.t[(i+1)*k] << ", "
		      << show(full.y[(i+1)*k]));
	}
}

static Run thin(const Run &r, size_t k)
{
	Run q = r;
	q.t.clear(); q.y.clear(); q.stages.clear(); q.err.clear(); q.err_est.clear();
	for (size_t i = 0; i < r.t.size(); i += k) {
		q.t.push_back(r.t[i]); q.y.push_back(r.y[i]); q.stages.push_back(r.stages[i]);
		q.err.push_back(r.err[i]); q.err_est.push_back(r.err_est[i]);
	}
	return q;
}

PROP(modes, 40000, 1500000,
     "Any run, repeated with an output interval from 1 to 9 or above the number of steps, each of the four output modes, "
     "a stream of random precision and format, and random logging and timing options: what is stored is every "
     "k-th step bit for bit, what is written is one line per such step, and status and counters stay. "
     "Non-trivial: at least one output after the initial point, and interval, mode or logging not the default.")
{
	Problem P = any_problem(s, c);
	if (s.chance(1, 5)) P.g.max_steps = s.below(8);
	Ode o = P.sys.ode();
	Run full = run(o, P.g);
	size_t n = full.t.size() - 1;
	Cfg g = P.g;
	g.interval = s.chance(1, 6) ? n + 1 + s.below(5) : 1 + s.below(9);
	if (s.chance(1, 2)) g.interval = 1 + s.below(3);
	g.mode = s.below(4);
	g.log_interval = s.chance(1, 2) ? 0 : s.range(-1, 5);
	g.timings = s.flag();
	std::ostringstream out;
	out.precision(s.range(1, 20));
	if (s.chance(1, 3)) out << (s.flag() ? std::scientific : std::fixed);
	if (s.chance(1, 8)) out << std::showpos;
	// A stream without the write bit stays untouched.
	g.stream = &out;
	c.desc << ", " << n << " steps, interval " << g.interval << " mode " << g.mode << " precision "
	       << out.precision() << " log " << g.log_interval << " timings " << g.timings;
	Ode o2 = P.sys.ode();
	Run r = run(o2, g);
	const char *nm = P.g.m.name;
	c.nontrivial = n/g.interval > 0 && (g.interval > 1 || g.mode != 1 || g.log_interval > 0 || g.timings);
	c.label("mode-" + std::to_string(g.mode));
	Run want = thin(full, g.interval);
	if (!(g.mode & output_options::STORE_IN_VECTORS)) {
		CHECK(r.t.size() <= 1 && r.y.size() == r.t.size(), nm << ": " << r.t.size() << " points stored with storing disabled");
		if (r.t.size()) CHECK(r.t[0] == P.g.t0 && same_vec(r.y[0], P.g.y0), nm << ": stored something else");
		// Compare the rest.
		want.t = r.t; want.y = r.y; want.stages = r.stages; want.err = r.err; want.err_est = r.err_est;
	}
	std::string d = differ(want, r);
	CHECK(d.empty(), nm << " mode " << g.mode << " interval " << g.interval << ": " << d);
	CHECK(o.nf == o2.nf && o.nj == o2.nj, nm << ": output options changed the work done");
	if (g.mode & output_options::WRITE_TO_FILE) check_stream(nm, out.str(), out, full, g.interval);
	else CHECK(out.str().empty(), nm << ": wrote without being asked to");
}

PROP(helpers, 20000, 400000,
     "A random sequence of the option helpers (set a stream, enable and disable storing) against a model of "
     "two switches, then an integration with the options. Non-trivial: at least 2 calls.")
{
	Problem P = any_problem(s, c);
	Ode o = P.sys.ode();
	Run full = run(o, P.g);
	output_options oo;
	CHECK(oo.store_in_vectors() && !oo.write_to_file() && oo.output_interval == 1, "defaults of output_options");
	std::ostringstream out[2];
	bool store = true, write = false;
	int target = 0, calls = s.below(6);
	for (int i = 0; i < calls; ++i) switch (s.below(3)) {
	case 0: target = s.below(2); oo.set_output_stream(out[target]); write = true; c.desc << " stream" << target; break;
	case 1: oo.enable_store_in_vectors(); store = true; c.desc << " enable"; break;
	case 2: oo.disable_store_in_vectors(); store = false; c.desc << " disable"; break;
	}
	c.nontrivial = calls >= 2;
	CHECK(oo.store_in_vectors() == store && oo.write_to_file() == write, "switches: store " << oo.store_in_vectors()
	      << " write " << oo.write_to_file() << " instead of " << store << write);
	newton::options no = P.g.nopt;
	Run r;
	Ode o2 = P.sys.ode();
	if (P.g.m.implicit) {
		irk::solver_options so = irk::default_solver_options();
		fill_opts(so, P.g); so.newton_opts = &no;
		r = to_run(irk::odeint(o2, P.g.t0, P.g.t1, P.g.y0, so, oo, P.g.m.code, P.g.dt));
	} else {
		erk::solver_options so = erk::default_solver_options();
		fill_opts(so, P.g); so.newton_opts = &no;
		r = to_run(erk::odeint(o2, P.g.t0, P.g.t1, P.g.y0, so, oo, P.g.m.code, P.g.dt));
	}
	if (store) { std::string d = differ(full, r); CHECK(d.empty(), P.g.m.name << ": " << d); }
	else CHECK(r.t.size() <= 1 && r.status == full.status && r.attempt == full.attempt, P.g.m.name << ": storing disabled");
	if (write) check_stream(P.g.m.name, out[target].str(), out[target], full, 1);
	else CHECK(out[target].str().empty(), P.g.m.name << ": wrote without being asked to");
	CHECK(out[1 - target].str().empty(), P.g.m.name << ": wrote to the stream set before");
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C09"); }
