// C08: the step limit.
#include "../run.hpp"
using namespace pbt;

/// The first n steps of r.
static Run first(const Run &r, size_t n)
{
	Run q = r;
	q.t.resize(n + 1); q.y.resize(n + 1); q.stages.resize(n + 1); q.err.resize(n + 1); q.err_est.resize(n + 1);
	return q;
}

PROP(limit, 40000, 1500000,
     "Any method, any problem, first without a limit, then with one chosen around the number of steps "
     "needed (also exactly it, one less, 0, and huge ones): success and bitwise the same, or the limit reported and "
     "bitwise the first steps. Non-trivial: the limit is at least 1 and binding, or exactly the number needed.")
{
	Problem P = any_problem(s, c);
	switch (s.below(8)) {
	case 0: case 1: P.g.max_steps = -(long long)s.range(1, 1000000); break;
	case 2: P.g.max_steps = -(1LL << s.range(20, 62)) + s.below(8); break;
	default: P.g.max_steps = -1;
	}
	Ode o = P.sys.ode();
	Run full = run(o, P.g);
	CHECK(full.status == SUCCESS, P.g.m.name << ": status " << full.status << " without a limit");
	long long n = full.t.size() - 1, N;
	switch (s.below(6)) {
	case 0: N = n; break;
	case 4: N = std::max<long long>(n, (1LL << s.range(8, 62)) + s.range(-3, 3)); c.label("huge"); break;
	case 1: N = n - 1; break;
	case 2: N = s.below(n + 1); break;
	case 3: N = n + s.below(4); break;
	default: N = s.chance(1, 4) ? 0 : 1 + s.below(std::max(1LL, n)); break;
	}
	Cfg g = P.g;
	g.max_steps = N;
	c.desc << ", " << n << " steps, limit " << N;
	Ode o2 = P.sys.ode();
	Run r = run(o2, g);
	c.nontrivial = (N >= 1 && N < n) || N == n;
	if (N >= n) {
		std::string d = differ(full, r);
		CHECK(d.empty(), P.g.m.name << ": a limit of " << N << " changed a run of " << n << " steps: " << d);
		CHECK(o.nf == o2.nf && o.nj == o2.nj, P.g.m.name << ": different work with a limit that is not reached");
	} else {
		CHECK(r.status == ERROR_MAX_STEPS_EXCEEDED, P.g.m.name << ": status " << r.status << " with a limit of "
		      << N << " for " << n << " steps");
		CHECK((long long)r.t.size() - 1 == N, P.g.m.name << ": " << r.t.size() - 1 << " steps with a limit of " << N);
		Run p = first(full, N), q = r;
		q.status = p.status;
		std::string d = differ(p, q, false);
		CHECK(d.empty(), P.g.m.name << ": with a limit of " << N << ", not the first steps of the unlimited run: " << d);
		CHECK(o2.nf <= o.nf && o2.nj <= o.nj, P.g.m.name << ": more work with a limit than without");
	}
}

PROP(output, 12000, 400000,
     "A limit together with an output interval or a stream: the limit counts steps, not output. "
     "Non-trivial: the limit is binding and the interval above 1.")
{
	Problem P = any_problem(s, c);
	Ode o = P.sys.ode();
	Run full = run(o, P.g);
	CHECK(full.status == SUCCESS, P.g.m.name << ": status " << full.status);
	size_t n = full.t.size() - 1, N = 1 + s.below(n + 2), k = 1 + s.below(4);
	Cfg g = P.g;
	g.max_steps = N; g.interval = k;
	std::ostringstream out;
	if (s.flag()) { g.mode = output_options::STORE_IN_VECTORS | output_options::WRITE_TO_FILE; g.stream = &out; }
	c.desc << ", " << n << " steps, limit " << N << ", interval " << k;
	Ode o2 = P.sys.ode();
	Run r = run(o2, g);
	size_t steps = std::min(n, N);
	c.nontrivial = N < n && k > 1;
	CHECK(r.status == (N < n ? (int)ERROR_MAX_STEPS_EXCEEDED : (int)SUCCESS), P.g.m.name << ": status " << r.status);
	CHECK(r.t.size() == 1 + steps/k, P.g.m.name << ": " << r.t.size() << " points of " << steps << " steps");
	for (size_t i = 0; i < r.t.size(); ++i)
		CHECK(r.t[i] == full.t[i*k] && same_vec(r.y[i], full.y[i*k]), P.g.m.name << ": point " << i << " differs");
	if (g.stream) {
		size_t lines = 0;
		for (char ch : out.str()) lines += ch == '\n';
		CHECK(lines == steps/k, P.g.m.name << ": " << lines << " lines of " << steps << " steps");
	}
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C08"); }
