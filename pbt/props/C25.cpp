// C25: the same workload, built in many ways.
#include "../engine.hpp"
#include "../variants/workload.hpp"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

static const std::vector<std::string> variants = {
	"gcc_O0_zero", "gcc_O0_pattern", "gcc_O3_native_ndebug", "gcc_20_nochecks", "clang_makefile", "clang_sanitized", "gcc_sanitized_ndebug"};

static std::string tmp() { return getenv("PBT_TMP"); }

static std::string head(const std::string &file, size_t n, const char *find = nullptr)
{
	std::ifstream in(file);
	std::string line, all;
	while (std::getline(in, line)) {
		if (find && line.find(find) == std::string::npos && line.find("Assertion") == std::string::npos && line.find("ERROR") == std::string::npos) continue;
		all += line + "; ";
		if (all.size() > n) break;
	}
	return all.substr(0, n);
}

/// One running workload program.
struct Child {
	pid_t pid; int in, out; std::string err;
	Child(const std::string &name) : pid(-1)
	{
		int a[2], b[2];
		if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("pipe");
		static int count = 0;
		err = tmp() + "/err." + std::to_string(getpid()) + "." + std::to_string(count++);
		std::string exe = tmp() + "/" + name;
		bool pattern = name == "gcc_O0_pattern";
		pid = fork();
		if (pid == 0) {
			int null = open("/dev/null", O_WRONLY), e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			dup2(a[0], 0); dup2(null, 1); dup2(e, 2); dup2(b[1], 3);
			setenv("MALLOC_PERTURB_", pattern ? "165" : "255", 1);
			setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1", 1);
			setenv("UBSAN_OPTIONS", "print_stacktrace=0", 1);
			if (chdir(tmp().c_str())) _exit(99);
			execl(exe.c_str(), exe.c_str(), (char *)0);
			_exit(98);
		}
		close(a[0]); close(b[1]);
		in = a[1]; out = b[0];
	}
	~Child() { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); unlink(err.c_str()); }
	bool get(void *p, size_t n)
	{
		char *c = (char *)p;
		while (n) {
			struct pollfd f = {out, POLLIN, 0};
			if (poll(&f, 1, 240000) <= 0) return false;
			ssize_t r = read(out, c, n);
			if (r <= 0) return false;
			c += r; n -= r;
		}
		return true;
	}
	bool put(const void *p, size_t n)
	{
		const char *c = (const char *)p;
		while (n) { ssize_t r = write(in, c, n); if (r <= 0) return false; c += r; n -= r; }
		return true;
	}
};

static Result ask(const std::string &name, const std::vector<double> &spec, int unit)
{
	static std::map<std::string, std::unique_ptr<Child>> pool;
	static pid_t owner = 0;
	if (owner != getpid()) { for (auto &p : pool) p.second.release(); pool.clear(); owner = getpid(); signal(SIGPIPE, SIG_IGN); }
	std::string log = tmp() + "/" + name + ".buildlog";
	CHECK(access(log.c_str(), F_OK) != 0, name << " cannot be built: " << head(log, 700));
	auto &c = pool[name];
	if (!c) c.reset(new Child(name));
	uint32_t h[2] = {(uint32_t)spec.size(), (uint32_t)unit}, n = 0;
	Result r;
	bool ok = c->put(h, sizeof h) && c->put(spec.data(), spec.size()*sizeof(double)) && c->get(&n, sizeof n);
	if (ok) { r.resize(n); ok = !n || c->get(r.data(), n*sizeof(Item)); }
	if (!ok) {
		std::string why = head(c->err, 400, "runtime error");
		c.reset();
		FAIL(name << " (unit " << unit << ") ended without an answer: " << why);
	}
	return r;
}

static const char *kinds[] = {"explicit", "explicit", "explicit", "implicit", "implicit", "implicit", "roots", "multistep", "multistep", "queries", "history", "equations"};
static std::vector<double> rand_spec(Source &s, Case &c)
{
	int k = s.below(12);
	std::vector<double> v;
	v.push_back((k + 0.5)/12);
	for (int i = 0; i < 70; ++i) v.push_back(s.unit());
	c.label(kinds[k]);
	c.desc << kinds[k] << " spec";
	for (int i = 1; i < 12; ++i) c.desc << " " << v[i];
	return v;
}

static bool bits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static void same(const Result &a, const Result &b, const std::string &na, const std::string &nb, bool exactly)
{
	CHECK(!a.empty(), na << ": no result");
	for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
		bool eq = bits(a[i].value, b[i].value);
		if (!eq && !exactly && a[i].kind == 1 && b[i].kind == 1) eq = std::fabs(a[i].value - b[i].value) <= std::max(a[i].tol, b[i].tol)*(1 + std::fabs(a[i].value));
		CHECK(eq, "result " << i << " of " << a.size() << ": " << a[i].value << " with " << na << ", " << b[i].value << " with " << nb);
	}
	CHECK(a.size() == b.size(), a.size() << " results with " << na << ", " << b.size() << " with " << nb);
}

PROP(builds, 12000, 200000,
     "A random workload run by a debug build without optimisation, by optimised builds of two compilers and three language standards without assertions, and by sanitized builds with and without: counts, statuses and texts are equal, numbers agree to the accuracy of the solvers, and no build aborts. Non-trivial: more than 10 results.")
{
	std::vector<double> spec = rand_spec(s, c);
	Result a = ask(variants[0], spec, 0);
	c.nontrivial = a.size() > 10;
	for (size_t i = 1; i < variants.size(); ++i) same(a, ask(variants[i], spec, 0), variants[0], variants[i], false);
}

PROP(units, 15000, 300000,
     "A random workload run by two translation units of one program, that include the headers in different orders, in a random build: the results are equal bit for bit. Non-trivial: more than 10 results.")
{
	std::vector<double> spec = rand_spec(s, c);
	std::string v = s.pick(variants);
	c.label(v); c.desc << " " << v;
	Result a = ask(v, spec, 0), b = ask(v, spec, 1);
	c.nontrivial = a.size() > 10;
	same(a, b, v + " first unit", v + " second unit", true);
}

PROP(uninitialised, 30000, 600000,
     "A random workload run by two builds that differ in what they fill fresh stack and heap memory with: the results are equal bit for bit, so nothing depends on memory that nobody wrote. Non-trivial: more than 10 results.")
{
	std::vector<double> spec = rand_spec(s, c);
	Result a = ask("gcc_O0_zero", spec, 0), b = ask("gcc_O0_pattern", spec, 0);
	c.nontrivial = a.size() > 10;
	same(a, b, "zeros", "a pattern", true);
}

PROP(histories, 9000, 200000,
     "A random workload repeated in one process after one to three other random workloads: the results are equal bit for bit. Non-trivial: more than 10 results.")
{
	std::vector<double> spec = rand_spec(s, c);
	std::string v = s.pick(variants);
	c.label(v);
	Result a = ask(v, spec, 0);
	int n = 1 + s.below(3);
	for (int i = 0; i < n; ++i) { c.desc << "; then "; ask(v, rand_spec(s, c), s.below(2)); }
	Result b = ask(v, spec, 0);
	c.nontrivial = a.size() > 10;
	same(a, b, v, v + " again", true);
}

PROP(headers, 40, 400,
     "A random selection of the public headers included in a random order, some of them twice, compiles with a random compiler and language standard, with and without assertions. Non-trivial: at least two headers.")
{
	static const std::vector<std::string> self = {"rehuel.hpp", "erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp", "cyclic_buffer.hpp", "my_timer.hpp", "enums.hpp", "arma_include.hpp"};
	static const std::vector<std::string> cc = {"g++", "clang++"}, st = {"c++11", "c++14", "c++17", "c++20"};
	std::string src;
	int n = 1 + s.below(5);
	for (int i = 0; i < n; ++i) src += "#include \"" + s.pick(self) + "\"\n";
	if (s.chance(1, 3)) src += "#include \"rehuel.hpp\"\n#include \"test_equations.hpp\"\n";
	src += "int main() { return 0; }\n";
	std::string comp = s.pick(cc), std_ = s.pick(st);
	bool nd = s.flag();
	c.nontrivial = n > 1;
	c.label(comp + " " + std_);
	std::string line = src; std::replace(line.begin(), line.end(), '\n', ' ');
	c.desc << comp << " " << std_ << (nd ? " NDEBUG: " : ": ") << line;
	std::string base = tmp() + "/hdr." + std::to_string(getpid());
	std::ofstream(base + ".cpp") << src;
	std::string cmd = comp + " -w -fsyntax-only -std=" + std_ + (nd ? " -DNDEBUG" : "") + " -I" + getenv("PBT_REPO") + " " + base + ".cpp > " + base + ".log 2>&1";
	int r = system(cmd.c_str());
	CHECK(r == 0, "does not compile: " << head(base + ".log", 500));
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C25"); }
