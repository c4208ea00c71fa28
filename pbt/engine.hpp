// A small property-based testing engine.
//
// * A test case is a sequence of bounded integer choices. Generators draw from
//   a Source; the Source records what it hands out, so any case can be
//   replayed, mutated and shrunk without knowing what was generated from it.
// * Case k of sub-property p is a function of (seed, p, k) only.
// * Cases run in forked workers, so that a crash, an assertion, a sanitizer
//   report or an endless loop in the code under test is a failure of the case
//   at hand and is shrunk like any other failure.
// * A failing case is shrunk (delete blocks, zero blocks, lower values), then
//   replayed; the minimal choice sequence is the replay file. If a failure
//   needs the cases that ran before it in the same process (leaked state), the
//   replay file holds the (shrunk) list of cases instead.
#ifndef PBT_ENGINE_HPP
#define PBT_ENGINE_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

typedef std::vector<uint64_t> choices;

struct Fail { std::string msg; };
struct Discard { };
/// Thrown by instrumented functors when the code under test does not stop
/// calling them. Deliberately not a std::exception.
struct BudgetExceeded { unsigned long long calls; };

inline uint64_t mix64(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string &s)
{
	uint64_t h = 1469598103934665603ULL;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
	return mix64(h);
}

inline uint64_t hash_choices(const choices &c)
{
	uint64_t h = 0x12345;
	for (uint64_t x : c) h = mix64(h ^ x) + 0x51ed27;
	return h;
}

class Source {
public:
	explicit Source(uint64_t seed) : state(seed), replay(false), pos(0) {}
	explicit Source(const choices &c) : state(0), replay(true), pos(0), given(c) {}

	/// A choice from [0, n); 0 is the simplest.
	uint64_t below(uint64_t n)
	{
		if (n == 0) n = 1;
		uint64_t v;
		if (replay) {
			v = pos < given.size() ? given[pos] : 0;
			if (v >= n) v = n - 1;
		} else {
			state += 0x9e3779b97f4a7c15ULL;
			v = mix64(state) % n;
		}
		++pos;
		rec.push_back(v);
		if (rec.size() >= max_choices) throw Discard();
		if (mirror) { mirror[rec.size()] = v; mirror[0] = rec.size(); }
		return v;
	}
	long range(long lo, long hi)
	{ return lo + (long)below((uint64_t)(hi - lo) + 1); }
	/// true with probability num/den; shrinks to false.
	bool chance(unsigned num, unsigned den)
	{ return below(den) >= den - num; }
	bool flag() { return below(2) == 1; }
	template <typename T> const T &pick(const std::vector<T> &v)
	{ return v[below(v.size())]; }
	/// [0,1), shrinks to 0
	double unit() { return (double)below(1u << 24) / (double)(1u << 24); }
	/// Uniform; shrinks to the number in [lo,hi] nearest to 0.
	double real(double lo, double hi)
	{
		if (lo >= 0) return lo + (hi - lo)*unit();
		if (hi <= 0) return hi - (hi - lo)*unit();
		double w = hi - lo;
		// A value of k shrinks magnitude first, sign is a choice of its own.
		bool neg = below(1000) >= (uint64_t)(1000.0*hi/w);
		double m = neg ? -lo : hi;
		return (neg ? -1.0 : 1.0)*m*unit();
	}
	/// Log-uniform; shrinks to lo.
	double logreal(double lo, double hi)
	{ return lo*std::pow(hi/lo, unit()); }
	/// Mostly simple fractions, sometimes arbitrary.
	double gauss()
	{
		double u = unit(), v = unit();
		return std::sqrt(-2.0*std::log(1.0 - u))*std::cos(6.283185307179586*v);
	}

	choices rec;
	uint64_t *mirror = nullptr;
	static constexpr size_t max_choices = 500000;
private:
	uint64_t state;
	bool replay;
	size_t pos;
	choices given;
};

struct Case {
	std::vector<std::string> labels;
	std::ostringstream desc;
	bool nontrivial = false;
	int kind = 0;
	void label(const std::string &s) { labels.push_back(s); }
};

struct Sub {
	std::string name;
	std::string rule;     ///< how cases are made, what is non-trivial
	long quick, thorough; ///< number of cases
	std::function<void(Source &, Case &)> body;
	bool finding;         ///< known-finding probe: one deterministic case
};

inline std::vector<Sub> &registry() { static std::vector<Sub> r; return r; }

struct Reg {
	Reg(const char *name, const char *rule, long q, long t,
	    std::function<void(Source &, Case &)> f, bool finding = false)
	{ registry().push_back(Sub{name, rule, q, t, f, finding}); }
};

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
/// PROP(name, quick cases, thorough cases, rule) { ... uses s and c ... }
#define PROP(NAME, Q, T, RULE) \
	static void prop_##NAME(pbt::Source &s, pbt::Case &c); \
	static pbt::Reg PBT_CAT(reg_, NAME)(#NAME, RULE, Q, T, prop_##NAME); \
	static void prop_##NAME(pbt::Source &s, pbt::Case &c)
/// A probe for a known finding: FAILs while the finding is there.
#define FINDING(NAME, RULE) \
	static void prop_##NAME(pbt::Source &s, pbt::Case &c); \
	static pbt::Reg PBT_CAT(reg_, NAME)(#NAME, RULE, 1, 1, prop_##NAME, true); \
	static void prop_##NAME(pbt::Source &s, pbt::Case &c)

#define CHECK(COND, MSG) do { if (!(COND)) { \
	std::ostringstream pbt_os; pbt_os.precision(17); \
	pbt_os << MSG << "   [" << #COND << "]"; \
	throw pbt::Fail{pbt_os.str()}; } } while (0)
#define FAIL(MSG) do { std::ostringstream pbt_os; pbt_os.precision(17); \
	pbt_os << MSG; throw pbt::Fail{pbt_os.str()}; } while (0)

// ---------------------------------------------------------------- running

enum Outcome { PASS = 0, FAILED = 1, DISCARDED = 2, CRASHED = 3 };

inline long &case_cpu_limit()
{
	static long limit = getenv("PBT_CASE_CPU") ? atol(getenv("PBT_CASE_CPU")) : 30;
	return limit;
}

inline void arm_cpu_guard()
{
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = case_cpu_limit();
	setitimer(ITIMER_PROF, &it, nullptr);
}

struct RunResult {
	Outcome out;
	std::string msg;
	choices rec;
};

inline Outcome run_body(const Sub &sub, Source &src, Case &c, std::string &msg)
{
	arm_cpu_guard();
	try {
		sub.body(src, c);
	} catch (const Fail &f) {
		msg = f.msg;
		return FAILED;
	} catch (const Discard &) {
		return DISCARDED;
	} catch (const BudgetExceeded &b) {
		std::ostringstream os;
		os << "the integration does not end: still calling the right-hand "
		      "side after " << b.calls << " calls";
		msg = os.str();
		return FAILED;
	} catch (const std::exception &e) {
		msg = std::string("unexpected exception: ") + e.what();
		return FAILED;
	}
	return PASS;
}

inline std::string sanitize(const std::string &s)
{
	std::string r;
	for (char ch : s) {
		if (ch == '\n') r += "\\n";
		else if ((unsigned char)ch < 32) r += ' ';
		else r += ch;
	}
	return r;
}

/// Runs a list of choice sequences in one forked process; the outcome is that
/// of the last one (or of an earlier one that crashes).
inline RunResult run_forked(const Sub &sub, const std::vector<choices> &seqs)
{
	int fd[2];
	RunResult r;
	r.out = CRASHED;
	if (pipe(fd)) { r.msg = "pipe failed"; return r; }
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		close(fd[0]);
		for (size_t i = 0; i < seqs.size(); ++i) {
			Source src(seqs[i]);
			Case c;
			std::string msg;
			Outcome o = run_body(sub, src, c, msg);
			if (i + 1 < seqs.size()) continue;
			std::ostringstream os;
			os << o << " " << src.rec.size();
			for (uint64_t v : src.rec) os << " " << v;
			os << "\n" << sanitize(msg) << "\n" << sanitize(c.desc.str()) << "\n";
			std::string s = os.str();
			size_t off = 0;
			while (off < s.size()) {
				ssize_t n = write(fd[1], s.data() + off, s.size() - off);
				if (n <= 0) break;
				off += n;
			}
		}
		_exit(0);
	}
	close(fd[1]);
	std::string all;
	char buf[65536];
	ssize_t n;
	while ((n = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, n);
	close(fd[0]);
	int st = 0;
	waitpid(p, &st, 0);
	std::istringstream is(all);
	int o; size_t cnt;
	if (is >> o >> cnt) {
		r.out = (Outcome)o;
		for (size_t i = 0; i < cnt; ++i) { uint64_t v = 0; is >> v; r.rec.push_back(v); }
		std::string line;
		std::getline(is, line);
		std::getline(is, line);
		r.msg = line;
		std::getline(is, line);
		if (!line.empty()) r.msg += "  | case: " + line;
	}
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		r.out = CRASHED;
		std::ostringstream os;
		if (WIFSIGNALED(st)) {
			int sg = WTERMSIG(st);
			os << "killed by signal " << sg << " (" << strsignal(sg) << ")";
			if (sg == SIGPROF) os << ": no end within the CPU limit of a case";
		} else os << "exited with status " << WEXITSTATUS(st)
		          << " (sanitizer report or exit())";
		r.msg = os.str();
		if (seqs.size()) r.rec = seqs.back();
	}
	return r;
}

inline double now_s()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + 1e-9*ts.tv_nsec;
}

/// Shortlex order on choice sequences: what shrinking decreases.
inline bool simpler(const choices &a, const choices &b)
{
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}

inline choices shrink(const Sub &sub, choices best, std::string &msg, double budget_s)
{
	double t_end = now_s() + budget_s;
	int runs = 0;
	auto attempt = [&](const choices &cand) {
		if (runs > 1500 || now_s() > t_end) return false;
		if (!simpler(cand, best)) return false;
		++runs;
		RunResult r = run_forked(sub, {cand});
		if (r.out != FAILED && r.out != CRASHED) return false;
		choices c = r.out == FAILED ? r.rec : cand;
		if (!simpler(c, best)) c = cand;
		best = c;
		msg = r.msg;
		return true;
	};
	bool progress = true;
	while (progress && now_s() < t_end && runs <= 1500) {
		progress = false;
		// Delete blocks.
		for (size_t len = std::max<size_t>(1, best.size()/2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size();) {
				choices cand(best.begin(), best.begin() + i);
				cand.insert(cand.end(), best.begin() + i + len, best.end());
				if (attempt(cand)) progress = true;
				else i += len;
				if (now_s() > t_end) break;
			}
			if (now_s() > t_end) break;
		}
		// Zero blocks.
		for (size_t len = std::max<size_t>(1, best.size()/2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size(); i += len) {
				choices cand = best;
				for (size_t k = i; k < i + len; ++k) cand[k] = 0;
				if (attempt(cand)) progress = true;
				if (now_s() > t_end) break;
			}
			if (now_s() > t_end) break;
		}
		// Lower single values.
		for (size_t i = 0; i < best.size(); ++i) {
			uint64_t lo = 0;
			while (i < best.size() && lo < best[i]) {
				uint64_t mid = lo + (best[i] - lo)/2;
				choices cand = best;
				cand[i] = mid;
				if (attempt(cand)) progress = true;
				else lo = mid + 1;
				if (now_s() > t_end) break;
			}
			if (now_s() > t_end) break;
		}
	}
	return best;
}

struct Shared {
	volatile long current[64];
	volatile long failed_at[64];
};

struct SubStats {
	long evaluations = 0, nontrivial = 0, discarded = 0;
	std::set<uint64_t> distinct;
	std::map<std::string,long> labels;
	std::vector<std::string> samples;
	bool time_capped = false;
};

inline std::string json_escape(const std::string &s)
{
	std::string r;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if (ch < 32 || ch > 126) r += ' ';
		else r += ch;
	}
	return r;
}

class NullBuf : public std::streambuf {
	int overflow(int ch) { return ch; }
	std::streamsize xsputn(const char *, std::streamsize n) { return n; }
};

inline uint64_t case_seed(uint64_t seed, const std::string &sub, long k)
{ return mix64(mix64(seed + 0x1000) ^ hash_str(sub)) ^ mix64(0xabcdef12345ULL + (uint64_t)k); }

inline void write_replay(const std::string &path, const std::string &bin_id,
                         const std::string &sub, const std::vector<choices> &seqs,
                         const std::string &msg)
{
	std::ofstream o(path);
	o << "# minimal failing case of " << bin_id << "/" << sub << "\n"
	  << "# " << sanitize(msg) << "\n"
	  << "# replay: python3 pbt/check.py " << bin_id << " --replay <this file>\n"
	  << "sub " << sub << "\n"
	  << "sequences " << seqs.size() << "\n";
	for (auto &q : seqs) {
		o << q.size();
		for (uint64_t v : q) o << " " << v;
		o << "\n";
	}
}

inline int replay_main(const std::string &path)
{
	std::ifstream in(path);
	std::string line, sub;
	std::vector<choices> seqs;
	while (std::getline(in, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream is(line);
		if (line.compare(0, 4, "sub ") == 0) { is >> sub >> sub; continue; }
		if (line.compare(0, 9, "sequences") == 0) continue;
		size_t n; is >> n;
		choices q;
		for (size_t i = 0; i < n; ++i) { uint64_t v = 0; is >> v; q.push_back(v); }
		seqs.push_back(q);
	}
	for (auto &x : registry()) if (x.name == sub) {
		RunResult r = run_forked(x, seqs);
		const char *names[] = {"PASS", "FAIL", "DISCARD", "CRASH"};
		printf("%s %s\n", names[r.out], r.msg.c_str());
		return (r.out == FAILED || r.out == CRASHED) ? 1 : 0;
	}
	printf("unknown sub-property %s\n", sub.c_str());
	return 2;
}

/// Called in the code of a property before anything else happens.
inline std::function<void()> &process_init()
{ static std::function<void()> f; return f; }

inline int pbt_main(int argc, char **argv, const char *id)
{
	uint64_t seed = 1;
	bool thorough = false;
	std::string out = "result.json", replaydir = ".", only;
	double scale = 1.0, cap = 0.0;
	int W = 8;
	bool verbose = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
		else if (a == "--tier") thorough = next() == "thorough";
		else if (a == "--out") out = next();
		else if (a == "--replaydir") replaydir = next();
		else if (a == "--only") only = next();
		else if (a == "--scale") scale = atof(next().c_str());
		else if (a == "--cap") cap = atof(next().c_str());
		else if (a == "--workers") W = atoi(next().c_str());
		else if (a == "--verbose") verbose = true;
		else if (a == "--replay") {
			NullBuf &nb = *new NullBuf; // outlives the streams
			std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
			if (process_init()) process_init()();
			return replay_main(next());
		}
	}
	if (W > 64) W = 64;
	NullBuf &nb = *new NullBuf; // outlives the streams
	std::cout.rdbuf(&nb);
	std::cerr.rdbuf(&nb);
	if (process_init()) process_init()();

	Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE,
	                            MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	uint64_t *mirror = (uint64_t *)mmap(nullptr, 8*(Source::max_choices + 8),
		PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	std::ostringstream js;
	js << "{\"subs\":[";
	bool first = true, any_fail = false;
	std::string tmpl = replaydir + "/w.XXXXXX";
	std::vector<char> tb(tmpl.begin(), tmpl.end());
	tb.push_back(0);
	if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 3; }
	std::string wd = tb.data();

	const double t_start = now_s();
	for (auto &sub : registry()) {
		if (!only.empty() && sub.name != only) continue;
		double t0 = now_s();
		// After a violation that took long to find (hanging cases), the rest can wait.
		if (any_fail && !thorough && t0 - t_start > 240) continue;
		long N = thorough ? sub.thorough : sub.quick;
		if (!sub.finding) N = std::max(1L, (long)std::ceil(N*scale));
		double sub_cap = cap > 0 ? cap : (thorough ? 2400.0 : std::max(15.0, 360.0/registry().size()));
		int nw = (int)std::min<long>(W, N);
		std::vector<pid_t> pids;
		for (int w = 0; w < nw; ++w) { sh->current[w] = -1; sh->failed_at[w] = -1; }
		fflush(nullptr);
		for (int w = 0; w < nw; ++w) {
			pid_t p = fork();
			if (p == 0) {
				SubStats st;
				double tend = now_s() + sub_cap;
				for (long k = w; k < N; k += nw) {
					if (now_s() > tend) { st.time_capped = true; break; }
					// Someone already failed on an earlier case.
					bool stop = false;
					for (int v = 0; v < nw; ++v)
						if (sh->failed_at[v] >= 0 && sh->failed_at[v] < k) stop = true;
					if (stop) break;
					sh->current[w] = k;
					Source src(case_seed(seed, sub.name, k));
					Case c;
					std::string msg;
					Outcome o = run_body(sub, src, c, msg);
					if (o == FAILED) { sh->failed_at[w] = k; break; }
					if (o == DISCARDED) { ++st.discarded; continue; }
					++st.evaluations;
					for (auto &l : c.labels) ++st.labels[l];
					if (c.nontrivial) {
						++st.nontrivial;
						st.distinct.insert(hash_choices(src.rec));
						if (st.samples.size() < 2 && !c.desc.str().empty())
							st.samples.push_back(c.desc.str());
					}
				}
				std::ofstream o(wd + "/s" + std::to_string(w));
				o << st.evaluations << " " << st.nontrivial << " " << st.discarded
				  << " " << st.time_capped << " " << st.distinct.size() << "\n";
				for (uint64_t h : st.distinct) o << h << "\n";
				o << st.labels.size() << "\n";
				for (auto &l : st.labels) o << l.second << " " << sanitize(l.first) << "\n";
				o << st.samples.size() << "\n";
				for (auto &x : st.samples) o << sanitize(x) << "\n";
				o.close();
				_exit(0);
			}
			pids.push_back(p);
		}
		long fail_k = -1;
		std::vector<char> hung(nw, 0);
		for (int left = nw; left > 0;) {
			int stt = 0;
			pid_t p = waitpid(-1, &stt, 0);
			if (p < 0) break;
			int w = std::find(pids.begin(), pids.end(), p) - pids.begin();
			if (w == nw) continue;
			--left;
			if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGPROF) hung[w] = 1;
			if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0) && sh->failed_at[w] < 0)
				sh->failed_at[w] = sh->current[w] < 0 ? w : sh->current[w];
		}
		int fail_w = -1;
		for (int w = 0; w < nw; ++w) {
			long k = sh->failed_at[w];
			if (k >= 0 && (fail_k < 0 || k < fail_k)) { fail_k = k; fail_w = w; }
		}
		SubStats tot;
		for (int w = 0; w < nw; ++w) {
			std::ifstream in(wd + "/s" + std::to_string(w));
			long e, nt, d; int capd; size_t cnt;
			if (!(in >> e >> nt >> d >> capd >> cnt)) continue;
			tot.evaluations += e; tot.nontrivial += nt; tot.discarded += d;
			tot.time_capped |= capd;
			for (size_t i = 0; i < cnt; ++i) { uint64_t h; in >> h; tot.distinct.insert(h); }
			in >> cnt;
			std::string line;
			for (size_t i = 0; i < cnt; ++i) { long n; in >> n; std::getline(in, line);
				tot.labels[line.substr(1)] += n; }
			in >> cnt; std::getline(in, line);
			for (size_t i = 0; i < cnt; ++i) { std::getline(in, line);
				if (tot.samples.size() < 4) tot.samples.push_back(line); }
			unlink((wd + "/s" + std::to_string(w)).c_str());
		}

		std::string verdict = "pass", msg, path;
		if (fail_k >= 0) {
			// Get the choices of the failing case.
			auto choices_of = [&](long k) {
				choices r;
				// Choices go to shared memory, so that a crash does not lose them.
				fflush(nullptr);
				pid_t p = fork();
				if (p == 0) {
					Source src(case_seed(seed, sub.name, k));
					src.mirror = mirror;
					mirror[0] = 0;
					Case c; std::string m;
					run_body(sub, src, c, m);
					_exit(0);
				}
				int stt; waitpid(p, &stt, 0);
				r.assign(mirror + 1, mirror + 1 + mirror[0]);
				return r;
			};
			// A case that does not end draws its choices before it hangs, and takes too long to be shrunk.
			const long limit = case_cpu_limit();
			if (hung[fail_w]) case_cpu_limit() = std::min(limit, 5L);
			std::vector<choices> seqs = { choices_of(fail_k) };
			case_cpu_limit() = limit;
			RunResult r = run_forked(sub, seqs);
			if (hung[fail_w] && r.out == CRASHED) {
				msg = r.msg;
			} else if (r.out == FAILED || r.out == CRASHED) {
				msg = r.msg;
				seqs[0] = shrink(sub, seqs[0], msg, 40.0);
			} else {
				// Needs the history of that worker.
				std::vector<choices> hist;
				for (long k = fail_w; k <= fail_k; k += nw) hist.push_back(choices_of(k));
				r = run_forked(sub, hist);
				if (r.out == FAILED || r.out == CRASHED) {
					msg = "(needs earlier calls in the same process) " + r.msg;
					double te = now_s() + 40;
					for (size_t len = hist.size()/2; len >= 1; len /= 2)
						for (size_t i = 0; i + len < hist.size() && now_s() < te;) {
							std::vector<choices> cand(hist.begin(), hist.begin() + i);
							cand.insert(cand.end(), hist.begin() + i + len, hist.end());
							RunResult q = run_forked(sub, cand);
							if (q.out == FAILED || q.out == CRASHED) hist = cand;
							else i += len;
						}
					seqs = hist;
				}
			}
			int rep = 0;
			std::string m2;
			if (hung[fail_w] && r.out == CRASHED) rep = 3;
			else for (int q = 0; q < 3; ++q) {
				RunResult rr = run_forked(sub, seqs);
				if (rr.out == FAILED || rr.out == CRASHED) { ++rep; m2 = rr.msg; }
			}
			if (rep >= 2) {
				verdict = "fail";
				if (msg.empty()) msg = m2;
				path = replaydir + "/" + std::string(id) + "-" + sub.name + ".replay";
				write_replay(path, id, sub.name, seqs, msg);
				if (!sub.finding) any_fail = true;
			} else {
				verdict = "unreproducible";
				msg = "case " + std::to_string(fail_k) + " failed once but not on replay";
			}
		}
		double wall = now_s() - t0;
		if (!first) js << ",";
		first = false;
		js << "{\"name\":\"" << sub.name << "\",\"verdict\":\"" << verdict << "\",\"finding\":"
		   << (sub.finding ? "true" : "false") << ",\"rule\":\"" << json_escape(sub.rule)
		   << "\",\"msg\":\"" << json_escape(msg) << "\",\"replay\":\"" << json_escape(path)
		   << "\",\"evaluations\":" << tot.evaluations << ",\"nontrivial\":" << tot.nontrivial
		   << ",\"distinct_nontrivial\":" << tot.distinct.size()
		   << ",\"discarded\":" << tot.discarded << ",\"time_capped\":"
		   << (tot.time_capped ? "true" : "false") << ",\"wall_s\":" << wall << ",\"labels\":{";
		bool f2 = true;
		for (auto &l : tot.labels) { js << (f2 ? "" : ",") << "\"" << json_escape(l.first)
			<< "\":" << l.second; f2 = false; }
		js << "},\"samples\":[";
		for (size_t i = 0; i < tot.samples.size(); ++i)
			js << (i ? "," : "") << "\"" << json_escape(tot.samples[i]) << "\"";
		js << "]}";
		if (verbose) {
			printf("%-28s %-6s n=%ld nontriv=%ld disc=%ld %.1fs %s\n", sub.name.c_str(),
			       verdict.c_str(), tot.evaluations, tot.nontrivial, tot.discarded, wall,
			       msg.c_str());
			for (auto &l : tot.labels) printf("      %s: %ld\n", l.first.c_str(), l.second);
			fflush(stdout);
		}
	}
	rmdir(wd.c_str());
	js << "]}\n";
	std::ofstream o(out);
	o << js.str();
	o.close();
	return any_fail ? 1 : 0;
}

} // namespace pbt

#endif // PBT_ENGINE_HPP
