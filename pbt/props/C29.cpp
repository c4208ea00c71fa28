// C29: the caller's functor is used in place.
#include "../run.hpp"
#include "../multi.hpp"
#include "../roots.hpp"
#include "functor.hpp"
using namespace pbt;

/// Remembers, inside the object, what was called; copies of it know that they are copies.
struct Record {
	uint64_t hash = 1469598103934665603ull;
	long calls = 0;
	void add(double x) { uint64_t b; memcpy(&b, &x, 8); hash = (hash ^ b)*1099511628211ull; hash ^= hash >> 29; }
	void add(const vec &y) { for (double x : y) add(x); }
};
static Record outside;          ///< of all calls made on any object
static long on_copies = 0;      ///< calls made on copies
static long throw_at = -1;      ///< the call that throws
struct Thrown { long call; };
static int throw_kind = 0;

/// What every form of a functor does when called.
struct Mem {
	Record own;
	bool copy = false;
	Mem() {}
	Mem(const Mem &o) : own(o.own), copy(true) {}
	Mem &operator=(const Mem &o) { own = o.own; copy = true; return *this; }
	void note(double t, const vec &y, double kind)
	{
		for (Record *r : {&own, &outside}) { r->calls++; r->add(t); r->add(y); r->add(kind); }
		if (copy) ++on_copies;
		if (outside.calls > 3000000) throw BudgetExceeded{(unsigned long long)outside.calls};
		if (outside.calls == throw_at) {
			if (throw_kind == 0) throw Thrown{throw_at};
			if (throw_kind == 1) throw std::runtime_error("call " + std::to_string(throw_at));
			throw (int)throw_at;
		}
	}
};

/// An ordinary class.
struct Plain {
	typedef mat jac_type;
	SmoothSystem S; Mem m;
	vec fun(double t, const vec &y) { m.note(t, y, 0); return S.fun(t, y); }
	mat jac(double t, const vec &y) { m.note(t, y, 1); return S.jac(t, y); }
};
/// Used through a reference to a base class that does something else itself.
struct Base {
	typedef mat jac_type;
	Mem m;
	virtual ~Base() {}
	virtual vec fun(double t, const vec &y) { m.note(t, y, 2); return 0*y; }
	virtual mat jac(double t, const vec &y) { m.note(t, y, 3); return arma::zeros(y.n_elem, y.n_elem); }
};
struct Derived : Base {
	SmoothSystem S;
	vec fun(double t, const vec &y) { m.note(t, y, 0); return S.fun(t, y); }
	mat jac(double t, const vec &y) { m.note(t, y, 1); return S.jac(t, y); }
};
/// Used through the interface that the library declares.
struct Declared : functor {
	SmoothSystem S; Mem m;
	vec fun(double t, const vec &y) { m.note(t, y, 0); return S.fun(t, y); }
	mat jac(double t, const vec &y) { m.note(t, y, 1); return S.jac(t, y); }
};
/// Takes its arguments by value and changes them, and returns something that converts.
struct ByValue {
	typedef mat jac_type;
	SmoothSystem S; Mem m;
	vec fun(double t, vec y) { m.note(t, y, 0); vec r = S.fun(t, y); y.fill(NAN); return r; }
	mat jac(double t, vec y) { m.note(t, y, 1); mat r = S.jac(t, y); y.fill(NAN); return r; }
};

static const char *forms[] = {"plain", "base class", "declared interface", "by value"};
static const int N_forms = 4;

struct Done { std::string thrown; bool is_run = true; Run r; MRun q; Record own; long copies; Record all; };

template <typename F> void integrate(F &f, const Problem &P, const MCfg *mg, Done &o)
{
	try {
		if (mg) { o.is_run = false; o.q = mrun(f, *mg); }
		else o.r = run(f, P.g);
	}
	catch (const Thrown &t) { o.thrown = "own " + std::to_string(t.call); }
	catch (const BudgetExceeded &) { throw; }
	catch (const std::runtime_error &t) { o.thrown = std::string("standard ") + t.what(); }
	catch (int i) { o.thrown = "int " + std::to_string(i); }
}

static Done perform(int form, const Problem &P, const MCfg *mg)
{
	outside = Record(); on_copies = 0;
	Done o;
	switch (form) {
	case 0: { Plain f; f.S = P.sys; integrate(f, P, mg, o); o.own = f.m.own; break; }
	case 1: { Derived f; f.S = P.sys; Base &b = f; integrate(b, P, mg, o); o.own = f.m.own; break; }
	case 2: { Declared f; f.S = P.sys;
		// An abstract class can only be used in place, or it does not compile.
		if (mg && mg->bdf) { integrate(f, P, mg, o); o.own = f.m.own; break; }
#ifdef PBT_WITHOUT_ABSTRACT
		Declared &b = f;
#else
		functor &b = f;
#endif
		try {
			if (mg) { multistep::solver_options so; so.order = mg->order; auto q = multistep::adams_bashforth(b, mg->t0, mg->t1, mg->y0, so, mg->dt); o.is_run = false; o.q = MRun{q.status, q.t_vals, q.y_vals}; }
			else o.r = run(b, P.g);
		}
		catch (const Thrown &t) { o.thrown = "own " + std::to_string(t.call); }
		catch (const BudgetExceeded &) { throw; }
		catch (const std::runtime_error &t) { o.thrown = std::string("standard ") + t.what(); }
		catch (int i) { o.thrown = "int " + std::to_string(i); }
		o.own = f.m.own; break; }
	default: { ByValue f; f.S = P.sys; integrate(f, P, mg, o); o.own = f.m.own; break; }
	}
	o.copies = on_copies; o.all = outside;
	return o;
}

static std::string differ(const Done &a, const Done &b)
{
	std::ostringstream o;
	if (a.is_run) return pbt::differ(a.r, b.r);
	if (a.q.status != b.q.status) { o << "status " << a.q.status << " and " << b.q.status; return o.str(); }
	if (a.q.t.size() != b.q.t.size()) { o << a.q.t.size() << " and " << b.q.t.size() << " points"; return o.str(); }
	for (size_t i = 0; i < a.q.t.size(); ++i) {
		if (!same_bits(a.q.t[i], b.q.t[i])) { o << "time " << i; return o.str(); }
		if (!same_vec(a.q.y[i], b.q.y[i])) { o << "value " << i << ": " << show(a.q.y[i]) << " and " << show(b.q.y[i]); return o.str(); }
	}
	return "";
}

struct Setup { Problem P; MCfg g; const MCfg *mg; std::string name; };
static void setup(Source &s, Case &c, Setup &u)
{
	u.mg = nullptr;
	if (s.chance(1, 3)) {
		MProblem M = multi_problem(s, c, s.flag(), 6);
		u.P.sys = M.sys; u.P.L = M.L; u.g = M.g; u.mg = &u.g;
		u.name = std::string(M.g.bdf ? "BDF-" : "AB-") + std::to_string(M.g.order);
	} else { u.P = any_problem(s, c); u.name = u.P.g.m.name; }
}

PROP(integrators, 24000, 800000,
     "Any integration or multistep run of a functor given as an ordinary object, through a reference to a base class, through the interface the library declares, or as one that takes "
     "its arguments by value and overwrites them: bitwise the same result, and the object itself has recorded every call that was made. Non-trivial: another form than the ordinary one, at least 10 calls.")
{
	Setup u; setup(s, c, u);
	int form = s.below(N_forms);
	c.desc << ", " << forms[form]; c.label(forms[form]);
	throw_at = -1;
	Done a = perform(0, u.P, u.mg), b = form ? perform(form, u.P, u.mg) : a;
	c.nontrivial = form > 0 && a.all.calls >= 10;
	for (const Done *o : {&a, &b}) {
		const char *n = o == &a ? forms[0] : forms[form];
		CHECK(o->own.calls == o->all.calls && o->own.hash == o->all.hash, u.name << ", " << n << ": the functor recorded " << o->own.calls << " of " << o->all.calls << " calls (" << o->copies << " on copies)");
	}
	std::string d = differ(a, b);
	CHECK(d.empty(), u.name << ": " << forms[form] << " and " << forms[0] << " differ: " << d);
}

PROP(exceptions, 16000, 500000,
     "The functor throws (an own type, a standard exception, or an int) at a random one of its calls: the caller gets that exception, no further call is made, and a repetition without it gives bitwise "
     "the result of before. Non-trivial: not the first call.")
{
	Setup u; setup(s, c, u);
	throw_at = -1;
	Done a = perform(0, u.P, u.mg);
	if (a.all.calls < 1) throw Discard();
	int form = s.below(N_forms);
	throw_kind = s.below(3);
	throw_at = 1 + s.below(a.all.calls);
	c.desc << ", " << forms[form] << " throws " << throw_kind << " at call " << throw_at << " of " << a.all.calls;
	c.label(std::vector<std::string>{"own", "standard", "int"}[throw_kind]);
	c.nontrivial = throw_at > 1;
	long at = throw_at;
	Done b = perform(form, u.P, u.mg);
	throw_at = -1;
	std::string want = throw_kind == 0 ? "own " + std::to_string(at) : throw_kind == 1 ? "standard call " + std::to_string(at) : "int " + std::to_string(at);
	CHECK(b.thrown == want, u.name << ", " << forms[form] << ": thrown '" << want << "', caught '" << b.thrown << "'");
	CHECK(b.all.calls == at, u.name << ": " << b.all.calls << " calls, call " << at << " threw");
	Done d = perform(0, u.P, u.mg);
	std::string diff = differ(a, d);
	CHECK(diff.empty(), u.name << ": differs after an exception: " << diff);
}

/// Nonlinear systems in the same forms.
struct RootPlain {
	typedef mat jac_type;
	RootProblem R; Mem m;
	vec fun(const vec &x) { m.note(0, x, 0); return R.S.f(x); }
	mat jac(const vec &x) { m.note(0, x, 1); return R.S.j(x); }
};
struct RootBase {
	typedef mat jac_type;
	Mem m;
	virtual ~RootBase() {}
	virtual vec fun(const vec &x) { m.note(0, x, 2); return 0*x; }
	virtual mat jac(const vec &x) { m.note(0, x, 3); return arma::eye(x.n_elem, x.n_elem); }
};
struct RootDerived : RootBase {
	RootProblem R;
	vec fun(const vec &x) { m.note(0, x, 0); return R.S.f(x); }
	mat jac(const vec &x) { m.note(0, x, 1); return R.S.j(x); }
};
/// As two function objects.
struct RootF { RootProblem R; Mem m; vec operator()(const vec &x) { m.note(0, x, 0); return R.S.f(x); } };
struct RootJ { RootProblem R; Mem m; mat operator()(const vec &x) { m.note(0, x, 1); return R.S.j(x); } };
/// As the slope of a differential equation at a time.
struct RootOde {
	typedef mat jac_type;
	RootProblem R; Mem m; double T;
	vec fun(double t, const vec &x) { m.note(0, x, 0); vec r = R.S.f(x); if (!same_bits(t, T)) r.fill(NAN); return r; }
	mat jac(double t, const vec &x) { m.note(0, x, 1); mat r = R.S.j(x); if (!same_bits(t, T)) r.fill(NAN); return r; }
};

struct RootOutcome { std::string thrown; vec x; mat J; int conv = -1, iters = -1; double res = 0; Record own, all; };

template <typename F> void solve(F &f, int what, const vec &x0, const newton::options &o, bool quiet, double h, RootOutcome &r)
{
	newton::status st;
	try {
		if (what == 0) { r.x = newton::newton_iterate(f, x0, o, st, quiet); }
		else if (what == 1) { r.x = newton::broyden_iterate(f, x0, o, st, quiet); }
		else { r.J = newton::approx_jacobi_matrix(x0, f, h); return; }
		r.conv = st.conv_status; r.iters = st.iters; r.res = st.res;
	}
	catch (const Thrown &t) { r.thrown = "own " + std::to_string(t.call); }
	catch (const BudgetExceeded &) { throw; }
	catch (const std::runtime_error &t) { r.thrown = std::string("standard ") + t.what(); }
	catch (int i) { r.thrown = "int " + std::to_string(i); }
}

static const char *root_forms[] = {"plain", "base class", "two functions", "slope of an equation"};
static RootOutcome solve_as(int form, const RootProblem &R, int what, const vec &x0, const newton::options &o, bool quiet, double h)
{
	outside = Record(); on_copies = 0;
	RootOutcome r;
	switch (form) {
	case 0: { RootPlain f; f.R = R; solve(f, what, x0, o, quiet, h, r); r.own = f.m.own; break; }
	case 1: { RootDerived f; f.R = R; RootBase &b = f; solve(b, what, x0, o, quiet, h, r); r.own = f.m.own; break; }
	case 2: {
		// Two objects, each of which has to see its calls itself.
		RootF F; RootJ J;
		F.R = J.R = R;
		newton::newton_lambda_wrapper<RootF, RootJ, mat> w(F, J);
		solve(w, what, x0, o, quiet, h, r);
		r.own = outside; r.own.calls = F.m.own.calls + J.m.own.calls;
		break; }
	default: {
		RootOde f; f.R = R; f.T = 0.3 + h;
		newton::newton_functor_wrapper<RootOde> w(f, f.T);
		solve(w, what, x0, o, quiet, h, r); r.own = f.m.own; break; }
	}
	r.all = outside;
	return r;
}

static std::string differ(const RootOutcome &a, const RootOutcome &b)
{
	std::ostringstream o;
	auto eq = [](double x, double y) { return same_bits(x, y) || (x != x && y != y); };
	if (a.conv != b.conv) { o << "status " << a.conv << " and " << b.conv; return o.str(); }
	if (a.iters != b.iters) { o << "iterations " << a.iters << " and " << b.iters; return o.str(); }
	if (!eq(a.res, b.res)) { o << "residual " << a.res << " and " << b.res; return o.str(); }
	if (a.x.n_elem != b.x.n_elem || a.J.n_elem != b.J.n_elem) return "sizes";
	for (size_t i = 0; i < a.x.n_elem; ++i) if (!eq(a.x(i), b.x(i))) return "roots " + show(a.x) + " and " + show(b.x);
	for (size_t i = 0; i < a.J.n_elem; ++i) if (!eq(a.J(i), b.J(i))) return "Jacobi matrices";
	return "";
}

struct RootSetup { RootProblem R; vec x0; newton::options o; bool quiet; int what; double h; std::string name; };
static void setup(Source &s, Case &c, RootSetup &u)
{
	switch (s.below(4)) {
	case 0: u.R = mild_system(s, 1 + s.below(5), 0.3, s.flag()); break;
	case 1: u.R = quadratic_system(s, 1 + s.below(5), 0.5); break;
	case 2: u.R = linear_system(s, 1 + s.below(5)); break;
	default: u.R = wild_system(s); break;
	}
	u.x0 = rand_vec(s, u.R.n, 2);
	u.what = s.below(3);
	u.name = std::vector<std::string>{"Newton", "Broyden", "finite differences"}[u.what];
	c.desc << u.name << " " << u.R.what << " n=" << u.R.n << " from " << show(u.x0);
	u.o = rand_nopts(s, u.quiet, c);
	u.o.maxit = 1 + s.below(30);
	u.h = s.logreal(1e-5, 0.1);
	c.label(u.name);
}

PROP(root_finders, 20000, 600000,
     "Newton and Broyden iteration and finite-difference Jacobians of a system given as an ordinary object, through a base class, as two functions in the library's wrapper, or as the slope of "
     "an equation at a fixed time in the library's other wrapper: bitwise the same result, and the object itself has recorded every call. Non-trivial: another form than the ordinary one.")
{
	RootSetup u; setup(s, c, u);
	int form = s.below(4);
	c.desc << ", " << root_forms[form]; c.label(root_forms[form]);
	c.nontrivial = form > 0;
	throw_at = -1;
	RootOutcome a = solve_as(0, u.R, u.what, u.x0, u.o, u.quiet, u.h), b = solve_as(form, u.R, u.what, u.x0, u.o, u.quiet, u.h);
	for (const RootOutcome *o : {&a, &b})
		CHECK(o->own.calls == o->all.calls && o->own.hash == o->all.hash, u.name << ", " << root_forms[o == &a ? 0 : form] << ": the functor recorded " << o->own.calls << " of " << o->all.calls << " calls");
	std::string d = differ(a, b);
	CHECK(d.empty(), u.name << ": " << root_forms[form] << " and " << root_forms[0] << " differ: " << d);
	CHECK(a.all.hash == b.all.hash, u.name << ": " << root_forms[form] << " is called elsewhere than " << root_forms[0]);
}

PROP(root_exceptions, 12000, 400000,
     "The same, throwing at a random call: the caller gets that exception, no further call is made, and a repetition without it gives bitwise the result of before. Non-trivial: not the first call.")
{
	RootSetup u; setup(s, c, u);
	throw_at = -1;
	RootOutcome a = solve_as(0, u.R, u.what, u.x0, u.o, u.quiet, u.h);
	int form = s.below(4);
	throw_kind = s.below(3);
	throw_at = 1 + s.below(a.all.calls);
	long at = throw_at;
	c.desc << ", " << root_forms[form] << " throws " << throw_kind << " at call " << at << " of " << a.all.calls;
	c.nontrivial = at > 1;
	RootOutcome b = solve_as(form, u.R, u.what, u.x0, u.o, u.quiet, u.h);
	throw_at = -1;
	std::string want = throw_kind == 0 ? "own " + std::to_string(at) : throw_kind == 1 ? "standard call " + std::to_string(at) : "int " + std::to_string(at);
	CHECK(b.thrown == want, u.name << ", " << root_forms[form] << ": thrown '" << want << "', caught '" << b.thrown << "'");
	CHECK(b.all.calls == at, u.name << ": " << b.all.calls << " calls, call " << at << " threw");
	std::string d = differ(a, solve_as(0, u.R, u.what, u.x0, u.o, u.quiet, u.h));
	CHECK(d.empty(), u.name << ": differs after an exception: " << d);
}

int main(int argc, char **argv) { return pbt_main(argc, argv, "C29"); }
