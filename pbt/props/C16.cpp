// C16: the history buffer, against a deque.
#include "../engine.hpp"
#include "rehuel.hpp"
#include "cyclic_buffer.hpp"
#include <deque>
#include <memory>
using namespace pbt;

template <typename T> T value(long k);
template <> int value<int>(long k) { return (int)k; }
template <> double value<double>(long k) { return k + 0.25; }
template <> std::string value<std::string>(long k) { return std::string(k % 40, 'x') + std::to_string(k); }
template <> arma::vec value<arma::vec>(long k) { arma::vec v(1 + k % 20); v.fill((double)k); return v; }
template <> std::vector<int> value<std::vector<int>>(long k) { return std::vector<int>(1 + k % 7, (int)k); }

template <typename T> bool eq(const T &a, const T &b) { return a == b; }
bool eq(const arma::vec &a, const arma::vec &b)
{ return a.n_elem == b.n_elem && std::memcmp(a.memptr(), b.memptr(), a.n_elem*sizeof(double)) == 0; }

template <typename T> struct Pair {
	cyclic_buffer<T> b;
	std::deque<T> m; ///< newest first
	size_t period;
	Pair() : period(0) {}
	Pair(size_t p) : b(p), period(p) {}
	Pair(const Pair &o) : b(o.b), m(o.m), period(o.period) {}
	void push(const T &t) { m.push_front(t); if (m.size() > period) m.pop_back(); }
};

template <typename T> void compare(Pair<T> &p, const char *after)
{
	const cyclic_buffer<T> &cb = p.b;
	CHECK(cb.period() == p.period, after << ": period " << cb.period() << " instead of " << p.period);
	CHECK(cb.size() == p.m.size(), after << ": size " << cb.size() << " instead of " << p.m.size());
	CHECK(cb.empty() == p.m.empty(), after << ": empty() is " << cb.empty());
	for (size_t i = 0; i < p.m.size(); ++i) {
		CHECK(eq(T(cb[i]), p.m[i]), after << ": element " << i << " of " << p.m.size() << " (const)");
		CHECK(eq(T(p.b[i]), p.m[i]), after << ": element " << i << " of " << p.m.size());
	}
	size_t k = 0;
	for (auto it = p.b.begin(); it != p.b.end(); ++it, ++k) {
		CHECK(k < p.m.size(), after << ": iteration goes on after " << p.m.size() << " elements");
		CHECK(eq(T(*it), p.m[k]), after << ": element " << k << " of the iteration");
	}
	CHECK(k == p.m.size(), after << ": iteration ends after " << k << " of " << p.m.size() << " elements");
	CHECK((p.b.begin() == p.b.end()) == p.m.empty(), after << ": begin() == end()");
}

template <typename T> void history(Source &s, Case &c, const char *type)
{
	std::vector<std::unique_ptr<Pair<T>>> v;
	auto period = [&] { return s.chance(1, 12) ? 1 + s.below(40) : 1 + s.below(6); };
	if (s.chance(1, 6)) v.emplace_back(new Pair<T>());
	else v.emplace_back(new Pair<T>(period()));
	c.desc << type << " period " << v[0]->period << ":";
	int n = s.chance(1, 8) ? s.below(200) : s.below(40);
	long next = 1;
	int wraps = 0, others = 0;
	for (int i = 0; i < n; ++i) {
		size_t a = s.below(v.size());
		Pair<T> &p = *v[a];
		std::ostringstream op;
		if (!p.period && s.flag()) { // default constructed: give it a period first
			size_t q = period();
			p.b.resize(q); p.period = q;
			op << "resize " << a;
		} else if (!p.period) { v.emplace_back(new Pair<T>(period())); op << "new"; if (s.flag()) { p.b = v.back()->b; p.period = v.back()->period; } }
		else
		switch (s.below(12)) {
		case 0: // copy
			if (v.size() < 4) { v.emplace_back(new Pair<T>(p)); op << "copy " << a; ++others; break; }
			// fallthrough
		case 1: { // assign, also to itself
			size_t b = s.below(v.size());
			v[b]->b = p.b; v[b]->m = p.m; v[b]->period = p.period;
			op << "assign " << b << "=" << a; ++others;
			break; }
		case 2: { // write through the subscript
			if (p.m.empty()) continue;
			size_t k = s.below(p.m.size());
			T t = value<T>(next++);
			p.b[k] = t; p.m[k] = t;
			op << "write " << a << "[" << k << "]"; ++others;
			break; }
		case 3: { // write through an iterator
			if (p.m.empty()) continue;
			size_t k = s.below(p.m.size());
			T t = value<T>(next++);
			auto it = p.b.begin();
			for (size_t q = 0; q < k; ++q) ++it;
			*it = t; p.m[k] = t;
			op << "write iterator " << a << "+" << k; ++others;
			break; }
		case 4: { // insert one of its own elements
			if (p.m.empty()) continue;
			size_t k = s.below(p.m.size());
			T t = p.m[k];
			p.b.push_back(p.b[k]);
			p.push(t);
			op << "push own " << a << "[" << k << "]"; ++others;
			break; }
		case 5:
			if (s.chance(1, 3)) {
				size_t q = period();
				p.b.resize(q); p.m.clear(); p.period = q;
				op << "resize " << a << " to " << q; ++others;
				break;
			} // fallthrough
		case 6: // a row of insertions
			op << "push row " << a;
			for (int q = s.below(2*p.period + 2); q-- > 0; ) { T t = value<T>(next++); if (p.m.size() == p.period) ++wraps; p.b.push_back(t); p.push(t); }
			break;
		default: {
			T t = value<T>(next++);
			if (p.m.size() == p.period) ++wraps;
			p.b.push_back(t); p.push(t);
			op << "push " << a;
			break; }
		}
		if (i < 12) c.desc << " " << op.str() << ";";
		for (size_t q = 0; q < v.size(); ++q) compare(*v[q], ("after " + op.str() + ", buffer " + std::to_string(q)).c_str());
		if (v.size() > 1 && s.chance(1, 20)) v.erase(v.begin() + s.below(v.size()));
	}
	c.nontrivial = wraps >= 2 && others >= 1;
	c.label(type);
}

#define RULE(T) "Sequences of up to 200 insertions (also of own elements), copies, (self-)assignments, writes through subscript and " \
	"iterator, resizes and destructions on up to 4 buffers of period 1 to 40 of " T ": after each, all accessors of all buffers " \
	"against deques. Non-trivial: elements overwritten twice and another operation than insertion."
PROP(ints, 20000, 600000, RULE("int")) { history<int>(s, c, "int"); }
PROP(vecs, 12000, 400000, RULE("arma::vec")) { history<arma::vec>(s, c, "vec"); }
PROP(strings, 12000, 400000, RULE("std::string")) { history<std::string>(s, c, "string"); }
PROP(others, 10000, 300000, RULE("double or std::vector<int>"))
{ if (s.flag()) history<double>(s, c, "double"); else history<std::vector<int>>(s, c, "vector"); }

int main(int argc, char **argv) { return pbt_main(argc, argv, "C16"); }
