// Exact multivariate polynomials and rational functions over Q, kept in a normal form.
// Used by the `real` mode of symx: every floating value of the executed code is a rational
// function of the symbolic inputs plus defined symbols (square roots, absolute values, sin/cos).
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>

namespace poly {

using Mono = std::u32string; // sorted (var<<8 | exp)
inline uint32_t mvar(char32_t c) { return c >> 8; }
inline uint32_t mexp(char32_t c) { return c & 0xff; }
inline char32_t mk(uint32_t v, uint32_t e) { if(e > 255) throw std::runtime_error("poly: exponent too large"); return (v << 8) | e; }

// lexicographic monomial order; smaller variable id is the more significant one
inline int mcmp(const Mono& a, const Mono& b) {
	size_t n = std::min(a.size(), b.size());
	for(size_t i = 0; i < n; ++i) {
		if(a[i] == b[i]) continue;
		uint32_t va = mvar(a[i]), vb = mvar(b[i]);
		if(va != vb) return va < vb ? 1 : -1;
		return mexp(a[i]) > mexp(b[i]) ? 1 : -1;
	}
	if(a.size() == b.size()) return 0;
	return a.size() > b.size() ? 1 : -1;
}
inline Mono mmul(const Mono& a, const Mono& b) {
	Mono r; r.reserve(a.size() + b.size());
	size_t i = 0, j = 0;
	while(i < a.size() || j < b.size()) {
		if(j == b.size() || (i < a.size() && mvar(a[i]) < mvar(b[j]))) r.push_back(a[i++]);
		else if(i == a.size() || mvar(b[j]) < mvar(a[i])) r.push_back(b[j++]);
		else { r.push_back(mk(mvar(a[i]), mexp(a[i]) + mexp(b[j]))); ++i; ++j; }
	}
	return r;
}
inline bool mdiv(const Mono& a, const Mono& b, Mono& r) {
	r.clear();
	size_t i = 0;
	for(size_t j = 0; j < b.size(); ++j) {
		while(i < a.size() && mvar(a[i]) < mvar(b[j])) r.push_back(a[i++]);
		if(i == a.size() || mvar(a[i]) != mvar(b[j]) || mexp(a[i]) < mexp(b[j])) return false;
		uint32_t e = mexp(a[i]) - mexp(b[j]);
		if(e) r.push_back(mk(mvar(a[i]), e));
		++i;
	}
	while(i < a.size()) r.push_back(a[i++]);
	return true;
}
struct MonoHash { size_t operator()(const Mono& m) const { size_t h = 1469598103934665603ull; for(char32_t c : m) { h ^= c; h *= 1099511628211ull; } return h; } };

struct Poly {
	// descending monomial order, no zero coefficients
	std::vector<std::pair<Mono, mpq_class>> t;
	Poly() = default;
	Poly(const mpq_class& c) { if(c != 0) t.push_back({Mono{}, c}); }
	Poly(long c) : Poly(mpq_class(c)) {}
	static Poly var(uint32_t v) { Poly p; p.t.push_back({Mono(1, mk(v, 1)), mpq_class(1)}); return p; }
	bool zero() const { return t.empty(); }
	bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first.empty()); }
	mpq_class constant() const { return t.empty() ? mpq_class(0) : t[0].second; }
	bool operator==(const Poly& o) const { return t == o.t; }
	bool operator!=(const Poly& o) const { return !(t == o.t); }
	bool operator<(const Poly& o) const { return t < o.t; }
};

struct Rules { // var -> replacement for var^2
	std::unordered_map<uint32_t, Poly> sq;
};
extern Rules rules;
extern size_t termLimit;

struct Acc {
	std::unordered_map<Mono, mpq_class, MonoHash> m;
	void add(const Mono& k, const mpq_class& c) {
		if(c == 0) return;
		auto it = m.find(k);
		if(it == m.end()) m.emplace(k, c);
		else { it->second += c; if(it->second == 0) m.erase(it); }
		if(m.size() > termLimit) throw std::runtime_error("poly: term limit");
	}
	Poly get() {
		Poly p; p.t.reserve(m.size());
		for(auto& kv : m) p.t.push_back({kv.first, kv.second});
		std::sort(p.t.begin(), p.t.end(), [](auto& a, auto& b) { return mcmp(a.first, b.first) > 0; });
		return p;
	}
};

inline Poly add(const Poly& a, const Poly& b, const mpq_class& fb = 1) {
	Poly r; r.t.reserve(a.t.size() + b.t.size());
	size_t i = 0, j = 0;
	while(i < a.t.size() || j < b.t.size()) {
		int c = i == a.t.size() ? -1 : j == b.t.size() ? 1 : mcmp(a.t[i].first, b.t[j].first);
		if(c > 0) r.t.push_back(a.t[i++]);
		else if(c < 0) { r.t.push_back({b.t[j].first, fb * b.t[j].second}); ++j; }
		else { mpq_class s = a.t[i].second + fb * b.t[j].second; if(s != 0) r.t.push_back({a.t[i].first, s}); ++i; ++j; }
	}
	return r;
}
inline Poly neg(const Poly& a) { Poly r = a; for(auto& x : r.t) x.second = -x.second; return r; }
inline Poly scale(const Poly& a, const mpq_class& c) { if(c == 0) return {}; Poly r = a; for(auto& x : r.t) x.second *= c; return r; }

Poly mul(const Poly& a, const Poly& b);

// reduces monomials with an exponent >= 2 of a variable that has a square rule
inline Poly reduce(const Poly& p) {
	if(rules.sq.empty()) return p;
	bool any = false;
	for(auto& x : p.t) for(char32_t c : x.first) if(mexp(c) >= 2 && rules.sq.count(mvar(c))) any = true;
	if(!any) return p;
	Acc acc;
	std::vector<std::pair<Mono, mpq_class>> work(p.t);
	while(!work.empty()) {
		auto [m, c] = work.back(); work.pop_back();
		bool red = false;
		for(size_t i = 0; i < m.size(); ++i) {
			auto it = rules.sq.find(mvar(m[i]));
			if(mexp(m[i]) < 2 || it == rules.sq.end()) continue;
			Mono rest = m;
			uint32_t e = mexp(m[i]) - 2;
			if(e) rest[i] = mk(mvar(m[i]), e); else rest.erase(i, 1);
			for(auto& q : it->second.t) work.push_back({mmul(rest, q.first), c * q.second});
			red = true;
			break;
		}
		if(!red) acc.add(m, c);
		if(work.size() > 4 * termLimit) throw std::runtime_error("poly: reduce limit");
	}
	return acc.get();
}
inline Poly mul(const Poly& a, const Poly& b) {
	if(a.zero() || b.zero()) return {};
	if(a.isConst()) return scale(b, a.constant());
	if(b.isConst()) return scale(a, b.constant());
	Acc acc;
	for(auto& x : a.t) for(auto& y : b.t) acc.add(mmul(x.first, y.first), x.second * y.second);
	return reduce(acc.get());
}
// exact division as polynomials (only syntactic: rules are not used); false when not exact
inline bool divExact(const Poly& a, const Poly& b, Poly& q) {
	if(b.zero()) return false;
	if(b.isConst()) { q = scale(a, 1 / b.constant()); return true; }
	std::map<Mono, mpq_class, std::function<bool(const Mono&, const Mono&)>> r(
		[](const Mono& x, const Mono& y) { return mcmp(x, y) > 0; });
	for(auto& x : a.t) r.emplace(x.first, x.second);
	Poly res;
	Mono m;
	size_t steps = 0;
	while(!r.empty()) {
		if(++steps > 20000) return false;
		auto it = r.begin();
		if(!mdiv(it->first, b.t[0].first, m)) return false;
		mpq_class c = it->second / b.t[0].second;
		res.t.push_back({m, c});
		for(auto& y : b.t) {
			Mono k = mmul(m, y.first);
			auto f = r.find(k);
			mpq_class d = c * y.second;
			if(f == r.end()) r.emplace(k, -d);
			else { f->second -= d; if(f->second == 0) r.erase(f); }
		}
	}
	q = res;
	return true;
}
// square root of a polynomial that is a perfect square
inline bool polySqrt(const Poly& p, Poly& out);

inline bool qsqrt(const mpq_class& c, mpq_class& r) {
	if(c < 0) return false;
	mpz_class n = c.get_num(), d = c.get_den();
	if(!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
	mpz_class sn, sd; mpz_sqrt(sn.get_mpz_t(), n.get_mpz_t()); mpz_sqrt(sd.get_mpz_t(), d.get_mpz_t());
	r = mpq_class(sn, sd); r.canonicalize();
	return true;
}
inline bool polySqrt(const Poly& p, Poly& out) {
	if(p.zero()) { out = {}; return true; }
	mpq_class c0;
	if(!qsqrt(p.t[0].second, c0)) return false;
	Mono m0;
	for(char32_t c : p.t[0].first) { if(mexp(c) % 2) return false; m0.push_back(mk(mvar(c), mexp(c) / 2)); }
	Poly q; q.t.push_back({m0, c0});
	for(size_t it = 0; it <= p.t.size(); ++it) {
		// remainder p - q^2 (without rules)
		Acc acc;
		for(auto& x : p.t) acc.add(x.first, x.second);
		for(auto& x : q.t) for(auto& y : q.t) acc.add(mmul(x.first, y.first), -x.second * y.second);
		Poly r = acc.get();
		if(r.zero()) { out = q; return true; }
		Mono m;
		if(!mdiv(r.t[0].first, m0, m)) return false;
		if(mcmp(m, q.t.back().first) >= 0) return false;
		q.t.push_back({m, r.t[0].second / (2 * c0)});
	}
	return false;
}

// content with sign so that leading coefficient of primitive part is 1
inline mpq_class monic(Poly& p) { mpq_class c = p.t[0].second; p = scale(p, 1 / c); return c; }

struct Rat { // num / prod den_i^e_i ; den_i monic non-constant
	Poly num;
	std::vector<std::pair<Poly, unsigned>> den;
	Rat() = default;
	Rat(const Poly& p) : num(p) {}
	Rat(const mpq_class& c) : num(c) {}
	bool isConst() const { return den.empty() && num.isConst(); }
	bool isPoly() const { return den.empty(); }
};
inline Poly ppow(const Poly& p, unsigned e) { Poly r(1L); for(unsigned i = 0; i < e; ++i) r = mul(r, p); return r; }
inline void cancel(Rat& r) {
	if(r.num.zero()) { r.den.clear(); return; }
	for(size_t i = 0; i < r.den.size();) {
		Poly q;
		bool gone = false;
		while(r.den[i].second && divExact(r.num, r.den[i].first, q)) {
			r.num = q;
			if(--r.den[i].second == 0) { r.den.erase(r.den.begin() + i); gone = true; break; }
		}
		if(!gone) ++i;
	}
}
inline Poly denPoly(const Rat& r) { Poly p(1L); for(auto& d : r.den) p = mul(p, ppow(d.first, d.second)); return p; }
// den with rule variables of even power reduced (s^2 -> poly)
inline void addDen(Rat& r, Poly p, unsigned e) {
	if(p.isConst()) { mpq_class c = p.constant(), f = 1; for(unsigned i = 0; i < e; ++i) f *= c; r.num = scale(r.num, 1 / f); return; }
	mpq_class c = monic(p);
	for(unsigned i = 0; i < e; ++i) r.num = scale(r.num, 1 / c);
	// split off common monomial
	if(p.t.size() >= 1) {
		Mono g = p.t[0].first;
		for(auto& x : p.t) {
			Mono ng;
			for(char32_t a : g) for(char32_t b : x.first) if(mvar(a) == mvar(b)) ng.push_back(mk(mvar(a), std::min(mexp(a), mexp(b))));
			g = ng;
		}
		if(!g.empty() && !(p.t.size() == 1 && g.size() == 1 && mexp(g[0]) == 1)) {
			for(char32_t a : g) addDen(r, Poly::var(mvar(a)), mexp(a) * e);
			Poly gp; gp.t.push_back({g, mpq_class(1)});
			Poly q;
			if(divExact(p, gp, q)) addDen(r, q, e);
			return;
		}
	}
	for(auto& d : r.den) {
		if(d.first == p) { d.second += e; e = 0; break; }
	}
	if(e) {
		// try to express through existing factors
		for(size_t i = 0; i < r.den.size(); ++i) {
			Poly q;
			if(r.den[i].first.t.size() < p.t.size() && r.den[i].first.t.size() > 1 && divExact(p, r.den[i].first, q)) {
				r.den[i].second += e;
				addDen(r, q, e);
				return;
			}
		}
		r.den.push_back({p, e});
	}
	// rule variables: v^2 in the denominator becomes its definition
	for(size_t i = 0; i < r.den.size(); ++i) {
		auto& d = r.den[i].first;
		if(d.t.size() == 1 && d.t[0].first.size() == 1 && r.den[i].second >= 2) {
			auto it = rules.sq.find(mvar(d.t[0].first[0]));
			if(it == rules.sq.end()) continue;
			unsigned k = r.den[i].second / 2;
			r.den[i].second %= 2;
			if(r.den[i].second == 0) r.den.erase(r.den.begin() + i);
			Poly def = it->second;
			addDen(r, def, k);
			return;
		}
	}
}
inline void sortDen(Rat& r) { std::sort(r.den.begin(), r.den.end()); }
inline Rat norm(Rat r) {
	r.num = reduce(r.num);
	cancel(r);
	sortDen(r);
	return r;
}
inline Rat rmul(const Rat& a, const Rat& b) {
	Rat x = a, y = b;
	// cross-cancel before multiplying
	auto cc = [](Poly& n, std::vector<std::pair<Poly, unsigned>>& den) {
		for(size_t i = 0; i < den.size();) {
			Poly q; bool gone = false;
			while(!n.zero() && divExact(n, den[i].first, q)) { n = q; if(--den[i].second == 0) { den.erase(den.begin() + i); gone = true; break; } }
			if(!gone) ++i;
		}
	};
	cc(x.num, y.den); cc(y.num, x.den);
	Rat r;
	r.num = mul(x.num, y.num);
	if(r.num.zero()) return r;
	r.den = x.den;
	for(auto& d : y.den) addDen(r, d.first, d.second);
	return norm(r);
}
inline Rat radd(const Rat& a, const Rat& b, int sign = 1) {
	Rat r;
	if(a.num.zero()) { r = b; if(sign < 0) r.num = neg(r.num); return r; }
	if(b.num.zero()) return a;
	// lcm of factor lists
	auto den = a.den;
	Poly fa(1L), fb(1L);
	for(auto& d : b.den) {
		bool f = false;
		for(auto& e : den) if(e.first == d.first) { f = true; if(d.second > e.second) { fa = mul(fa, ppow(d.first, d.second - e.second)); e.second = d.second; } }
		if(!f) { fa = mul(fa, ppow(d.first, d.second)); den.push_back(d); }
	}
	for(auto& e : den) {
		unsigned have = 0;
		for(auto& d : b.den) if(d.first == e.first) have = d.second;
		if(e.second > have) fb = mul(fb, ppow(e.first, e.second - have));
	}
	r.num = add(mul(a.num, fa), mul(b.num, fb), sign);
	r.den = den;
	return norm(r);
}
// b.num must not be the zero polynomial
inline Rat rdiv(const Rat& a, const Rat& b) {
	Rat inv;
	inv.num = Poly(1L);
	for(auto& d : b.den) inv.num = mul(inv.num, ppow(d.first, d.second));
	addDen(inv, b.num, 1);
	return rmul(a, norm(inv));
}
inline Rat rneg(const Rat& a) { Rat r = a; r.num = neg(r.num); return r; }

} // namespace poly
