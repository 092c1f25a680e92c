#include "sx.hpp"
#include <cmath>
#include <sstream>
using namespace poly;
namespace poly { Rules rules; size_t termLimit = 60000; }

static const mpq_class PI64(3.14159265358979323846);

int Engine::realVar(const std::string& name) { return newVar(ctx.real_sort(), name); }

static z3::expr rconst(z3::context& c, const mpq_class& q) { return c.real_val(q.get_str().c_str()); }

z3::expr Engine::polyExpr(const Poly& p) {
	if(p.t.empty()) return ctx.real_val(0);
	z3::expr_vector sum(ctx);
	for(auto& x : p.t) {
		z3::expr_vector f(ctx);
		if(x.second != 1 || x.first.empty()) f.push_back(rconst(ctx, x.second));
		for(char32_t c : x.first) for(unsigned i = 0; i < mexp(c); ++i) f.push_back(vars[mvar(c)].e);
		if(f.size() == 1) sum.push_back(f[0]);
		else {
			std::vector<Z3_ast> a; for(unsigned i = 0; i < f.size(); ++i) a.push_back(f[i]);
			sum.push_back(z3::expr(ctx, Z3_mk_mul(ctx, a.size(), a.data())));
		}
	}
	if(sum.size() == 1) return sum[0];
	std::vector<Z3_ast> a; for(unsigned i = 0; i < sum.size(); ++i) a.push_back(sum[i]);
	return z3::expr(ctx, Z3_mk_add(ctx, a.size(), a.data()));
}
// The value of an integer. Sums and products that cannot wrap around on this path are sums and products of the
// values, everything else becomes a variable that is tied to the bits.
Rat Engine::intReal(State& s, const z3::expr& e, bool sg) {
	unsigned w = e.get_sort().bv_size();
	if(e.is_numeral()) {
		mpz_class z(Z3_get_numeral_string(ctx, e));
		if(sg && mpz_tstbit(z.get_mpz_t(), w - 1)) z -= mpz_class(1) << w;
		return Rat(mpq_class(z));
	}
	auto wide = [&](const z3::expr& x, unsigned n) { return sg ? z3::sext(x, n) : z3::zext(x, n); };
	switch(e.decl().decl_kind()) {
	case Z3_OP_SIGN_EXT:
		if(sg) return intReal(s, e.arg(0), true);
		break;
	case Z3_OP_ZERO_EXT: return intReal(s, e.arg(0), false);
	case Z3_OP_CONCAT:
		if(e.arg(0).is_numeral() && e.num_args() == 2 && e.arg(0).simplify().get_numeral_uint64() == 0) return intReal(s, e.arg(1), false);
		break;
	case Z3_OP_ITE: return intReal(s, decide(s, e.arg(0)) ? e.arg(1) : e.arg(2), sg);
	case Z3_OP_BADD: case Z3_OP_BMUL: case Z3_OP_BSUB: case Z3_OP_BNEG: {
		auto k = e.decl().decl_kind();
		unsigned n = e.num_args(), more = k == Z3_OP_BMUL ? w * (n - 1) : 8;
		if(k == Z3_OP_BMUL && n > 2) break;
		auto leaf = [&](unsigned i) { return wide(e.arg(i), more); };
		z3::expr x = leaf(0);
		if(k == Z3_OP_BNEG) x = -x;
		for(unsigned i = 1; i < n; ++i) x = k == Z3_OP_BADD ? x + leaf(i) : k == Z3_OP_BSUB ? x - leaf(i) : x * leaf(i);
		if(check(s, x != wide(e, more), nullptr, std::min(opt.solverTimeout, 3000u)) != UNSAT) break;
		Rat r = intReal(s, e.arg(0), sg);
		if(k == Z3_OP_BNEG) return rneg(r);
		for(unsigned i = 1; i < n; ++i) { Rat o = intReal(s, e.arg(i), sg); r = k == Z3_OP_BMUL ? rmul(r, o) : radd(r, o, k == Z3_OP_BSUB ? -1 : 1); }
		return r;
	}
	default: break;
	}
	auto key = std::make_pair(Z3_get_ast_id(ctx, e), sg);
	auto it = intMemo.find(key);
	if(it == intMemo.end()) {
		int v = realVar("int");
		keep.push_back(e);
		z3::expr i(ctx, Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, e, sg)));
		mpz_class lo = sg ? mpz_class(-(mpz_class(1) << (w - 1))) : mpz_class(0), hi = lo + (mpz_class(1) << w) - 1;
		vars[v].axioms.push_back(vars[v].e == i);
		vars[v].axioms.push_back(vars[v].e >= rconst(ctx, mpq_class(lo)) && vars[v].e <= rconst(ctx, mpq_class(hi)));
		if(!sg) nonnegVars.insert(v);
		it = intMemo.emplace(key, v).first;
	}
	return Rat(Poly::var(it->second));
}
// polynomials whose terms are all non-negative by shape
bool Engine::nonneg(const Poly& p) {
	for(auto& x : p.t) {
		if(x.second < 0) return false;
		for(char32_t c : x.first) if(mexp(c) % 2 && !nonnegVars.count(mvar(c))) return false;
	}
	return true;
}
static bool strictlyPos(const Poly& p) { return !p.zero() && p.t.back().first.empty() && p.t.back().second > 0; }

z3::expr Engine::ratSign(const Rat& r, int op) {
	z3::expr zero = ctx.real_val(0);
	if(r.isConst()) {
		mpq_class c = r.num.constant();
		return ctx.bool_val(op == 0 ? c == 0 : op == 1 ? c < 0 : c <= 0);
	}
	if(op == 0) { // split off the constant/monomial content: a product is zero iff a factor is
		Poly p = r.num; monic(p);
		return polyExpr(p) == zero;
	}
	Poly n = r.num;
	for(auto& d : r.den) if(d.second % 2 && !(nonneg(d.first))) n = mul(n, d.first);
	if(nonneg(n)) { if(op == 1) return ctx.bool_val(false); return polyExpr(n) == zero; }
	if(nonneg(neg(n))) { if(op == 2) return ctx.bool_val(true); return polyExpr(n) != zero; }
	// scale to unit leading coefficient
	mpq_class c = n.t[0].second; if(c < 0) c = -c;
	n = scale(n, 1 / c);
	return op == 1 ? polyExpr(n) < zero : polyExpr(n) <= zero;
}
Rat Engine::absPoly(State& s, const Poly& p0) {
	Poly p = p0;
	if(p.zero()) return Rat(p);
	if(nonneg(p)) return Rat(p);
	if(nonneg(neg(p))) return Rat(neg(p));
	if(opt.absFork) return decide(s, ratSign(Rat(p), 1)) ? Rat(neg(p)) : Rat(p);
	{ // the path may determine the sign
		int known = 0;
		if(s.forcedPos < s.forced.size()) known = s.forced[s.forcedPos++];
		else if(check(s, ratSign(Rat(p), 1), nullptr, opt.feasTimeout) == UNSAT) known = 1;
		else if(check(s, ratSign(Rat(neg(p)), 1), nullptr, opt.feasTimeout) == UNSAT) known = 2;
		s.made.push_back(known);
		if(known) return Rat(known == 1 ? p : neg(p));
	}
	mpq_class c = monic(p); if(c < 0) c = -c;
	// monomial: product of abs
	auto it = absMemo.find(p);
	int v;
	if(it == absMemo.end()) {
		v = realVar("abs");
		Poly sq = mul(p, p);
		absMemo[p] = v;
		nonnegVars.insert(v);
		vars[v].axioms.push_back(vars[v].e == z3::ite(polyExpr(p) >= 0, polyExpr(p), -polyExpr(p)));
		rules.sq[v] = sq;
	} else v = it->second;
	return Rat(scale(Poly::var(v), c));
}
Rat Engine::absRat(State& s, const Rat& r) {
	if(r.den.empty()) return absPoly(s, r.num);
	Rat q = absPoly(s, r.num);
	for(auto& d : r.den) {
		if(d.second % 2 == 0 || nonneg(d.first)) addDen(q, d.first, d.second);
		else { Rat a = absPoly(s, d.first); addDen(q, a.num, 1); addDen(q, d.first, d.second - 1); }
	}
	return norm(q);
}
bool Engine::sqrtRat(State& s, const Rat& r, Rat& out) {
	if(r.num.zero()) { out = r; return true; }
	if(!nonneg(r.num) || std::any_of(r.den.begin(), r.den.end(), [&](auto& d) { return d.second % 2 && !nonneg(d.first); })) {
		if(decide(s, ratSign(r, 1))) return false;
	}
	// sqrt(n/d) = sqrt(n*d')/|d''|
	Poly n = r.num;
	Rat res(mpq_class(1));
	for(auto& d : r.den) {
		if(d.second % 2) n = mul(n, d.first);
		unsigned e = (d.second + 1) / 2; // d^(2e) divides
		Rat a = e % 2 ? absPoly(s, d.first) : Rat(d.first);
		if(e % 2) { addDen(res, a.num, 1); if(e > 1) addDen(res, d.first, e - 1); }
		else addDen(res, d.first, e);
	}
	res = norm(res);
	// n: pull out square constant and even monomial content
	mpq_class lc = n.t[0].second; bool negl = lc < 0; if(negl) lc = -lc;
	mpq_class root;
	{
		// largest square factor handling: only perfect squares
		if(qsqrt(lc, root)) n = scale(n, 1 / lc); else { // normalise c = c' * k^2 by denominators
			mpz_class den = lc.get_den();
			mpq_class f(1); f = mpq_class(1, 1); root = mpq_class(1) / mpq_class(den);
			n = scale(n, mpq_class(den * den));
		}
	}
	Mono g = n.t[0].first;
	for(auto& x : n.t) { Mono ng; for(char32_t a : g) for(char32_t b : x.first) if(mvar(a) == mvar(b)) ng.push_back(mk(mvar(a), std::min(mexp(a), mexp(b)))); g = ng; }
	Mono half, full;
	for(char32_t c : g) if(mexp(c) >= 2) { half.push_back(mk(mvar(c), mexp(c) / 2)); full.push_back(mk(mvar(c), mexp(c) / 2 * 2)); }
	Rat pref(root);
	if(!half.empty()) {
		Poly fp, q; fp.t.push_back({full, mpq_class(1)});
		if(divExact(n, fp, q)) { n = q; for(char32_t c : half) { Rat a = mexp(c) % 2 ? absPoly(s, Poly::var(mvar(c))) : Rat(Poly::var(mvar(c))); for(unsigned i = 0; i < mexp(c); ++i) pref = rmul(pref, (mexp(c) % 2 && i == 0) ? a : (mexp(c) % 2 ? Rat(Poly::var(mvar(c))) : a)); } }
	}
	Rat core;
	Poly q;
	if(n.isConst() && qsqrt(n.constant(), root)) core = Rat(root);
	else if(polySqrt(n, q)) core = absPoly(s, q);
	else {
		auto it = sqrtMemo.find(n);
		int v;
		if(it == sqrtMemo.end()) {
			v = realVar("sqrt");
			sqrtMemo[n] = v;
			nonnegVars.insert(v);
			vars[v].axioms.push_back(vars[v].e * vars[v].e == polyExpr(n));
			vars[v].axioms.push_back(vars[v].e >= 0);
			rules.sq[v] = n;
		} else v = it->second;
		core = Rat(Poly::var(v));
	}
	out = rmul(rmul(core, pref), res);
	return true;
}
static void angleMul(long n, const Rat& c, const Rat& s, Rat& cn, Rat& sn) {
	bool ng = n < 0; if(ng) n = -n;
	cn = Rat(mpq_class(1)); sn = Rat(mpq_class(0));
	for(long i = 0; i < n; ++i) {
		Rat c2 = radd(rmul(cn, c), rmul(sn, s), -1), s2 = radd(rmul(sn, c), rmul(cn, s));
		cn = c2; sn = s2;
	}
	if(ng) sn = rneg(sn);
}
std::string Engine::ratStr(const Rat& r) {
	std::ostringstream o;
	auto pp = [&](const Poly& p) { if(p.zero()) o << "0"; for(auto& x : p.t) { o << "+" << x.second; for(char32_t c : x.first) { o << "*v" << mvar(c) << ":" << vars[mvar(c)].name; if(mexp(c) > 1) o << "^" << mexp(c); } } };
	o << "("; pp(r.num); o << ")";
	for(auto& d : r.den) { o << "/("; pp(d.first); o << ")^" << d.second; }
	return o.str();
}
void Engine::sincos(State& st, const Rat& r, Rat& sn, Rat& cs) {
	auto fresh = [&](const std::string& nm) {
		AngleBase b;
		int c = realVar("cos_" + nm), s = realVar("sin_" + nm);
		vars[c].axioms.push_back(vars[c].e * vars[c].e + vars[s].e * vars[s].e == 1);
		vars[s].axioms.push_back(vars[c].e * vars[c].e + vars[s].e * vars[s].e == 1);
		rules.sq[c] = add(Poly(1L), mul(Poly::var(s), Poly::var(s)), -1);
		b.c = Rat(Poly::var(c)); b.s = Rat(Poly::var(s));
		return b;
	};
	if(r.den.empty()) {
		bool ok = true;
		Rat C(mpq_class(1)), S(mpq_class(0));
		for(auto& t : r.num.t) {
			mpq_class q = t.second;
			Rat c1, s1;
			if(t.first.empty()) {
				mpq_class k = q / (PI64 / 2);
				double kd = k.get_d();
				if(std::fabs(kd - std::round(kd)) < 1e-6 && std::fabs(kd) < 64) { // multiple of pi/2
					long n = std::lround(kd);
					angleMul(n, Rat(mpq_class(0)), Rat(mpq_class(1)), c1, s1);
					Rat C2 = radd(rmul(C, c1), rmul(S, s1), -1), S2 = radd(rmul(S, c1), rmul(C, s1));
					C = C2; S = S2;
					continue;
				}
			}
			auto it = angles.find(t.first);
			if(it == angles.end()) {
				mpq_class unit(1, 2);
				mpq_class n = q / unit;
				if(n.get_den() != 1) unit = mpq_class(1) / mpq_class(q.get_den() * 2);
				AngleBase b = fresh("a");
				b.unit = unit;
				if(t.first.size() == 1 && mexp(t.first[0]) == 1) b.var = mvar(t.first[0]);
				it = angles.emplace(t.first, b).first;
			}
			mpq_class n = q / it->second.unit;
			if(n.get_den() != 1 || abs(n) > 24) { ok = false; break; }
			angleMul(n.get_num().get_si(), it->second.c, it->second.s, c1, s1);
			Rat C2 = radd(rmul(C, c1), rmul(S, s1), -1), S2 = radd(rmul(S, c1), rmul(C, s1));
			C = C2; S = S2;
		}
		if(ok) { cs = C; sn = S; return; }
	}
	std::string key = ratStr(r);
	auto it = opaqueAngles.find(key);
	if(it == opaqueAngles.end()) it = opaqueAngles.emplace(key, fresh("o")).first;
	cs = it->second.c; sn = it->second.s;
}
Val Engine::realDiv(State& s, const Val& a, const Val& b, unsigned w) {
	Rat y = toRat(b);
	if(y.isConst()) { if(y.num.zero()) return vundef(w); return vreal(w, rdiv(toRat(a), y)); }
	if(!strictlyPos(y.num) || !nonneg(y.num))
		if(decide(s, ratSign(y, 0))) return vundef(w);
	return vreal(w, rdiv(toRat(a), y));
}
Val Engine::realFn(State& s, const std::string& fn, const std::vector<Val>& a, unsigned w) {
	for(auto& v : a) if(isUndef(v)) return vundef(w);
	Rat x = toRat(a[0]);
	auto angleVar = [&](const Rat& c, const Rat& sn, const std::string& nm) {
		int v = realVar(nm);
		AngleBase b; b.unit = 1; b.c = c; b.s = sn; b.var = v;
		// half angles (acos: angle in [0, pi])
		if(nm == "acos") {
			Rat one(mpq_class(1)), half(mpq_class(1, 2)), ch, sh;
			if(sqrtRat(s, rmul(radd(one, c), half), ch) && sqrtRat(s, rmul(radd(one, c, -1), half), sh)) {
				// keep full angle exact: unit 1/2 with cos/sin of the half angle
				b.unit = mpq_class(1, 2); b.c = ch; b.s = sh;
			}
		}
		angles[Mono(1, mk(v, 1))] = b;
		return vreal(w, Rat(Poly::var(v)));
	};
	Rat one(mpq_class(1));
	if(fn == "fabs") return vreal(w, absRat(s, x));
	if(fn == "sqrt") { Rat r; if(!sqrtRat(s, x, r)) return vundef(w); return vreal(w, r); }
	if(fn == "sin" || fn == "cos" || fn == "tan") {
		Rat sn, cs; sincos(s, x, sn, cs);
		if(fn == "sin") return vreal(w, sn);
		if(fn == "cos") return vreal(w, cs);
		return realDiv(s, vreal(w, sn), vreal(w, cs), w);
	}
	if(fn == "acos" || fn == "asin") {
		// domain
		Rat sq = radd(one, rmul(x, x), -1);
		Rat r; if(!sqrtRat(s, sq, r)) return vundef(w);
		std::string key = fn + ratStr(x);
		auto it = opaqueFn.find(key);
		if(it != opaqueFn.end()) return vreal(w, Rat(Poly::var(it->second)));
		Val v = fn == "acos" ? angleVar(x, r, "acos") : angleVar(r, x, "asin");
		opaqueFn[key] = mvar(rat(v).num.t[0].first[0]);
		return v;
	}
	if(fn == "atan2") {
		Rat y = x, xx = toRat(a[1]);
		Rat q = radd(rmul(y, y), rmul(xx, xx)), r;
		if(!q.isConst() && decide(s, ratSign(q, 0))) return vreal(w, Rat(mpq_class(0)));
		if(q.isConst() && q.num.zero()) return vreal(w, Rat(mpq_class(0)));
		sqrtRat(s, q, r);
		Rat c = rdiv(xx, r), sn = rdiv(y, r);
		std::string key = "atan2" + ratStr(c) + ratStr(sn);
		auto it = opaqueFn.find(key);
		if(it != opaqueFn.end()) return vreal(w, Rat(Poly::var(it->second)));
		Val v = angleVar(c, sn, "atan2");
		opaqueFn[key] = mvar(rat(v).num.t[0].first[0]);
		return v;
	}
	if(fn == "pow") {
		Rat e = toRat(a[1]);
		if(e.isConst()) {
			mpq_class q = e.num.constant();
			if(q.get_den() == 1 && abs(q) <= 8) {
				long n = q.get_num().get_si(); Rat r = one;
				for(long i = 0; i < std::labs(n); ++i) r = rmul(r, x);
				return n >= 0 ? vreal(w, r) : realDiv(s, vreal(w, one), vreal(w, r), w);
			}
			if(q == mpq_class(1, 2)) { Rat r; if(!sqrtRat(s, x, r)) return vundef(w); return vreal(w, r); }
		}
	}
	if(fn == "fmin" || fn == "fmax" || fn == "minnum" || fn == "maxnum") {
		Rat y = toRat(a[1]);
		bool lt = decide(s, ratSign(radd(x, y, -1), 1));
		return vreal(w, (fn == "fmin" || fn == "minnum") == lt ? x : y);
	}
	if(fn == "hypot") {
		Rat y = toRat(a[1]), r;
		if(!sqrtRat(s, radd(rmul(x, x), rmul(y, y)), r)) return vundef(w);
		return vreal(w, r);
	}
	if((fn == "floor" || fn == "ceil" || fn == "trunc" || fn == "round") && x.isConst()) {
		mpq_class q = x.num.constant();
		mpz_class r;
		if(fn == "round") { mpq_class h = abs(q) + mpq_class(1, 2); mpz_fdiv_q(r.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t()); if(q < 0) r = -r; }
		else if(fn == "floor") mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
		else if(fn == "ceil") mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
		else mpz_tdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
		return vreal(w, Rat(mpq_class(r)));
	}
	if(fn == "fdim") {
		Rat d = radd(x, toRat(a[1]), -1);
		return decide(s, ratSign(d, 1)) ? vreal(w, Rat(mpq_class(0))) : vreal(w, d);
	}
	if(fn == "copysign") {
		Rat y = toRat(a[1]), m = absRat(s, x);
		return vreal(w, decide(s, ratSign(y, 1)) ? rneg(m) : m);
	}
	// uninterpreted
	std::string key = fn; for(auto& v : a) key += "|" + ratStr(toRat(v));
	auto it = opaqueFn.find(key);
	int v = it == opaqueFn.end() ? (opaqueFn[key] = realVar(fn)) : it->second;
	return vreal(w, Rat(Poly::var(v)));
}
// In exact arithmetic rounding to a smaller type is not visible. When a path rounds a value that depends on the
// inputs, a candidate with inputs that need the full precision is left to the replay against the real code.
void Engine::precisionCandidate(State& s, int id) {
	if(precisionSeen.count(id) >= 2) return;
	precisionSeen.insert(id);
	for(auto& x : s.inputs) if(x.kind == 'f' && x.w != 64) return;
	unsigned seed = opt.seed * 7919 + 13;
	auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return (seed >> 16) & 0x7fff; };
	unsigned save = opt.solverTimeout;
	opt.solverTimeout = std::min(save, 1500u);
	std::shared_ptr<Model> best, m;
	z3::expr cs = ctx.bool_val(true);
	auto attempt = [&](const z3::expr& c) {
		std::shared_ptr<Model> m2;
		if(check(s, cs && c, &m2, opt.solverTimeout, false) != SAT) return false;
		cs = cs && c; best = m2;
		return true;
	};
	attempt(ctx.bool_val(true));
	for(auto& kv : angles) if(kv.second.var >= 0 && vars[kv.second.var].input && kv.second.c.isPoly()) {
		static const int tr[6][2] = {{3, 5}, {5, 13}, {4, 5}, {12, 13}, {-3, 5}, {8, 17}};
		for(int k = 0; k < 3; ++k) { auto& q = tr[rnd() % 6]; if(attempt(polyExpr(kv.second.c.num) == ctx.real_val(q[0], q[1]))) break; }
	}
	for(auto& x : s.inputs) if(x.var >= 0 && vars[x.var].e.is_real()) {
		bool angle = false;
		for(auto& kv : angles) if(kv.second.var == x.var) angle = true;
		if(angle) continue;
		for(int k = 0; k < 6; ++k) {
			int n = (int)(rnd() % 13) + 1, sign = rnd() % 2 ? 1 : -1;
			if(n == 7) n = 8;
			if(attempt(vars[x.var].e == ctx.real_val(sign * n, 7))) break;
		}
	}
	opt.solverTimeout = save;
	if(best) report(s, "precision", assertNames[id], "a rounded value may get here", *best);
}
// decides a == b in exact arithmetic
void Engine::assertEqReal(State& s, const Val& a, const Val& b, int id, bool wide) {
	auto& st = asserts[assertNames[id]];
	st.reached++;
	s.trace.push_back(id);
	if(s.lossy && wide) precisionCandidate(s, id);
	auto giveModel = [&](const z3::expr& c, std::shared_ptr<Model>& m) { return check(s, c, &m, opt.solverTimeout, false); };
	std::shared_ptr<Model> m;
	if(isUndef(a) || isUndef(b)) {
		// an undefined result (division by zero, square root of a negative) on a feasible path
		Res r = giveModel(ctx.bool_val(true), m);
		if(r == UNSAT) throw PathEnd{};
		if(r == SAT) { st.failed++; report(s, "assert", assertNames[id], "undefined value (division by zero or invalid square root)", *m); }
		else { st.undecided++; undecided.push_back(assertNames[id] + ": undefined value on a path the solver could not exclude"); }
		throw PathEnd{};
	}
	Rat d = radd(toRat(a), toRat(b), -1);
	if(d.num.zero()) { st.normal++; return; }
	if(getenv("SX_DEBUG")) fprintf(stderr, "assert_eq %s: diff %s\n", assertNames[id].c_str(), ratStr(d).substr(0, 2000).c_str());
	z3::expr ne = !ratSign(d, 0);
	// try to obtain a well separated counterexample with moderate inputs first
	z3::expr bounded = ne;
	{
		z3::expr cs = ctx.bool_val(true);
		for(auto& x : s.inputs) if(x.var >= 0 && vars[x.var].e.is_real()) cs = cs && vars[x.var].e <= 8 && vars[x.var].e >= -8;
		Rat lo = radd(d, Rat(mpq_class(1, 8)), -1), hi = radd(d, Rat(mpq_class(1, 8)));
		bounded = cs && (!ratSign(lo, 1) || ratSign(hi, 2));
	}
	// instantiations with small rationals
	bool found = false;
	unsigned seed = opt.seed * 7919 + 13;
	auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return (seed >> 16) & 0x7fff; };
	bool mayHold = false;
	{
		Res r = giveModel(ne, m);
		if(r == UNSAT) { st.solver++; return; }
		mayHold = r == UNK;
		if(r == SAT) found = true;
	}
	std::shared_ptr<Model> best = found ? m : nullptr;
	unsigned save = opt.solverTimeout;
	opt.solverTimeout = std::min(save, 3000u);
	std::shared_ptr<Model> m2;
	bool sep = false;
	for(int k = 0; k < 12 && !sep; ++k) {
		z3::expr cs = bounded;
		for(auto& x : s.inputs) if(x.var >= 0 && vars[x.var].e.is_real()) {
			bool angle = false;
			for(auto& kv : angles) if(kv.second.var == x.var) angle = true;
			if(angle) continue;
			if(k >= 8 && rnd() % 2) continue;
			long n = (long)(rnd() % 9) - 4; long den = k % 2 ? 2 : 1;
			cs = cs && vars[x.var].e == ctx.real_val((int)n, (int)den);
		}
		for(auto& kv : angles) if(kv.second.var >= 0 && vars[kv.second.var].input && kv.second.c.isPoly() && k < 10) {
			static const int tr[6][2] = {{3, 5}, {5, 13}, {4, 5}, {12, 13}, {-3, 5}, {8, 17}};
			auto& q = tr[rnd() % 6];
			cs = cs && polyExpr(kv.second.c.num) == ctx.real_val(q[0], q[1]);
		}
		if(giveModel(cs, m2) == SAT) { sep = true; best = m2; }
	}
	if(!sep && giveModel(bounded, m2) == SAT) { best = m2; sep = true; }
	opt.solverTimeout = save;
	if(best) {
		st.failed++;
		report(s, "assert", assertNames[id], "values differ (exact arithmetic)", *best, sep ? &bounded : &ne);
		throw PathEnd{};
	}
	(void)mayHold;
	st.undecided++;
	undecided.push_back(assertNames[id]);
	throw PathEnd{};
}
