#include "sx.hpp"
#include <llvm/IR/Constants.h>
#include <cmath>
using namespace llvm;
using poly::Rat;

static double bitsD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static float bitsF(uint64_t u) { uint32_t x = (uint32_t)u; float d; memcpy(&d, &x, 4); return d; }
static uint64_t dBits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint64_t fBits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

bool Engine::isUndef(const Val& v) {
	if(v.k == KUndef) return true;
	if(v.k == KPieces) for(auto& p : pieces(v)) if(p.v.k == KUndef) return true;
	return false;
}
z3::expr Engine::toBV(const Val& v) {
	switch(v.k) {
	case KInt: return ctx.bv_val((uint64_t)v.u, v.w);
	case KSym: {
		const z3::expr& e = ex(v);
		if(e.is_bool()) return z3::ite(e, ctx.bv_val(1, 1), ctx.bv_val(0, 1));
		if(e.is_fpa()) return z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, e)).simplify();
		return e;
	}
	case KPieces: {
		z3::expr r(ctx); bool first = true;
		for(auto& p : pieces(v)) {
			if(p.v.k == KUndef || p.v.k == KReal) throw Unsupported("integer view of a real/undef value");
			z3::expr x = toBV(p.v).extract((p.off + p.len) * 8 - 1, p.off * 8);
			r = first ? x : z3::concat(x, r);
			first = false;
		}
		return r.simplify();
	}
	default: throw Unsupported("toBV on kind " + std::to_string(v.k));
	}
}
z3::expr Engine::toBool(const Val& v) {
	if(v.k == KInt) return ctx.bool_val(v.u & 1);
	if(v.k == KSym) {
		const z3::expr& e = ex(v);
		if(e.is_bool()) return e;
		return (e == ctx.bv_val(1, 1)).simplify();
	}
	throw Unsupported("toBool on kind " + std::to_string(v.k));
}
z3::expr Engine::toFP(const Val& v, unsigned w) {
	if(v.k == KSym && ex(v).is_fpa()) return ex(v);
	if(v.k == KInt) return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, ctx.bv_val((uint64_t)v.u, w), fsort(w))).simplify();
	return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, toBV(v), fsort(w))).simplify();
}
Rat Engine::toRat(const Val& v) {
	if(v.k == KReal) return rat(v);
	if(v.k == KInt) {
		double d = v.w == 32 ? (double)bitsF(v.u) : bitsD(v.u);
		if(!std::isfinite(d)) throw Unsupported("non-finite constant in real mode");
		return Rat(mpq_class(d));
	}
	throw Unsupported("toRat on kind " + std::to_string(v.k));
}
Val Engine::fromBV(unsigned w, z3::expr e) {
	e = e.simplify();
	if(w <= 64) { uint64_t u; if(e.is_numeral() && Z3_get_numeral_uint64(ctx, e, &u)) return vint(w, u); }
	return vsym(w, e);
}
Val Engine::fromBool(z3::expr e) {
	e = e.simplify();
	if(e.is_true()) return vint(1, 1);
	if(e.is_false()) return vint(1, 0);
	return vsym(1, e);
}
Val Engine::fromFP(unsigned w, z3::expr e) {
	e = e.simplify();
	if(Z3_is_numeral_ast(ctx, e) || Z3_fpa_is_numeral_nan(ctx, e)) {
		if(e.is_fpa() && Z3_get_ast_kind(ctx, e) != Z3_VAR_AST) {
			z3::expr b = z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, e)).simplify();
			uint64_t u; if(b.is_numeral() && Z3_get_numeral_uint64(ctx, b, &u)) return vint(w, u);
			if(Z3_fpa_is_numeral_nan(ctx, e)) return vint(w, w == 32 ? 0x7fc00000u : 0x7ff8000000000000ull);
		}
	}
	return vsym(w, e);
}
std::vector<Piece> Engine::asPieces(const Val& v) {
	if(v.k == KPieces) return pieces(v);
	return {Piece{v, 0, (unsigned)v.w / 8}};
}
Val Engine::normPieces(unsigned bytes, std::vector<Piece> p) {
	std::vector<Piece> q;
	for(auto& x : p) {
		if(!x.len) continue;
		if(!q.empty()) {
			auto& l = q.back();
			if(l.v.k == KUndef && x.v.k == KUndef) { l.len += x.len; l.v = vundef(l.len * 8); l.off = 0; continue; }
			if(l.v.n.p && l.v.n.p == x.v.n.p && l.v.k == x.v.k && l.off + l.len == x.off) { l.len += x.len; continue; }
		}
		q.push_back(x);
	}
	if(q.size() == 1 && q[0].off == 0 && q[0].v.w == bytes * 8) return q[0].v;
	bool allInt = true, bad = false;
	for(auto& x : q) { if(x.v.k != KInt) allInt = false; if(x.v.k == KUndef || x.v.k == KReal) bad = true; }
	if(allInt && bytes <= 8) {
		uint64_t u = 0; unsigned sh = 0;
		for(auto& x : q) { u |= ((x.v.u >> (8 * x.off)) & maskw(x.len * 8)) << sh; sh += 8 * x.len; }
		return vint(bytes * 8, u);
	}
	bool allUndef = true;
	for(auto& x : q) if(x.v.k != KUndef) allUndef = false;
	if(allUndef) return vundef(bytes * 8);
	Val v; v.k = KPieces; v.w = bytes * 8;
	auto* n = new PiecesNode; n->p = q; v.n = Ref<Node>(n);
	if(!bad) { z3::expr e = toBV(v); return fromBV(bytes * 8, e); }
	return v;
}
// gives v (from memory or a bitcast) the representation expected for type t
Val Engine::asType(const Val& v0, Type* t) {
	Val v = v0;
	if(t->isFloatingPointTy()) {
		if(v.k == KPieces) { // bytes of a real?
			auto& p = pieces(v);
			if(p.size() == 1 && p[0].off == 0 && p[0].v.w == v.w) v = p[0].v;
			else throw Unsupported("float assembled from pieces");
		}
		if(v.k == KUndef || v.k == KReal) return v;
		if(opt.real) { if(v.k == KInt) { double d = v.w == 32 ? (double)bitsF(v.u) : bitsD(v.u); if(!std::isfinite(d)) return vundef(v.w); return vreal(v.w, toRat(v)); } throw Unsupported("symbolic integer reinterpreted as real"); }
		if(v.k == KSym && !ex(v).is_fpa()) return fromFP(v.w, z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, ex(v), fsort(v.w))));
		return v;
	}
	if(t->isIntegerTy() || t->isPointerTy()) {
		if(v.k == KSym && ex(v).is_fpa()) return fromBV(v.w, toBV(v));
		if(v.k == KReal) {
			if(rat(v).isConst()) {
				mpq_class c = rat(v).num.constant();
				double d = c.get_d();
				if(mpq_class(d) == c && (v.w == 64 || (double)(float)d == d)) return vint(v.w, v.w == 64 ? dBits(d) : fBits((float)d));
			}
			Val r; r.k = KPieces; r.w = v.w; auto* n = new PiecesNode; n->p = {Piece{v, 0, (unsigned)v.w / 8}}; r.n = Ref<Node>(n);
			return r;
		}
		return v;
	}
	return v;
}

Val Engine::select(State& s, const Val& c, const Val& a, const Val& b, Type* t) {
	if(c.k == KInt) return (c.u & 1) ? a : b;
	if(isUndef(c)) violation(s, "uninit", "select on an uninitialised value");
	z3::expr e = toBool(c);
	bool simple = (t->isIntegerTy() || (t->isFloatingPointTy() && !opt.real)) && (a.k == KInt || a.k == KSym) && (b.k == KInt || b.k == KSym);
	if(simple && opt.real && t->isIntegerTy() && !t->isIntegerTy(1)) // no integers that depend on comparisons of reals
		for(int v : varsOf(e)) if(vars[v].e.is_real()) { simple = false; break; }
	if(simple) {
		if(t->isIntegerTy(1)) return fromBool(z3::ite(e, toBool(a), toBool(b)));
		if(t->isIntegerTy()) return fromBV(a.w, z3::ite(e, toBV(a), toBV(b)));
		return fromFP(a.w, z3::ite(e, toFP(a, a.w), toFP(b, a.w)));
	}
	return decide(s, e) ? a : b;
}

Val Engine::icmp(State& s, unsigned pred, const Val& a0, const Val& b0, unsigned w) {
	Val a = a0, b = b0;
	if(isUndef(a) || isUndef(b)) return vundef(1);
	if(a.k == KInt && b.k == KInt) {
		int64_t sa = w == 64 ? (int64_t)a.u : ((int64_t)(a.u << (64 - w)) >> (64 - w));
		int64_t sb = w == 64 ? (int64_t)b.u : ((int64_t)(b.u << (64 - w)) >> (64 - w));
		bool r = false;
		switch(pred) {
		case CmpInst::ICMP_EQ: r = a.u == b.u; break;
		case CmpInst::ICMP_NE: r = a.u != b.u; break;
		case CmpInst::ICMP_UGT: r = a.u > b.u; break;
		case CmpInst::ICMP_UGE: r = a.u >= b.u; break;
		case CmpInst::ICMP_ULT: r = a.u < b.u; break;
		case CmpInst::ICMP_ULE: r = a.u <= b.u; break;
		case CmpInst::ICMP_SGT: r = sa > sb; break;
		case CmpInst::ICMP_SGE: r = sa >= sb; break;
		case CmpInst::ICMP_SLT: r = sa < sb; break;
		case CmpInst::ICMP_SLE: r = sa <= sb; break;
		}
		return vint(1, r);
	}
	if(w == 1) {
		z3::expr x = toBool(a), y = toBool(b);
		switch(pred) {
		case CmpInst::ICMP_EQ: return fromBool(x == y);
		case CmpInst::ICMP_NE: return fromBool(x != y);
		default: break;
		}
	}
	z3::expr x = toBV(a), y = toBV(b);
	switch(pred) {
	case CmpInst::ICMP_EQ: return fromBool(x == y);
	case CmpInst::ICMP_NE: return fromBool(x != y);
	case CmpInst::ICMP_UGT: return fromBool(z3::ugt(x, y));
	case CmpInst::ICMP_UGE: return fromBool(z3::uge(x, y));
	case CmpInst::ICMP_ULT: return fromBool(z3::ult(x, y));
	case CmpInst::ICMP_ULE: return fromBool(z3::ule(x, y));
	case CmpInst::ICMP_SGT: return fromBool(x > y);
	case CmpInst::ICMP_SGE: return fromBool(x >= y);
	case CmpInst::ICMP_SLT: return fromBool(x < y);
	default: return fromBool(x <= y);
	}
}
Val Engine::fcmp(State& s, unsigned pred, const Val& a, const Val& b, unsigned w) {
	if(pred == CmpInst::FCMP_TRUE) return vint(1, 1);
	if(pred == CmpInst::FCMP_FALSE) return vint(1, 0);
	if(opt.real) {
		if(isUndef(a) || isUndef(b)) return vsym(1, vars[newVar(ctx.bool_sort(), "undefcmp")].e);
		poly::Rat d = poly::radd(toRat(a), toRat(b), -1);
		switch(pred) {
		case CmpInst::FCMP_ORD: return vint(1, 1);
		case CmpInst::FCMP_UNO: return vint(1, 0);
		case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromBool(ratSign(d, 0));
		case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromBool(!ratSign(d, 0));
		case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromBool(ratSign(d, 1));
		case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromBool(ratSign(d, 2));
		case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromBool(!ratSign(d, 2));
		default: return fromBool(!ratSign(d, 1));
		}
	}
	if(isUndef(a) || isUndef(b)) return vundef(1);
	if(a.k == KInt && b.k == KInt) {
		double x = w == 32 ? bitsF(a.u) : bitsD(a.u), y = w == 32 ? bitsF(b.u) : bitsD(b.u);
		bool un = std::isnan(x) || std::isnan(y), r = false;
		switch(pred) {
		case CmpInst::FCMP_ORD: r = !un; break;
		case CmpInst::FCMP_UNO: r = un; break;
		case CmpInst::FCMP_OEQ: r = x == y; break;
		case CmpInst::FCMP_UEQ: r = un || x == y; break;
		case CmpInst::FCMP_ONE: r = !un && x != y; break;
		case CmpInst::FCMP_UNE: r = un || x != y; break;
		case CmpInst::FCMP_OLT: r = x < y; break;
		case CmpInst::FCMP_ULT: r = un || x < y; break;
		case CmpInst::FCMP_OLE: r = x <= y; break;
		case CmpInst::FCMP_ULE: r = un || x <= y; break;
		case CmpInst::FCMP_OGT: r = x > y; break;
		case CmpInst::FCMP_UGT: r = un || x > y; break;
		case CmpInst::FCMP_OGE: r = x >= y; break;
		case CmpInst::FCMP_UGE: r = un || x >= y; break;
		}
		return vint(1, r);
	}
	z3::expr x = toFP(a, w), y = toFP(b, w);
	auto E = [&](Z3_ast r) { return z3::expr(ctx, r); };
	z3::expr un = E(Z3_mk_fpa_is_nan(ctx, x)) || E(Z3_mk_fpa_is_nan(ctx, y));
	z3::expr eq = E(Z3_mk_fpa_eq(ctx, x, y)), lt = E(Z3_mk_fpa_lt(ctx, x, y)), le = E(Z3_mk_fpa_leq(ctx, x, y)),
		gt = E(Z3_mk_fpa_gt(ctx, x, y)), ge = E(Z3_mk_fpa_geq(ctx, x, y));
	switch(pred) {
	case CmpInst::FCMP_ORD: return fromBool(!un);
	case CmpInst::FCMP_UNO: return fromBool(un);
	case CmpInst::FCMP_OEQ: return fromBool(eq);
	case CmpInst::FCMP_UEQ: return fromBool(un || eq);
	case CmpInst::FCMP_ONE: return fromBool(!un && !eq);
	case CmpInst::FCMP_UNE: return fromBool(!eq);
	case CmpInst::FCMP_OLT: return fromBool(lt);
	case CmpInst::FCMP_ULT: return fromBool(un || lt);
	case CmpInst::FCMP_OLE: return fromBool(le);
	case CmpInst::FCMP_ULE: return fromBool(un || le);
	case CmpInst::FCMP_OGT: return fromBool(gt);
	case CmpInst::FCMP_UGT: return fromBool(un || gt);
	case CmpInst::FCMP_OGE: return fromBool(ge);
	default: return fromBool(un || ge);
	}
}
Val Engine::fbin(State& s, unsigned opc, const Val& a, const Val& b, unsigned w) {
	if(isUndef(a) || isUndef(b)) return vundef(w);
	if(opt.real) {
		switch(opc) {
		case Instruction::FAdd: return vreal(w, poly::radd(toRat(a), toRat(b)));
		case Instruction::FSub: return vreal(w, poly::radd(toRat(a), toRat(b), -1));
		case Instruction::FMul: return vreal(w, poly::rmul(toRat(a), toRat(b)));
		case Instruction::FDiv: return realDiv(s, a, b, w);
		default: throw Unsupported("frem in real mode");
		}
	}
	if(a.k == KInt && b.k == KInt) {
		if(w == 32) {
			volatile float x = bitsF(a.u), y = bitsF(b.u), r = 0;
			switch(opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod((float)x, (float)y); }
			return vint(32, fBits(r));
		}
		volatile double x = bitsD(a.u), y = bitsD(b.u), r = 0;
		switch(opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod((double)x, (double)y); }
		return vint(64, dBits(r));
	}
	z3::expr x = toFP(a, w), y = toFP(b, w), rm = z3::expr(ctx, Z3_mk_fpa_rne(ctx));
	Z3_ast r;
	switch(opc) {
	case Instruction::FAdd: r = Z3_mk_fpa_add(ctx, rm, x, y); break;
	case Instruction::FSub: r = Z3_mk_fpa_sub(ctx, rm, x, y); break;
	case Instruction::FMul: r = Z3_mk_fpa_mul(ctx, rm, x, y); break;
	case Instruction::FDiv: r = Z3_mk_fpa_div(ctx, rm, x, y); break;
	default: throw Unsupported("symbolic frem");
	}
	return fromFP(w, z3::expr(ctx, r));
}

Val Engine::binop(State& s, unsigned opc, const Val& a0, const Val& b0, Type* t) {
	if(auto* vt = dyn_cast<FixedVectorType>(t)) {
		std::vector<Val> r;
		unsigned n = vt->getNumElements();
		for(unsigned i = 0; i < n; ++i) {
			Val x = a0.k == KAgg ? agg(a0)[i] : vundef(vt->getScalarSizeInBits()), y = b0.k == KAgg ? agg(b0)[i] : vundef(vt->getScalarSizeInBits());
			r.push_back(binop(s, opc, x, y, vt->getElementType()));
		}
		return vagg(r);
	}
	unsigned w = t->getPrimitiveSizeInBits();
	if(t->isFloatingPointTy()) {
		if(w > 64) throw Unsupported("long double");
		return fbin(s, opc, a0, b0, w);
	}
	Val a = a0, b = b0;
	if(a.k == KPieces || b.k == KPieces || ((isUndef(a) || isUndef(b)) && w % 8 == 0)) {
		// byte-granular shifts / or / and of mixed values
		if((opc == Instruction::LShr || opc == Instruction::Shl) && b.k == KInt && b.u % 8 == 0 && b.u < w) {
			unsigned n = w / 8, k = b.u / 8;
			std::vector<Piece> out, in = asPieces(a);
			unsigned pos = 0;
			auto slice = [&](unsigned from, unsigned to) {
				pos = 0;
				for(auto& p : in) {
					unsigned lo = std::max(pos, from), hi = std::min(pos + p.len, to);
					if(lo < hi) { Piece q = p; q.off = p.off + (lo - pos); q.len = hi - lo; if(q.v.k == KUndef) { q.v = vundef(q.len * 8); q.off = 0; } out.push_back(q); }
					pos += p.len;
				}
			};
			if(opc == Instruction::LShr) { slice(k, n); for(unsigned i = 0; i < k; ++i) out.push_back({vint(8, 0), 0, 1}); }
			else { for(unsigned i = 0; i < k; ++i) out.push_back({vint(8, 0), 0, 1}); slice(0, n - k); }
			return normPieces(n, out);
		}
		if(opc == Instruction::Or || opc == Instruction::And) {
			unsigned n = w / 8;
			auto bytes = [&](const Val& v) { std::vector<Piece> r; for(auto& p : asPieces(v)) for(unsigned i = 0; i < p.len; ++i) { Piece q{p.v, p.off + i, 1}; if(p.v.k == KInt) q = {vint(8, p.v.u >> (8 * (p.off + i))), 0, 1}; r.push_back(q); } return r; };
			auto x = bytes(a), y = bytes(b);
			std::vector<Piece> out; bool ok = true;
			for(unsigned i = 0; i < n && ok; ++i) {
				auto isC = [](Piece& p, uint64_t c) { return p.v.k == KInt && p.v.u == c; };
				uint64_t id = opc == Instruction::Or ? 0 : 255, ab = 255 - id;
				if(isC(x[i], ab) || isC(y[i], ab)) out.push_back({vint(8, ab), 0, 1});
				else if(isC(x[i], id)) out.push_back(y[i]);
				else if(isC(y[i], id)) out.push_back(x[i]);
				else if(x[i].v.k == KInt && y[i].v.k == KInt) out.push_back({vint(8, opc == Instruction::Or ? (x[i].v.u | y[i].v.u) : (x[i].v.u & y[i].v.u)), 0, 1});
				else ok = false;
			}
			if(ok) return normPieces(n, out);
		}
	}
	if(isUndef(a) || isUndef(b)) {
		if(opc == Instruction::And && ((a.k == KInt && a.u == 0) || (b.k == KInt && b.u == 0))) return vint(w, 0);
		if(opc == Instruction::Xor && a.k == KUndef && b.k == KUndef) return vundef(w);
		return vundef(w);
	}
	auto isDiv = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem;
	if(isDiv) {
		if(b.k == KInt) { if(b.u == 0) violation(s, "ub", "integer division by zero"); }
		else if(decide(s, toBV(b) == ctx.bv_val(0, w))) violation(s, "ub", "integer division by zero");
	}
	if(a.k == KInt && b.k == KInt) {
		uint64_t x = a.u, y = b.u;
		auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); };
		switch(opc) {
		case Instruction::Add: return vint(w, x + y);
		case Instruction::Sub: return vint(w, x - y);
		case Instruction::Mul: return vint(w, x * y);
		case Instruction::UDiv: return vint(w, x / y);
		case Instruction::URem: return vint(w, x % y);
		case Instruction::SDiv: if(sx(y) == -1) return vint(w, 0 - x); return vint(w, (uint64_t)(sx(x) / sx(y)));
		case Instruction::SRem: if(sx(y) == -1) return vint(w, 0); return vint(w, (uint64_t)(sx(x) % sx(y)));
		case Instruction::And: return vint(w, x & y);
		case Instruction::Or: return vint(w, x | y);
		case Instruction::Xor: return vint(w, x ^ y);
		case Instruction::Shl: return y >= w ? vundef(w) : vint(w, x << y);
		case Instruction::LShr: return y >= w ? vundef(w) : vint(w, x >> y);
		case Instruction::AShr: return y >= w ? vundef(w) : vint(w, (uint64_t)(sx(x) >> y));
		}
	}
	if(w == 1) {
		z3::expr x = toBool(a), y = toBool(b);
		switch(opc) {
		case Instruction::And: case Instruction::Mul: return fromBool(x && y);
		case Instruction::Or: return fromBool(x || y);
		case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(x != y);
		default: throw Unsupported("i1 op");
		}
	}
	z3::expr x = toBV(a), y = toBV(b);
	switch(opc) {
	case Instruction::Add: return fromBV(w, x + y);
	case Instruction::Sub: return fromBV(w, x - y);
	case Instruction::Mul: return fromBV(w, x * y);
	case Instruction::UDiv: return fromBV(w, z3::udiv(x, y));
	case Instruction::URem: return fromBV(w, z3::urem(x, y));
	case Instruction::SDiv: return fromBV(w, x / y);
	case Instruction::SRem: return fromBV(w, z3::srem(x, y));
	case Instruction::And: return fromBV(w, x & y);
	case Instruction::Or: return fromBV(w, x | y);
	case Instruction::Xor: return fromBV(w, x ^ y);
	case Instruction::Shl: return fromBV(w, z3::shl(x, y));
	case Instruction::LShr: return fromBV(w, z3::lshr(x, y));
	case Instruction::AShr: return fromBV(w, z3::ashr(x, y));
	}
	throw Unsupported("binop");
}
Val Engine::castOp(State& s, unsigned opc, const Val& a, Type* from, Type* to) {
	if(auto* vt = dyn_cast<FixedVectorType>(to); vt && opc != Instruction::BitCast) {
		std::vector<Val> r;
		for(unsigned i = 0; i < vt->getNumElements(); ++i)
			r.push_back(castOp(s, opc, a.k == KAgg ? agg(a)[i] : vundef(from->getScalarSizeInBits()), from->getScalarType(), to->getScalarType()));
		return vagg(r);
	}
	unsigned fw = from->isPointerTy() ? 64 : from->getPrimitiveSizeInBits(), tw = to->isPointerTy() ? 64 : to->getPrimitiveSizeInBits();
	if(opc == Instruction::BitCast) {
		if(from == to) return a;
		std::vector<Val> el;
		if(from->isVectorTy() || to->isVectorTy()) { // go through bytes
			std::vector<Piece> p;
			if(a.k == KAgg) for(auto& x : agg(a)) for(auto& q : asPieces(x)) p.push_back(q); else p = asPieces(a);
			Obj tmp; tmp.size = fw / 8;
			uint64_t off = 0;
			for(auto& q : p) { Val v = q.v; if(!(q.off == 0 && q.len * 8 == v.w)) throw Unsupported("vector bitcast"); storeVal(&tmp, off, q.len, v); off += q.len; }
			if(auto* vt = dyn_cast<FixedVectorType>(to)) {
				unsigned eb = vt->getScalarSizeInBits() / 8;
				for(unsigned i = 0; i < vt->getNumElements(); ++i) el.push_back(asType(loadBytes(s, &tmp, i * eb, eb), vt->getElementType()));
				return vagg(el);
			}
			return asType(loadBytes(s, &tmp, 0, tw / 8), to);
		}
		return asType(a, to);
	}
	if(isUndef(a) && a.k == KUndef) return vundef(tw);
	switch(opc) {
	case Instruction::PtrToInt: case Instruction::IntToPtr:
		if(fw == tw) return a;
		if(fw > tw) return castOp(s, Instruction::Trunc, a, Type::getIntNTy(from->getContext(), fw), Type::getIntNTy(from->getContext(), tw));
		return castOp(s, Instruction::ZExt, a, Type::getIntNTy(from->getContext(), fw), Type::getIntNTy(from->getContext(), tw));
	case Instruction::Trunc:
		if(a.k == KInt) return vint(tw, a.u);
		if(a.k == KPieces) {
			if(tw % 8 == 0) {
				std::vector<Piece> out; unsigned need = tw / 8;
				for(auto& p : pieces(a)) { if(!need) break; Piece q = p; q.len = std::min(q.len, need); if(q.v.k == KUndef) q.v = vundef(q.len * 8); need -= q.len; out.push_back(q); }
				return normPieces(tw / 8, out);
			}
			if(isUndef(a)) return vundef(tw);
		}
		if(tw == 1) return fromBool(toBV(a).extract(0, 0) == ctx.bv_val(1, 1));
		return fromBV(tw, toBV(a).extract(tw - 1, 0));
	case Instruction::ZExt:
		if(a.k == KInt && tw <= 64) return vint(tw, a.u);
		if(a.k == KPieces) { auto p = pieces(a); for(unsigned i = fw / 8; i < tw / 8; ++i) p.push_back({vint(8, 0), 0, 1}); return normPieces(tw / 8, p); }
		if(fw == 1) return fromBV(tw, z3::ite(toBool(a), ctx.bv_val(1, tw), ctx.bv_val(0, tw)));
		return fromBV(tw, z3::zext(toBV(a), tw - fw));
	case Instruction::SExt:
		if(isUndef(a)) return vundef(tw);
		if(a.k == KInt && tw <= 64) return vint(tw, (uint64_t)((int64_t)(a.u << (64 - fw)) >> (64 - fw)));
		if(fw == 1) return fromBV(tw, z3::ite(toBool(a), ctx.bv_val((uint64_t)~0ull, tw), ctx.bv_val(0, tw)));
		return fromBV(tw, z3::sext(toBV(a), tw - fw));
	case Instruction::FPTrunc: case Instruction::FPExt:
		if(tw > 64 || fw > 64) throw Unsupported("long double");
		if(a.k == KReal) { if(tw < fw && !rat(a).isConst()) s.lossy = true; Val v = a; v.w = tw; return v; }
		if(opt.real) return vreal(tw, toRat(a));
		if(a.k == KInt) { double d = fw == 32 ? bitsF(a.u) : bitsD(a.u); return vint(tw, tw == 32 ? fBits((float)d) : dBits(d)); }
		return fromFP(tw, z3::expr(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), toFP(a, fw), fsort(tw))));
	case Instruction::SIToFP: case Instruction::UIToFP: {
		if(tw > 64) throw Unsupported("long double");
		if(isUndef(a)) return vundef(tw);
		bool sg = opc == Instruction::SIToFP;
		if(a.k == KInt) {
			int64_t sv = (int64_t)(a.u << (64 - fw)) >> (64 - fw);
			if(opt.real) return vreal(tw, Rat(sg ? mpq_class((long)sv) : mpq_class((unsigned long)a.u)));
			if(tw == 32) return vint(32, fBits(sg ? (float)sv : (float)a.u));
			return vint(64, dBits(sg ? (double)sv : (double)a.u));
		}
		if(opt.real && fw == 1) return vreal(tw, Rat(mpq_class(decide(s, toBool(a)) ? sg ? -1 : 1 : 0)));
		if(opt.real) return vreal(tw, intReal(s, toBV(a).simplify(), sg));
		if(fw == 1) return fromFP(tw, z3::ite(toBool(a), toFP(vint(tw, tw == 32 ? fBits(sg ? -1.f : 1.f) : dBits(sg ? -1. : 1.)), tw), toFP(vint(tw, 0), tw)));
		return fromFP(tw, z3::expr(ctx, sg ? Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), toBV(a), fsort(tw)) : Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), toBV(a), fsort(tw))));
	}
	case Instruction::FPToSI: case Instruction::FPToUI: {
		bool sg = opc == Instruction::FPToSI;
		if(isUndef(a)) return vundef(tw);
		if(opt.real) {
			Rat r = toRat(a);
			if(!r.isConst()) {
				for(int k : {0, 1, -1, 2, -2, 3, -3}) { // truncation towards zero
					z3::expr below = ratSign(radd(r, Rat(mpq_class(k > 0 ? k : k - 1)), -1), k > 0 ? 1 : 2); // r < k or r <= k - 1
					z3::expr above = ratSign(radd(Rat(mpq_class(k >= 0 ? k + 1 : k)), r, -1), k >= 0 ? 2 : 1); // r >= k + 1 or r > k
					if(decide(s, !below && !above)) return vint(tw, (uint64_t)(int64_t)k);
				}
				throw Unsupported("symbolic real to integer");
			}
			mpq_class c = r.num.constant();
			mpz_class z = c.get_num() / c.get_den();
			return vint(tw, (uint64_t)z.get_si());
		}
		if(a.k == KInt) {
			double d = fw == 32 ? bitsF(a.u) : bitsD(a.u);
			d = std::trunc(d);
			double lo = sg ? -std::ldexp(1.0, tw - 1) : 0, hi = sg ? std::ldexp(1.0, tw - 1) : std::ldexp(1.0, tw);
			if(!(d >= lo && d < hi)) return vundef(tw);
			return vint(tw, sg ? (uint64_t)(int64_t)d : (uint64_t)d);
		}
		return fromBV(tw, z3::expr(ctx, sg ? Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toFP(a, fw), tw) : Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toFP(a, fw), tw)));
	}
	}
	throw Unsupported("cast");
}

// ---------------------------------------------------------------- memory
Obj* Engine::findObj(State& s, uint64_t a, bool write) {
	size_t lo = 0, hi = s.mem.size();
	while(lo < hi) { size_t m = (lo + hi) / 2; if(s.mem[m].first <= a) lo = m + 1; else hi = m; }
	if(lo > 0) {
		auto& e = s.mem[lo - 1];
		if(a <= e.second->base + e.second->size) {
			if(write && e.second->rc > 1) { Obj* c = new Obj(*e.second); c->rc = 0; e.second = Ref<Obj>(c); }
			return e.second.p;
		}
	}
	auto it = constObjs.upper_bound(a);
	if(it != constObjs.begin()) {
		--it;
		if(a <= it->second->base + it->second->size) return it->second.p;
	}
	return nullptr;
}
uint64_t Engine::alloc(State& s, uint64_t size, ObjKind k, const std::string& name, char hk) {
	uint64_t a = s.nextAddr;
	s.nextAddr += ((size + 15) & ~15ull) + 4096;
	Obj* o = new Obj;
	o->base = a; o->size = size; o->kind = k; o->name = name; o->heapKind = hk;
	s.mem.push_back({a, Ref<Obj>(o)});
	if(k == OHeap && hk != 'e') s.heapLive++;
	return a;
}
void Engine::release(State& s, uint64_t base) {
	size_t lo = 0, hi = s.mem.size();
	while(lo < hi) { size_t m = (lo + hi) / 2; if(s.mem[m].first < base) lo = m + 1; else hi = m; }
	if(lo < s.mem.size() && s.mem[lo].first == base) {
		if(s.mem[lo].second->kind == OHeap && s.mem[lo].second->heapKind != 'e') s.heapLive--;
		s.mem.erase(s.mem.begin() + lo);
	}
}
Val Engine::loadBytes(State& s, Obj* o, uint64_t off, unsigned n) {
	size_t i = o->find(off);
	if(i < o->ents.size() && o->ents[i].off == off && o->ents[i].size == n) return o->ents[i].v;
	std::vector<Piece> p;
	uint64_t pos = off, end = off + n;
	while(pos < end) {
		if(i >= o->ents.size() || o->ents[i].off >= end) { p.push_back({vundef((end - pos) * 8), 0, (unsigned)(end - pos)}); break; }
		auto& e = o->ents[i];
		if(e.off > pos) { p.push_back({vundef((e.off - pos) * 8), 0, (unsigned)(e.off - pos)}); pos = e.off; }
		unsigned lo = pos - e.off, len = std::min<uint64_t>(e.off + e.size, end) - pos;
		if(e.v.k == KPieces) {
			unsigned q = 0;
			for(auto& x : pieces(e.v)) {
				unsigned a = std::max(q, lo), b = std::min(q + x.len, lo + len);
				if(a < b) { Piece y = x; y.off = x.off + (a - q); y.len = b - a; if(y.v.k == KUndef) { y.v = vundef(y.len * 8); y.off = 0; } p.push_back(y); }
				q += x.len;
			}
		} else if(e.v.k == KUndef) p.push_back({vundef(len * 8), 0, len});
		else p.push_back({e.v, lo, len});
		pos += len;
		++i;
	}
	return normPieces(n, p);
}
void Engine::storeVal(Obj* o, uint64_t off, unsigned n, const Val& v) {
	size_t i = o->find(off);
	if(i < o->ents.size() && o->ents[i].off == off && o->ents[i].size == n) { o->ents[i].v = v; return; }
	std::vector<Ent> add;
	size_t j = i;
	uint64_t end = off + n;
	auto slice = [&](const Ent& e, unsigned lo, unsigned len) {
		std::vector<Piece> p;
		if(e.v.k == KPieces) {
			unsigned q = 0;
			for(auto& x : pieces(e.v)) { unsigned a = std::max(q, lo), b = std::min(q + x.len, lo + len); if(a < b) { Piece y = x; y.off = x.off + (a - q); y.len = b - a; if(y.v.k == KUndef) { y.v = vundef(y.len * 8); y.off = 0; } p.push_back(y); } q += x.len; }
		} else if(e.v.k == KUndef) p.push_back({vundef(len * 8), 0, len});
		else p.push_back({e.v, lo, len});
		return normPieces(len, p);
	};
	std::vector<Ent> pre, post;
	while(j < o->ents.size() && o->ents[j].off < end) {
		auto& e = o->ents[j];
		if(e.off < off) pre.push_back({e.off, (uint32_t)(off - e.off), slice(e, 0, off - e.off)});
		if(e.off + e.size > end) { unsigned lo = end - e.off; post.push_back({(uint32_t)end, (uint32_t)(e.off + e.size - end), slice(e, lo, e.size - lo)}); }
		++j;
	}
	add = pre; add.push_back({(uint32_t)off, (uint32_t)n, v}); add.insert(add.end(), post.begin(), post.end());
	o->ents.erase(o->ents.begin() + i, o->ents.begin() + j);
	o->ents.insert(o->ents.begin() + i, add.begin(), add.end());
}
// returns a concrete address of `size` accessible bytes, forking on symbolic pointers
uint64_t Engine::resolve(State& s, const Val& p, uint64_t size, const char* what) {
	if(isUndef(p)) violation(s, "uninit", std::string(what) + " through an uninitialised pointer");
	if(p.k == KSym) {
		// is an access outside of every object possible?
		z3::expr e = toBV(p);
		z3::expr in = ctx.bool_val(false);
		std::shared_ptr<Model> m;
		uint64_t guess = 0;
		if(s.forcedPos >= s.forced.size()) {
			// object containing a feasible value; other feasible values must stay inside known objects
			z3::expr val(ctx);
			if(s.model) val = evalIn(*s.model, e);
			else { if(check(s, ctx.bool_val(true), &m, opt.solverTimeout, false) != SAT) throw Unsupported("pointer model"); s.model = m; val = evalIn(*m, e); }
			Z3_get_numeral_uint64(ctx, val, &guess);
			auto within = [&](Obj* o) { return z3::uge(e, ctx.bv_val((uint64_t)o->base, 64)) && z3::ule(e, ctx.bv_val((uint64_t)(o->base + o->size - size), 64)); };
			// pointer arithmetic keeps the provenance: the constant part names the object
			Obj* home = nullptr;
			z3::expr es = e.simplify();
			if(es.is_app() && es.decl().decl_kind() == Z3_OP_BADD) {
				for(unsigned i = 0; i < es.num_args() && !home; ++i) {
					uint64_t c = 0;
					if(es.arg(i).is_numeral() && Z3_get_numeral_uint64(ctx, es.arg(i), &c) && c >= 4096) home = findObj(s, c, false);
				}
			}
			if(home && home->kind != OExtern) { if(home->size >= size) in = within(home); }
			else {
				for(auto& kv : s.mem) { Obj* o = kv.second.p; if(o->size >= size) in = in || within(o); }
				for(auto& kv : constObjs) { Obj* o = kv.second.p; if(o->size >= size) in = in || within(o); }
			}
		} else in = vars[0].e; // placeholder, the decision is forced
		if(!decide(s, in)) violation(s, "oob", std::string(what) + " outside of any live object (symbolic address)");
		uint64_t a = concretize(s, p);
		return a;
	}
	uint64_t a = p.u;
	Obj* o = findObj(s, a, false);
	if(!o || a + size > o->base + o->size) {
		if(a < 4096) violation(s, "null", std::string(what) + " through a null pointer");
		if(externName.count(a)) throw Unsupported("access to external object " + externName[a]);
		if(o && o->kind == OExtern) throw Unsupported("access to external object " + o->name);
		if(o) violation(s, "oob", std::string(what) + " of " + std::to_string(size) + " bytes at offset " + std::to_string(a - o->base) + " of a " + std::to_string(o->size) + "-byte object");
		violation(s, "dangling", std::string(what) + " of memory that is not (or no longer) allocated");
	}
	if(o->kind == OExtern) throw Unsupported("access to external object " + o->name);
	return a;
}
Val Engine::load(State& s, const Val& p, Type* t) {
	if(auto* vt = dyn_cast<FixedVectorType>(t)) {
		unsigned eb = dl->getTypeStoreSize(vt->getElementType());
		uint64_t a = resolve(s, p, dl->getTypeStoreSize(t), "load");
		Obj* o = findObj(s, a, false);
		std::vector<Val> r;
		for(unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(asType(loadBytes(s, o, a - o->base + i * eb, eb), vt->getElementType()));
		return vagg(r);
	}
	if(auto* st = dyn_cast<StructType>(t)) {
		uint64_t a = resolve(s, p, dl->getTypeStoreSize(t), "load");
		auto* sl = dl->getStructLayout(st);
		std::vector<Val> r;
		for(unsigned i = 0; i < st->getNumElements(); ++i) r.push_back(load(s, vint(64, a + sl->getElementOffset(i)), st->getElementType(i)));
		return vagg(r);
	}
	if(auto* at = dyn_cast<ArrayType>(t)) {
		uint64_t a = resolve(s, p, dl->getTypeStoreSize(t), "load"), es = dl->getTypeAllocSize(at->getElementType());
		std::vector<Val> r;
		for(unsigned i = 0; i < at->getNumElements(); ++i) r.push_back(load(s, vint(64, a + i * es), at->getElementType()));
		return vagg(r);
	}
	unsigned n = dl->getTypeStoreSize(t);
	uint64_t a = resolve(s, p, n, "load");
	Obj* o = findObj(s, a, false);
	Val v = loadBytes(s, o, a - o->base, n);
	if(t->isIntegerTy() && t->getIntegerBitWidth() != n * 8) {
		unsigned w = t->getIntegerBitWidth();
		if(isUndef(v)) return vundef(w);
		return castOp(s, Instruction::Trunc, v, Type::getIntNTy(t->getContext(), n * 8), t);
	}
	return asType(v, t);
}
void Engine::store(State& s, const Val& p, const Val& v, Type* t) {
	unsigned n = dl->getTypeStoreSize(t);
	uint64_t a = resolve(s, p, n, "store");
	Obj* o = findObj(s, a, true);
	if(o->kind == OConst) violation(s, "const", "write to constant memory");
	if(auto* vt = dyn_cast<FixedVectorType>(t)) {
		unsigned eb = dl->getTypeStoreSize(vt->getElementType());
		for(unsigned i = 0; i < vt->getNumElements(); ++i) storeVal(o, a - o->base + i * eb, eb, v.k == KAgg ? agg(v)[i] : vundef(eb * 8));
		return;
	}
	if(auto* st = dyn_cast<StructType>(t)) {
		auto* sl = dl->getStructLayout(st);
		for(unsigned i = 0; i < st->getNumElements(); ++i) store(s, vint(64, a + sl->getElementOffset(i)), v.k == KAgg ? agg(v)[i] : vundef(8), st->getElementType(i));
		return;
	}
	if(auto* at = dyn_cast<ArrayType>(t)) {
		uint64_t es = dl->getTypeAllocSize(at->getElementType());
		for(unsigned i = 0; i < at->getNumElements(); ++i) store(s, vint(64, a + i * es), v.k == KAgg ? agg(v)[i] : vundef(8), at->getElementType());
		return;
	}
	Val x = v;
	if(x.k == KUndef) x = vundef(n * 8);
	if(t->isIntegerTy() && t->getIntegerBitWidth() != n * 8 && x.k != KUndef)
		x = castOp(s, Instruction::ZExt, x, t, Type::getIntNTy(t->getContext(), n * 8));
	storeVal(o, a - o->base, n, x);
}
void Engine::copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
	if(!n) return;
	Obj* so = findObj(s, src, false);
	uint64_t off = src - so->base;
	std::vector<std::pair<uint64_t, Val>> parts; // offset, value
	std::vector<unsigned> len;
	uint64_t pos = off, end = off + n;
	size_t i = so->find(off);
	while(pos < end) {
		uint64_t e;
		if(i >= so->ents.size() || so->ents[i].off >= end) e = end;
		else if(so->ents[i].off > pos) e = so->ents[i].off;
		else { e = std::min<uint64_t>(end, so->ents[i].off + so->ents[i].size); ++i; }
		parts.push_back({pos - off, loadBytes(s, so, pos, e - pos)});
		len.push_back(e - pos);
		pos = e;
	}
	Obj* d = findObj(s, dst, true);
	if(d->kind == OConst) violation(s, "const", "write to constant memory");
	for(size_t k = 0; k < parts.size(); ++k) storeVal(d, dst - d->base + parts[k].first, len[k], parts[k].second);
}
uint64_t Engine::readPtr(State& s, uint64_t a) {
	Val v = load(s, vint(64, a), PointerType::get(mod->getContext(), 0));
	if(v.k != KInt) throw Unsupported("symbolic internal pointer");
	return v.u;
}
std::string Engine::readStr(State& s, uint64_t a) {
	std::string r;
	if(!a) return r;
	for(;;) {
		Obj* o = findObj(s, a, false);
		if(!o || a >= o->base + o->size) return r;
		Val v = loadBytes(s, o, a - o->base, 1);
		if(v.k != KInt) return r + "?";
		if(!v.u) return r;
		r.push_back((char)v.u);
		++a;
	}
}
