#include "sx.hpp"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Operator.h>
#include <cmath>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/InlineAsm.h>
#include <iostream>
#include <sstream>
using namespace llvm;

std::string demangle(const std::string& s) { return llvm::demangle(s); }

FuncInfo* Engine::info(const Function* f) {
	auto& p = finfo[f];
	if(p) return p.get();
	p = std::make_unique<FuncInfo>();
	p->f = f;
	p->name = f->getName().str();
	int n = 0;
	for(auto& a : f->args()) p->idx[&a] = n++;
	for(auto& bb : *f) for(auto& i : bb) if(!i.getType()->isVoidTy()) p->idx[&i] = n++;
	p->nregs = n;
	return p.get();
}
uint64_t Engine::externGlobal(const std::string& name) {
	auto it = externAddr.find(name);
	if(it != externAddr.end()) return it->second;
	uint64_t a = nextGlobal; nextGlobal += 8192;
	externAddr[name] = a;
	Obj* o = new Obj; o->base = a; o->size = 4096; o->kind = OExtern; o->name = name;
	constObjs[a] = Ref<Obj>(o);
	if(name.rfind("_ZTI", 0) == 0) { tiName[a] = name; }
	return a;
}
uint64_t Engine::globalAddr(const GlobalValue* g) {
	auto it = gaddr.find(g);
	if(it != gaddr.end()) return it->second;
	uint64_t a;
	if(auto* f = dyn_cast<Function>(g)) {
		a = nextGlobal; nextGlobal += 16;
		nextGlobal = (nextGlobal + 15) & ~15ull;
		faddr[a] = f;
	} else if(auto* al = dyn_cast<GlobalAlias>(g)) {
		a = globalAddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
	} else {
		auto* v = cast<GlobalVariable>(g);
		if(v->isDeclaration()) a = externGlobal(g->getName().str());
		else {
			nextGlobal = (nextGlobal + 63) & ~63ull;
			a = nextGlobal;
			uint64_t sz = dl->getTypeAllocSize(v->getValueType());
			nextGlobal += ((sz + 63) & ~63ull) + 4096;
			if(g->getName().starts_with("_ZTI")) tiName[a] = g->getName().str();
		}
	}
	gaddr[g] = a;
	return a;
}
Val Engine::constVal(const Constant* c) {
	auto it = constCache.find(c);
	if(it != constCache.end()) return it->second;
	Val r;
	Type* t = c->getType();
	auto zeroOf = [&](auto& self, Type* t) -> Val {
		if(t->isIntegerTy()) return t->getIntegerBitWidth() > 64 ? vsym(t->getIntegerBitWidth(), ctx.bv_val(0, t->getIntegerBitWidth())) : vint(t->getIntegerBitWidth(), 0);
		if(t->isPointerTy()) return vint(64, 0);
		if(t->isFloatingPointTy()) { unsigned w = t->getPrimitiveSizeInBits(); if(w > 64) return vundef(w); return opt.real ? vreal(w, poly::Rat(mpq_class(0))) : vint(w, 0); }
		std::vector<Val> el;
		if(auto* st = dyn_cast<StructType>(t)) for(auto* e : st->elements()) el.push_back(self(self, e));
		else if(auto* at = dyn_cast<ArrayType>(t)) for(unsigned i = 0; i < at->getNumElements(); ++i) el.push_back(self(self, at->getElementType()));
		else if(auto* vt = dyn_cast<FixedVectorType>(t)) for(unsigned i = 0; i < vt->getNumElements(); ++i) el.push_back(self(self, vt->getElementType()));
		return vagg(el);
	};
	auto undefOf = [&](auto& self, Type* t) -> Val {
		if(t->isIntegerTy() || t->isFloatingPointTy()) return vundef(t->getPrimitiveSizeInBits());
		if(t->isPointerTy()) return vundef(64);
		std::vector<Val> el;
		if(auto* st = dyn_cast<StructType>(t)) for(auto* e : st->elements()) el.push_back(self(self, e));
		else if(auto* at = dyn_cast<ArrayType>(t)) for(unsigned i = 0; i < at->getNumElements(); ++i) el.push_back(self(self, at->getElementType()));
		else if(auto* vt = dyn_cast<FixedVectorType>(t)) for(unsigned i = 0; i < vt->getNumElements(); ++i) el.push_back(self(self, vt->getElementType()));
		return vagg(el);
	};
	if(auto* ci = dyn_cast<ConstantInt>(c)) {
		if(ci->getBitWidth() <= 64) r = vint(ci->getBitWidth(), ci->getZExtValue());
		else { SmallString<40> str; ci->getValue().toStringUnsigned(str); r = vsym(ci->getBitWidth(), ctx.bv_val(str.c_str(), ci->getBitWidth())); }
	} else if(auto* cf = dyn_cast<ConstantFP>(c)) {
		unsigned w = t->getPrimitiveSizeInBits();
		if(w > 64) r = vundef(w);
		else {
			uint64_t bits = cf->getValueAPF().bitcastToAPInt().getZExtValue();
			r = asType(vint(w, bits), t);
		}
	} else if(isa<ConstantPointerNull>(c)) r = vint(64, 0);
	else if(isa<UndefValue>(c)) r = undefOf(undefOf, t);
	else if(isa<ConstantAggregateZero>(c)) r = zeroOf(zeroOf, t);
	else if(auto* g = dyn_cast<GlobalValue>(c)) r = vint(64, globalAddr(g));
	else if(auto* cd = dyn_cast<ConstantDataSequential>(c)) {
		std::vector<Val> el;
		for(unsigned i = 0; i < cd->getNumElements(); ++i) el.push_back(constVal(cd->getElementAsConstant(i)));
		r = vagg(el);
	} else if(auto* ca = dyn_cast<ConstantAggregate>(c)) {
		std::vector<Val> el;
		for(unsigned i = 0; i < ca->getNumOperands(); ++i) el.push_back(constVal(ca->getOperand(i)));
		r = vagg(el);
	} else if(auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch(ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto* gep = cast<GEPOperator>(ce);
			APInt off(64, 0);
			if(!gep->accumulateConstantOffset(*dl, off)) throw Unsupported("constant gep");
			r = vint(64, constVal(ce->getOperand(0)).u + (uint64_t)off.getSExtValue());
			break;
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
			Val x = constVal(ce->getOperand(0));
			if(x.k != KInt) throw Unsupported("constant cast");
			r = vint(t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits(), x.u);
			break;
		}
		case Instruction::Add: r = vint(t->getPrimitiveSizeInBits(), constVal(ce->getOperand(0)).u + constVal(ce->getOperand(1)).u); break;
		case Instruction::Sub: r = vint(t->getPrimitiveSizeInBits(), constVal(ce->getOperand(0)).u - constVal(ce->getOperand(1)).u); break;
		case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).u, b = constVal(ce->getOperand(1)).u; bool x = ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; r = vint(1, x); break; }
		default: throw Unsupported(std::string("constant expression ") + ce->getOpcodeName());
		}
	} else throw Unsupported("constant kind");
	constCache.emplace(c, r);
	return r;
}
void Engine::initObj(Obj* o, uint64_t off, const Constant* c) {
	Type* t = c->getType();
	if(isa<UndefValue>(c)) return;
	if(auto* st = dyn_cast<StructType>(t)) {
		auto* sl = dl->getStructLayout(st);
		for(unsigned i = 0; i < st->getNumElements(); ++i) initObj(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if(auto* at = dyn_cast<ArrayType>(t)) {
		uint64_t es = dl->getTypeAllocSize(at->getElementType());
		for(unsigned i = 0; i < at->getNumElements(); ++i) initObj(o, off + i * es, c->getAggregateElement(i));
		return;
	}
	if(auto* vt = dyn_cast<FixedVectorType>(t)) {
		uint64_t es = dl->getTypeAllocSize(vt->getElementType());
		for(unsigned i = 0; i < vt->getNumElements(); ++i) initObj(o, off + i * es, c->getAggregateElement(i));
		return;
	}
	unsigned n = dl->getTypeStoreSize(t);
	Val v = constVal(c);
	if(t->isIntegerTy() && t->getIntegerBitWidth() < n * 8 && v.k == KInt) v = vint(n * 8, v.u);
	o->ents.push_back({(uint32_t)off, n, v});
}
void Engine::setupGlobals(State& s) {
	for(auto& f : *mod) globalAddr(&f);
	int id = 1;
	for(auto& g : mod->globals()) {
		if(g.isDeclaration()) { globalAddr(&g); continue; }
		if(g.getName().starts_with("llvm.")) continue;
		uint64_t a = globalAddr(&g);
		Obj* o = new Obj; o->base = a; o->size = dl->getTypeAllocSize(g.getValueType()); o->name = g.getName().str();
		o->kind = g.isConstant() ? OConst : OGlobal;
		initObj(o, 0, g.getInitializer());
		if(g.getName() == "__libc_single_threaded") o->ents = {{0, 1, vint(8, 1)}};
		if(g.isConstant()) constObjs[a] = Ref<Obj>(o);
		else s.mem.push_back({a, Ref<Obj>(o)});
	}
	std::sort(s.mem.begin(), s.mem.end(), [](auto& a, auto& b) { return a.first < b.first; });
	for(auto& kv : tiName) tiId[kv.first] = id++;
	if(auto* g = mod->getNamedGlobal("__libc_single_threaded"); g && g->isDeclaration()) {
		auto& o = constObjs[globalAddr(g)];
		o->kind = OConst; o->size = 1; o->ents = {{0, 1, vint(8, 1)}};
	}
}

Val Engine::get(Frame& f, const Value* v) {
	if(auto* c = dyn_cast<Constant>(v)) return constVal(c);
	if(isa<MetadataAsValue>(v)) return Val{};
	auto it = f.fi->idx.find(v);
	if(it == f.fi->idx.end()) throw Unsupported("operand");
	return f.regs[it->second];
}
void Engine::set(Frame& f, const Value* v, Val x) { f.regs[f.fi->idx.find(v)->second] = std::move(x); }

void Engine::jump(State& s, const BasicBlock* to) {
	Frame& f = s.fr.back();
	const BasicBlock* from = f.bb;
	std::vector<std::pair<const Value*, Val>> ph;
	auto it = to->begin();
	for(; isa<PHINode>(*it); ++it) {
		auto& p = cast<PHINode>(*it);
		ph.push_back({&p, get(f, p.getIncomingValueForBlock(from))});
	}
	for(auto& x : ph) set(f, x.first, std::move(x.second));
	f.prev = from; f.bb = to; f.it = it;
}
std::string Engine::where(State& s) {
	// innermost function that belongs to the code under test or the harness (not the standard library)
	for(size_t i = s.fr.size(); i-- > 0;) {
		std::string n = demangle(s.fr[i].fi->name);
		if(n.find("nytl::") != std::string::npos && n.rfind("std::", 0) != 0 && n.find(" std::") == std::string::npos) { size_t p = n.find('('); return p == std::string::npos ? n : n.substr(0, p); }
	}
	return entryName;
}
std::vector<std::string> Engine::rawInputs(State& s, const Model& m) {
	std::vector<std::string> out;
	for(auto& i : s.inputs) {
		std::ostringstream o;
		std::string name = i.name; // one word per field
		for(char& c : name) if(c == ' ') c = '_';
		o << i.kind << i.w << " " << name << " ";
		if(i.kind == 'c') o << i.conc;
		else if(i.var < 0) o << i.conc;
		else if(opt.real && i.kind == 'f') {
			double d = 0;
			auto num = [&](const z3::expr& e) -> double {
				z3::expr v = evalIn(m, e);
				if(v.is_numeral() || v.is_algebraic()) {
					std::string t = Z3_get_numeral_decimal_string(ctx, v, 18);
					if(!t.empty() && t.back() == '?') t.pop_back();
					return strtod(t.c_str(), nullptr);
				}
				return 0;
			};
			bool ang = false;
			for(auto& kv : angles) if(kv.second.var == i.var && kv.second.c.isPoly()) {
				bool have = false;
				for(int v : varsOf(polyExpr(kv.second.c.num))) if(m.count(v)) have = true;
				if(!have) continue;
				d = std::atan2(num(polyExpr(kv.second.s.num)), num(polyExpr(kv.second.c.num))) / kv.second.unit.get_d();
				ang = true;
			}
			if(!ang) d = num(vars[i.var].e);
			uint64_t u; memcpy(&u, &d, 8);
			char buf[64]; snprintf(buf, sizeof buf, "%llu %.17g", (unsigned long long)u, d);
			o.str(""); o << "f64 " << name << " " << buf;
		} else {
			z3::expr v = evalIn(m, vars[i.var].e);
			uint64_t u = 0;
			if(v.is_numeral()) Z3_get_numeral_uint64(ctx, v, &u);
			o << u;
			if(i.kind == 'f') { if(i.w == 32) { float f; uint32_t x = (uint32_t)u; memcpy(&f, &x, 4); char b[40]; snprintf(b, 40, " %.9g", f); o << b; } else { double f; memcpy(&f, &u, 8); char b[40]; snprintf(b, 40, " %.17g", f); o << b; } }
			else if(i.w <= 64) { o << " " << (int64_t)(i.w == 64 ? u : (uint64_t)((int64_t)(u << (64 - i.w)) >> (64 - i.w))); }
		}
		out.push_back(o.str());
	}
	return out;
}
// the same comparison, but clearly
static z3::expr clearly(const z3::expr& e, const z3::expr& eps, bool neg) {
	if(!e.is_app()) return neg ? !e : e;
	auto k = e.decl().decl_kind();
	if(k == Z3_OP_NOT) return clearly(e.arg(0), eps, !neg);
	if(k == Z3_OP_AND || k == Z3_OP_OR) {
		z3::expr_vector v(e.ctx());
		for(unsigned i = 0; i < e.num_args(); ++i) v.push_back(clearly(e.arg(i), eps, neg));
		return (k == Z3_OP_AND) != neg ? z3::mk_and(v) : z3::mk_or(v);
	}
	if((k == Z3_OP_LE || k == Z3_OP_LT || k == Z3_OP_GE || k == Z3_OP_GT) && e.arg(0).is_real() && e.arg(1).is_real()) {
		bool le = (k == Z3_OP_LE || k == Z3_OP_LT) != neg;
		return le ? e.arg(0) + eps <= e.arg(1) : e.arg(0) >= e.arg(1) + eps;
	}
	return neg ? !e : e;
}
// other counterexamples of the same path over the reals: those away from the borders of its conditions, where rounding
// does not lead the real code to another path
std::vector<std::vector<std::string>> Engine::alternatives(State& s, const z3::expr& bad) {
	std::vector<std::vector<std::string>> ret;
	if(!opt.real) return ret;
	for(int den : {16, 1024}) {
		z3::expr eps = ctx.real_val(1, den), all = bad && ctx.bool_val(true);
		std::vector<z3::expr> cs;
		for(Cons* c = s.pc.p; c; c = c->prev.p) { auto e = clearly(c->e, eps, false); if(!z3::eq(e, c->e)) cs.push_back(e); }
		if(cs.empty()) break;
		for(auto& e : cs) all = all && e;
		std::shared_ptr<Model> m;
		if(check(s, all, &m, 2000, false) == SAT) { ret.push_back(rawInputs(s, *m)); continue; }
		all = bad;
		int tries = 0;
		std::shared_ptr<Model> last;
		for(auto& e : cs) { // as many of them as possible
			if(++tries > 24) break;
			if(check(s, all && e, &m, 1000, false) == SAT) { all = all && e; last = m; }
		}
		if(last) ret.push_back(rawInputs(s, *last));
	}
	return ret;
}
void Engine::report(State& s, const std::string& kind, const std::string& id, const std::string& msg, const Model& m, const z3::expr* bad) {
	if(violSeen[kind + id]++ >= opt.maxViol) return;
	Violation v; v.kind = kind; v.id = id; v.msg = msg;
	v.raw = rawInputs(s, m);
	if(bad) v.alts = alternatives(s, *bad);
	std::string st;
	for(size_t i = s.fr.size(); i-- > 0 && st.size() < 1500;) st += "\n    in " + demangle(s.fr[i].fi->name);
	v.msg += st;
	viol.push_back(v);
	if(kind != "precision") opt.timeBudget = std::min(opt.timeBudget, since(t0) + 60); // enough to find others
}
void Engine::violation(State& s, const std::string& kind, const std::string& msg) {
	std::shared_ptr<Model> m;
	Res r = check(s, ctx.bool_val(true), &m, opt.solverTimeout, false);
	auto any = ctx.bool_val(true);
	if(r == SAT) report(s, kind, where(s), msg, *m, &any);
	else if(r == UNK) { undecided.push_back(kind + " at " + where(s)); }
	throw PathEnd{};
}
struct LibmFn { double (*d)(double); float (*f)(float); };
static const std::map<std::string, LibmFn> libmMore = {{"exp2", {exp2, exp2f}}, {"log2", {log2, log2f}}, {"log10", {log10, log10f}}, {"log1p", {log1p, log1pf}}, {"expm1", {expm1, expm1f}}, {"sinh", {sinh, sinhf}}, {"cosh", {cosh, coshf}}, {"tanh", {tanh, tanhf}}, {"cbrt", {cbrt, cbrtf}}, {"round", {round, roundf}}, {"nearbyint", {nearbyint, nearbyintf}}, {"rint", {rint, rintf}}, {"trunc", {trunc, truncf}}};
// the value of a library function, as computed by this machine's libm
uint64_t Engine::libm(const std::string& f, unsigned w, uint64_t a, uint64_t b) {
	auto mt = libmMore.find(f);
	if(w == 32) {
		float x, y, r; uint32_t ua = (uint32_t)a, ub = (uint32_t)b, u;
		memcpy(&x, &ua, 4); memcpy(&y, &ub, 4);
		r = mt != libmMore.end() ? mt->second.f(x) : f == "sin" ? sinf(x) : f == "cos" ? cosf(x) : f == "tan" ? tanf(x) : f == "acos" ? acosf(x) : f == "asin" ? asinf(x) : f == "atan" ? atanf(x) : f == "atan2" ? atan2f(x, y) : f == "pow" ? powf(x, y) : f == "exp" ? expf(x) : f == "log" ? logf(x) : f == "hypot" ? hypotf(x, y) : f == "fdim" ? fdimf(x, y) : f == "fmod" ? fmodf(x, y) : f == "remainder" ? remainderf(x, y) : copysignf(x, y);
		memcpy(&u, &r, 4);
		return u;
	}
	double x, y, r; uint64_t u;
	memcpy(&x, &a, 8); memcpy(&y, &b, 8);
	r = mt != libmMore.end() ? mt->second.d(x) : f == "sin" ? sin(x) : f == "cos" ? cos(x) : f == "tan" ? tan(x) : f == "acos" ? acos(x) : f == "asin" ? asin(x) : f == "atan" ? atan(x) : f == "atan2" ? atan2(x, y) : f == "pow" ? pow(x, y) : f == "exp" ? exp(x) : f == "log" ? log(x) : f == "hypot" ? hypot(x, y) : f == "fdim" ? fdim(x, y) : f == "fmod" ? fmod(x, y) : f == "remainder" ? remainder(x, y) : copysign(x, y);
	memcpy(&u, &r, 8);
	return u;
}
int Engine::assertId(const std::string& n) {
	auto it = assertIdx.find(n);
	if(it != assertIdx.end()) return it->second;
	int i = assertNames.size();
	assertNames.push_back(n);
	assertIdx[n] = i;
	asserts[n];
	return i;
}
void Engine::doAssert(State& s, const z3::expr& cond0, int id) {
	z3::expr cond = cond0.simplify();
	auto& st = asserts[assertNames[id]];
	st.reached++;
	s.trace.push_back(id);
	if(s.lossy) precisionCandidate(s, id);
	std::shared_ptr<Model> m;
	if(cond.is_true()) { st.trivial++; return; }
	z3::expr nc = (!cond).simplify();
	Res r = check(s, nc, &m, opt.solverTimeout, cond.is_false() || !s.model || opt.real ? false : true);
	if(r == UNSAT) { st.solver++; if(cond.is_false()) throw PathEnd{}; return; }
	if(r == SAT) {
		if(opt.real) { // prefer a well-conditioned counterexample
			unsigned save = opt.solverTimeout; opt.solverTimeout = 3000;
			unsigned seed = opt.seed * 7919 + 13;
			auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return (seed >> 16) & 0x7fff; };
			bool sep = false;
			for(int k = 0; k < 10 && !sep; ++k) {
				z3::expr cs = nc;
				for(auto& x : s.inputs) if(x.var >= 0 && vars[x.var].e.is_real()) {
					if(k < 8 || rnd() % 2) cs = cs && vars[x.var].e == ctx.real_val((int)(rnd() % 9) - 4, k % 2 ? 2 : 1);
					else cs = cs && vars[x.var].e <= 8 && vars[x.var].e >= -8;
				}
				std::shared_ptr<Model> m2;
				if(check(s, cs, &m2, opt.solverTimeout, false) == SAT) { m = m2; sep = true; }
			}
			opt.solverTimeout = save;
		}
		st.failed++;
		report(s, "assert", assertNames[id], "assertion can fail", *m, &nc);
	} else { st.undecided++; undecided.push_back(assertNames[id]); }
	if(cond.is_false() || r == UNK) throw PathEnd{};
	// continue under the assertion, if that is possible
	std::shared_ptr<Model> m3;
	Res c = check(s, cond, &m3, opt.solverTimeout);
	if(c == UNSAT) throw PathEnd{};
	addPC(s, cond);
	s.model = c == SAT ? m3 : nullptr;
}

void Engine::pushFrame(State& s, const Function* f, const std::vector<Val>& a, const CallBase* ci) {
	FuncInfo* fi = info(f);
	if(!fi->counted) { fi->counted = true; funcs.insert(demangle(fi->name)); }
	if(s.fr.size() > opt.maxDepth) violation(s, "recursion", "call depth above " + std::to_string(opt.maxDepth) + " frames");
	if(ci && !ci->getCalledFunction() && !f->isVarArg() && (ci->arg_size() != f->arg_size() || ci->getType() != f->getReturnType()))
		violation(s, "badcall", "indirect call of " + demangle(fi->name) + " with another signature (object of another type)");
	Frame fr;
	fr.fi = fi;
	fr.regs.resize(fi->nregs);
	unsigned i = 0;
	for(auto& arg : f->args()) {
		if(i >= a.size()) throw Unsupported("argument count of " + fi->name);
		Val v = a[i];
		if(arg.hasByValAttr()) {
			uint64_t n = dl->getTypeAllocSize(arg.getParamByValType());
			uint64_t p = alloc(s, n, OStack, "byval");
			fr.allocas.push_back(p);
			uint64_t src = resolve(s, v, n, "byval copy");
			copyMem(s, p, src, n);
			v = vint(64, p);
		}
		fr.regs[fi->idx.find(&arg)->second] = v;
		++i;
	}
	fr.callInst = ci;
	fr.bb = &f->getEntryBlock();
	fr.it = fr.bb->begin();
	s.fr.push_back(std::move(fr));
}
void Engine::popFrame(State& s) {
	Frame& f = s.fr.back();
	for(auto it = f.allocas.rbegin(); it != f.allocas.rend(); ++it) release(s, *it);
	s.fr.pop_back();
}
void Engine::afterCall(State& s, const CallBase& C, const Val& v) {
	Frame& f = s.fr.back();
	if(!C.getType()->isVoidTy()) set(f, &C, v);
	if(auto* iv = dyn_cast<InvokeInst>(&C)) jump(s, iv->getNormalDest());
	else ++f.it;
}
void Engine::doReturn(State& s, Val v) {
	const CallBase* ci = s.fr.back().callInst;
	uint64_t fo = s.fr.back().freeOnReturn;
	bool disc = s.fr.back().discardRet;
	popFrame(s);
	if(fo) release(s, fo);
	if(s.fr.empty()) { return; }
	if(!ci) return; // global constructors driver
	afterCall(s, *ci, disc ? Val{} : v);
}

static const std::map<std::string, std::vector<std::string>>& stdBases() {
	static std::map<std::string, std::vector<std::string>> m;
	if(m.empty()) {
		auto d = [&](const char* a, const char* b) { m[std::string("_ZTI") + a] = {std::string("_ZTI") + b}; };
		d("St9bad_alloc", "St9exception"); d("St8bad_cast", "St9exception"); d("St10bad_typeid", "St9exception"); d("St13bad_exception", "St9exception");
		d("St11logic_error", "St9exception"); d("St13runtime_error", "St9exception"); d("St17bad_function_call", "St9exception");
		d("St12domain_error", "St11logic_error"); d("St16invalid_argument", "St11logic_error"); d("St12length_error", "St11logic_error"); d("St12out_of_range", "St11logic_error");
		d("St11range_error", "St13runtime_error"); d("St14overflow_error", "St13runtime_error"); d("St15underflow_error", "St13runtime_error");
		d("St12bad_weak_ptr", "St9exception"); d("St20bad_array_new_length", "St9bad_alloc"); d("St18bad_variant_access", "St9exception"); d("St19bad_optional_access", "St9exception");
	}
	return m;
}
bool Engine::tiPath(State& s, uint64_t from, uint64_t to, int64_t& off) {
	if(from == to) return true;
	auto nf = tiName.find(from), nt = tiName.find(to);
	if(nf != tiName.end() && nt != tiName.end() && nf->second == nt->second) return true;
	Obj* o = findObj(s, from, false);
	if(!o) return false;
	if(o->kind == OExtern) {
		auto it = stdBases().find(o->name);
		if(it == stdBases().end()) return false;
		for(auto& b : it->second) if(tiPath(s, externGlobal(b), to, off)) return true;
		return false;
	}
	// kind from the vtable pointer
	uint64_t vp = readPtr(s, from);
	Obj* v = findObj(s, vp, false);
	std::string kind = v ? v->name : "";
	if(kind.find("__si_class_type_info") != std::string::npos) return tiPath(s, readPtr(s, from + 16), to, off);
	if(kind.find("__vmi_class_type_info") != std::string::npos) {
		Val c = load(s, vint(64, from + 20), Type::getInt32Ty(mod->getContext()));
		for(uint64_t i = 0; i < c.u; ++i) {
			uint64_t b = readPtr(s, from + 24 + 16 * i);
			Val fl = load(s, vint(64, from + 32 + 16 * i), Type::getInt64Ty(mod->getContext()));
			if(!(fl.u & 2)) continue; // not public
			if(fl.u & 1) throw Unsupported("virtual base in a type info walk");
			int64_t o2 = off + ((int64_t)fl.u >> 8);
			if(tiPath(s, b, to, o2)) { off = o2; return true; }
		}
		return false;
	}
	return false;
}
bool Engine::tiMatch(State& s, uint64_t thrown, uint64_t want, int64_t& off, uint64_t) {
	off = 0;
	if(!want) return true;
	return tiPath(s, thrown, want, off);
}
void Engine::unwind(State& s, uint64_t obj, const Instruction* at) {
	for(;;) {
		Frame& f = s.fr.back();
		if(auto* iv = dyn_cast_or_null<InvokeInst>(at)) {
			const BasicBlock* lpb = iv->getUnwindDest();
			const LandingPadInst* lp = iv->getLandingPadInst();
			int sel = -1; int64_t off = 0;
			for(unsigned i = 0; i < lp->getNumClauses() && sel < 0; ++i) {
				if(lp->isFilter(i)) throw Unsupported("exception filter");
				uint64_t want = constVal(lp->getClause(i)).u;
				if(tiMatch(s, s.exc[obj].tinfo, want, off, obj)) sel = want ? tiId[want] : 1000000;
			}
			if(sel < 0 && lp->isCleanup()) sel = 0;
			if(sel >= 0) {
				jump(s, lpb);
				Frame& g = s.fr.back();
				set(g, lp, vagg({vint(64, obj), vint(32, sel)}));
				g.it = std::next(lp->getIterator());
				return;
			}
		}
		const CallBase* ci = f.callInst;
		if(f.freeOnReturn) violation(s, "terminate", "exception left a destructor during unwinding");
		if(s.fr.size() == 1) {
			auto n = tiName.find(s.exc[obj].tinfo);
			violation(s, "uncaught", "uncaught exception of type " + (n == tiName.end() ? std::string("?") : n->second));
		}
		popFrame(s);
		at = ci;
	}
}
void Engine::throwStd(State& s, const std::string& ti, const CallBase& C) {
	uint64_t o = alloc(s, 64, OHeap, "exception", 'e');
	auto& e = s.exc[o];
	auto* tg = mod->getNamedGlobal(ti);
	uint64_t t = tg && !tg->isDeclaration() ? globalAddr(tg) : externGlobal(ti);
	if(auto* vt = mod->getNamedGlobal("_ZTV" + ti.substr(4)); vt && !vt->isDeclaration())
		store(s, vint(64, o), vint(64, globalAddr(vt) + 16), PointerType::get(mod->getContext(), 0));
	if(!tiId.count(t)) tiId[t] = 2000000 + tiId.size();
	e.tinfo = t; e.thrown = true;
	s.uncaught++;
	unwind(s, o, &C);
}

bool Engine::intrinsic(State& s, const CallBase& C, unsigned id, std::vector<Val>& a, Val& ret) {
	Type* t = C.getType();
	unsigned w = t->isVoidTy() ? 0 : t->getScalarSizeInBits();
	auto elementwise = [&](auto fn) {
		if(auto* vt = dyn_cast<FixedVectorType>(t)) {
			std::vector<Val> r;
			for(unsigned i = 0; i < vt->getNumElements(); ++i) { std::vector<Val> x; for(auto& y : a) x.push_back(y.k == KAgg ? agg(y)[i] : y); r.push_back(fn(x)); }
			ret = vagg(r);
		} else ret = fn(a);
	};
	auto fpfn = [&](const char* nm) {
		elementwise([&](std::vector<Val>& x) -> Val {
			for(auto& v : x) if(isUndef(v)) return vundef(w);
			if(opt.real) return realFn(s, nm, x, w);
			bool conc = true; for(auto& v : x) if(v.k != KInt) conc = false;
			std::string n = nm;
			if(conc) {
				auto D = [&](const Val& v) { if(w == 32) { float f; uint32_t u = v.u; memcpy(&f, &u, 4); return (double)f; } double d; memcpy(&d, &v.u, 8); return d; };
				double r;
				if(n == "fabs") r = std::fabs(D(x[0])); else if(n == "sqrt") r = w == 32 ? (double)std::sqrt((float)D(x[0])) : std::sqrt(D(x[0]));
				else if(n == "fmin") r = std::fmin(D(x[0]), D(x[1])); else if(n == "fmax") r = std::fmax(D(x[0]), D(x[1]));
				else if(n == "copysign") r = std::copysign(D(x[0]), D(x[1]));
				else if(n == "floor") r = std::floor(D(x[0])); else if(n == "ceil") r = std::ceil(D(x[0])); else if(n == "trunc") r = std::trunc(D(x[0])); else if(n == "round") r = std::round(D(x[0]));
				else if(n == "rint") r = std::nearbyint(D(x[0]));
				else throw Unsupported("fp intrinsic " + n);
				if(w == 32) { float f = (float)r; uint32_t u; memcpy(&u, &f, 4); return vint(32, u); }
				uint64_t u; memcpy(&u, &r, 8); return vint(64, u);
			}
			z3::expr e = toFP(x[0], w);
			Z3_ast r;
			if(n == "fabs") r = Z3_mk_fpa_abs(ctx, e);
			else if(n == "sqrt") r = Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), e);
			else if(n == "fmin") r = Z3_mk_fpa_min(ctx, e, toFP(x[1], w));
			else if(n == "fmax") r = Z3_mk_fpa_max(ctx, e, toFP(x[1], w));
			else if(n == "floor") r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), e);
			else if(n == "ceil") r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), e);
			else if(n == "trunc") r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), e);
			else if(n == "round") r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), e);
			else if(n == "rint") r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rne(ctx), e);
			else throw Unsupported("symbolic fp intrinsic " + n);
			return fromFP(w, z3::expr(ctx, r));
		});
	};
	switch(id) {
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
	case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
	case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::assume:
		return true;
	case Intrinsic::stacksave: ret = vint(64, 0); return true;
	case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: ret = a[0]; return true;
	case Intrinsic::threadlocal_address: ret = a[0]; return true;
	case Intrinsic::is_constant: ret = vint(1, 0); return true;
	case Intrinsic::objectsize: ret = vint(w, ~0ull); return true;
	case Intrinsic::trap: violation(s, "trap", "llvm.trap");
	case Intrinsic::ubsantrap: violation(s, "ub", "undefined behaviour check " + std::to_string(a[0].u) + " failed");
	case Intrinsic::eh_typeid_for: ret = vint(32, tiId[a[0].u]); return true;
	case Intrinsic::memcpy: case Intrinsic::memmove: {
		uint64_t n = concretize(s, a[2]);
		if(n) { uint64_t src = resolve(s, a[1], n, "copy source"), dst = resolve(s, a[0], n, "copy destination"); copyMem(s, dst, src, n); }
		return true;
	}
	case Intrinsic::memset: {
		uint64_t n = concretize(s, a[2]);
		if(!n) return true;
		uint64_t d = resolve(s, a[0], n, "memset");
		Obj* o = findObj(s, d, true);
		uint64_t off = d - o->base;
		uint64_t i = 0;
		if(a[1].k == KInt && a[1].u == 0) while(i + 8 <= n) { storeVal(o, off + i, 8, vint(64, 0)); i += 8; }
		for(; i < n; ++i) storeVal(o, off + i, 1, a[1]);
		return true;
	}
	case Intrinsic::fabs: fpfn("fabs"); return true;
	case Intrinsic::sqrt: fpfn("sqrt"); return true;
	case Intrinsic::minnum: fpfn("fmin"); return true;
	case Intrinsic::maxnum: fpfn("fmax"); return true;
	case Intrinsic::copysign: fpfn("copysign"); return true;
	case Intrinsic::floor: fpfn("floor"); return true;
	case Intrinsic::ceil: fpfn("ceil"); return true;
	case Intrinsic::trunc: fpfn("trunc"); return true;
	case Intrinsic::round: fpfn("round"); return true;
	case Intrinsic::rint: case Intrinsic::nearbyint: fpfn("rint"); return true;
	case Intrinsic::fmuladd: case Intrinsic::fma: {
		Val m = binop(s, Instruction::FMul, a[0], a[1], t);
		ret = binop(s, Instruction::FAdd, m, a[2], t);
		return true;
	}
	case Intrinsic::is_fpclass: {
		if(opt.real) { uint64_t m = a[1].u; if(isUndef(a[0])) { ret = vint(1, (m & 3) != 0); return true; } if((m & 0x3) == m || (m & 0x207) == m) { ret = vint(1, 0); return true; }
			m &= 0x1f8; // a finite real is negative, zero or positive
			bool ng = m & 24, ze = m & 96, ps = m & 384;
			if(ng && ze && ps) { ret = vint(1, 1); return true; }
			if(!ng && !ze && !ps) { ret = vint(1, 0); return true; }
			poly::Rat x = toRat(a[0]);
			bool z = decide(s, ratSign(x, 0));
			if(z) { ret = vint(1, ze); return true; }
			ret = vint(1, ng == ps ? ng : decide(s, ratSign(x, 1)) ? ng : ps);
			return true;
		}
		unsigned fw = C.getArgOperand(0)->getType()->getScalarSizeInBits();
		z3::expr x = toFP(a[0], fw), r = ctx.bool_val(false);
		uint64_t m = a[1].u;
		auto E = [&](Z3_ast q) { return z3::expr(ctx, q); };
		z3::expr neg = E(Z3_mk_fpa_is_negative(ctx, x)), pos = E(Z3_mk_fpa_is_positive(ctx, x));
		if(m & 3) r = r || E(Z3_mk_fpa_is_nan(ctx, x));
		if(m & 4) r = r || (E(Z3_mk_fpa_is_infinite(ctx, x)) && neg);
		if(m & 8) r = r || (E(Z3_mk_fpa_is_normal(ctx, x)) && neg);
		if(m & 16) r = r || (E(Z3_mk_fpa_is_subnormal(ctx, x)) && neg);
		if(m & 32) r = r || (E(Z3_mk_fpa_is_zero(ctx, x)) && neg);
		if(m & 64) r = r || (E(Z3_mk_fpa_is_zero(ctx, x)) && pos);
		if(m & 128) r = r || (E(Z3_mk_fpa_is_subnormal(ctx, x)) && pos);
		if(m & 256) r = r || (E(Z3_mk_fpa_is_normal(ctx, x)) && pos);
		if(m & 512) r = r || (E(Z3_mk_fpa_is_infinite(ctx, x)) && pos);
		ret = fromBool(r);
		return true;
	}
	case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
		unsigned p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
		elementwise([&](std::vector<Val>& x) { return select(s, icmp(s, p, x[0], x[1], w), x[0], x[1], t->getScalarType()); });
		return true;
	}
	case Intrinsic::abs:
		elementwise([&](std::vector<Val>& x) { return select(s, icmp(s, CmpInst::ICMP_SLT, x[0], vint(w, 0), w), binop(s, Instruction::Sub, vint(w, 0), x[0], t->getScalarType()), x[0], t->getScalarType()); });
		return true;
	case Intrinsic::usub_sat:
		ret = select(s, icmp(s, CmpInst::ICMP_UGE, a[0], a[1], w), binop(s, Instruction::Sub, a[0], a[1], t), vint(w, 0), t);
		return true;
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
	case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
		Type* it = C.getArgOperand(0)->getType();
		unsigned ww = it->getIntegerBitWidth();
		if(isUndef(a[0]) || isUndef(a[1])) { ret = vagg({vundef(ww), vundef(1)}); return true; }
		bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
		unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
		Val r = binop(s, op, a[0], a[1], it);
		z3::expr x = toBV(a[0]), y = toBV(a[1]);
		z3::expr ok = ctx.bool_val(true);
		auto E = [&](Z3_ast q) { return z3::expr(ctx, q); };
		if(op == Instruction::Mul) {
			ok = E(Z3_mk_bvmul_no_overflow(ctx, x, y, sg));
			if(sg) ok = ok && E(Z3_mk_bvmul_no_underflow(ctx, x, y));
		} else {
			z3::expr ex1 = sg ? z3::sext(x, 1) : z3::zext(x, 1), ey = sg ? z3::sext(y, 1) : z3::zext(y, 1);
			z3::expr f = op == Instruction::Add ? ex1 + ey : ex1 - ey;
			z3::expr g = sg ? z3::sext(f.extract(ww - 1, 0), 1) : z3::zext(f.extract(ww - 1, 0), 1);
			ok = f == g;
		}
		ret = vagg({r, fromBool(!ok)});
		return true;
	}
	case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
		if(isUndef(a[0])) { ret = vundef(w); return true; }
		if(a[0].k == KInt) {
			uint64_t x = a[0].u, r = 0;
			if(id == Intrinsic::ctpop) r = __builtin_popcountll(x);
			else if(id == Intrinsic::ctlz) r = x ? __builtin_clzll(x) - (64 - w) : w;
			else if(id == Intrinsic::cttz) r = x ? __builtin_ctzll(x) : w;
			else for(unsigned i = 0; i < w; i += 8) r |= ((x >> i) & 255) << (w - 8 - i);
			ret = vint(w, r);
			return true;
		}
		z3::expr x = toBV(a[0]), r = ctx.bv_val(0, w);
		if(id == Intrinsic::ctpop) { for(unsigned i = 0; i < w; ++i) r = r + z3::zext(x.extract(i, i), w - 1); }
		else if(id == Intrinsic::ctlz) { r = ctx.bv_val(w, w); for(unsigned i = 0; i < w; ++i) r = z3::ite(x.extract(i, i) == ctx.bv_val(1, 1), ctx.bv_val(w - 1 - i, w), r); }
		else if(id == Intrinsic::cttz) { r = ctx.bv_val(w, w); for(unsigned i = w; i-- > 0;) r = z3::ite(x.extract(i, i) == ctx.bv_val(1, 1), ctx.bv_val(i, w), r); }
		else { r = x.extract(7, 0); for(unsigned i = 8; i < w; i += 8) r = z3::concat(r, x.extract(i + 7, i)); }
		ret = fromBV(w, r);
		return true;
	}
	case Intrinsic::vector_reduce_fadd: {
		Val r = a[0];
		for(auto& x : agg(a[1])) r = binop(s, Instruction::FAdd, r, x, t);
		ret = r; return true;
	}
	default:
		throw Unsupported("intrinsic " + C.getCalledFunction()->getName().str());
	}
}

// library functions and the harness interface. handled=false: not a builtin.
// Returns true when control was transferred (exception thrown, frame pushed).
bool Engine::builtin(State& s, const CallBase& C, const std::string& n, std::vector<Val>& a, Val& ret, bool& handled) {
	handled = true;
	Type* t = C.getType();
	unsigned w = t->isVoidTy() ? 0 : t->isPointerTy() ? 64 : (unsigned)t->getPrimitiveSizeInBits();
	auto starts = [&](const char* p) { return n.rfind(p, 0) == 0; };
	if(starts("__sx_")) {
		if(n == "__sx_int") { // (bits, name) -> u64
			unsigned bits = a[0].u;
			std::string nm = readStr(s, a[1].u);
			int v = newVar(ctx.bv_sort(bits), nm);
			vars[v].input = true;
			s.inputs.push_back({'i', bits, nm, v, 0});
			ret = fromBV(64, bits == 64 ? vars[v].e : z3::zext(vars[v].e, 64 - bits));
			return false;
		}
		if(n == "__sx_f64" || n == "__sx_f32") {
			unsigned bits = n == "__sx_f64" ? 64 : 32;
			std::string nm = readStr(s, a[0].u);
			if(opt.real) {
				int v = realVar(nm); vars[v].input = true;
				s.inputs.push_back({'f', bits, nm, v, 0});
				ret = vreal(bits, poly::Rat(poly::Poly::var(v)));
			} else {
				int v = newVar(ctx.bv_sort(bits), nm); vars[v].input = true;
				s.inputs.push_back({'f', bits, nm, v, 0});
				ret = vsym(bits, z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, vars[v].e, fsort(bits))));
			}
			return false;
		}
		if(n == "__sx_choice") {
			uint64_t k = choose(s, (int64_t)a[0].u);
			s.inputs.push_back({'c', 32, readStr(s, a[1].u), -1, k});
			ret = vint(32, k);
			return false;
		}
		if(n == "__sx_concretize") { ret = vint(64, concretize(s, a[0])); return false; }
		if(n == "__sx_assume") {
			if(isUndef(a[0])) violation(s, "uninit", "assumption on an uninitialised value");
			if(a[0].k == KInt) { if(!a[0].u) { ++assumedAway; throw PathEnd{}; } return false; }
			z3::expr c = (toBV(a[0]) != ctx.bv_val(0, a[0].w)).simplify();
			std::shared_ptr<Model> m;
			if(!opt.real && s.model && evalModel(*s.model, c) == 1) m = s.model;
			else { Res r = check(s, c, &m, opt.real ? opt.feasTimeout : opt.solverTimeout); if(r == UNSAT) { ++assumedAway; throw PathEnd{}; } }
			addPC(s, c);
			s.model = m;
			return false;
		}
		if(n == "__sx_assert") {
			if(isUndef(a[0])) violation(s, "uninit", "assertion on an uninitialised value: " + readStr(s, a[1].u));
			int id = assertId(readStr(s, a[1].u));
			if(a[0].k == KInt) { doAssert(s, ctx.bool_val(a[0].u != 0), id); return false; }
			doAssert(s, toBV(a[0]) != ctx.bv_val(0, a[0].w), id);
			return false;
		}
		if(n == "__sx_assert_eq_f64" || n == "__sx_assert_eq_f32") {
			int id = assertId(readStr(s, a[2].u));
			if(opt.real) { assertEqReal(s, a[0], a[1], id, n == "__sx_assert_eq_f64"); return false; }
			if(isUndef(a[0]) || isUndef(a[1])) violation(s, "uninit", "assertion on an uninitialised value: " + readStr(s, a[2].u));
			unsigned fw = n == "__sx_assert_eq_f64" ? 64 : 32;
			if(a[0].k == KSym && a[1].k == KSym && z3::eq(ex(a[0]), ex(a[1]))) { doAssert(s, ctx.bool_val(true), id); return false; }
			// same value: equal numbers (both zeros are one) or both NaN
			z3::expr x = toFP(a[0], fw), y = toFP(a[1], fw);
			z3::expr eq(ctx, Z3_mk_fpa_eq(ctx, x, y));
			z3::expr nx(ctx, Z3_mk_fpa_is_nan(ctx, x)), ny(ctx, Z3_mk_fpa_is_nan(ctx, y));
			doAssert(s, eq || (nx && ny), id);
			return false;
		}
		if(n == "__sx_assume_eq_f64") {
			if(!opt.real) { addPC(s, toFP(a[0], 64) == toFP(a[1], 64)); s.model = nullptr; return false; }
			poly::Rat d = poly::radd(toRat(a[0]), toRat(a[1]), -1);
			if(d.num.zero()) return false;
			addPC(s, ratSign(d, 0));
			s.model = nullptr;
			// install a rewrite rule v^2 -> rest when some variable occurs only squared, with a constant coefficient
			auto& p = d.num;
			for(auto& tm : p.t) {
				if(tm.first.size() != 1 || poly::mexp(tm.first[0]) != 2) continue;
				uint32_t v = poly::mvar(tm.first[0]);
				if(poly::rules.sq.count(v)) continue;
				int occ = 0;
				for(auto& o : p.t) for(char32_t c : o.first) if(poly::mvar(c) == v) occ++;
				if(occ != 1) continue;
				// the rest must not contain variables whose rules mention v
				poly::Poly rest;
				for(auto& o : p.t) if(!(o.first == tm.first)) rest.t.push_back({o.first, -o.second / tm.second});
				bool bad = false;
				for(auto& r : poly::rules.sq) for(auto& o : r.second.t) for(char32_t c : o.first) if(poly::mvar(c) == v) { bool inRest = false; for(auto& q : rest.t) for(char32_t c2 : q.first) if(poly::mvar(c2) == r.first) inRest = true; bad |= inRest; }
				if(bad) continue;
				poly::rules.sq[v] = rest;
				break;
			}
			return false;
		}
		if(n == "__sx_live_heap") { ret = vint(w, s.heapLive); return false; }
		if(n == "__sx_fail_alloc") { s.failAlloc = (int)concretize(s, a[0]); return false; }
		if(n == "__sx_note") { if(getenv("SX_DEBUG")) std::cerr << "note: " << readStr(s, a[0].u) << "\n"; return false; }
		if(n == "__sx_dump_f64") { if(getenv("SX_DEBUG")) std::cerr << readStr(s, a[1].u) << " = " << (a[0].k == KReal ? ratStr(rat(a[0])) : a[0].k == KSym ? ex(a[0]).to_string() : "int/undef " + std::to_string(a[0].u)) << "\n"; return false; }
		if(n == "__sx_abs_fork") { opt.absFork = a[0].u; return false; }
		if(n == "__sx_violation") violation(s, "model", readStr(s, a[0].u));
		throw Unsupported("unknown harness function " + n);
	}
	// allocation
	if(n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t") {
		uint64_t sz = concretize(s, a[0]);
		if(sz > (1u << 24)) { throwStd(s, "_ZTISt9bad_alloc", C); return true; }
		if(s.failAlloc >= 0 && s.failAlloc-- == 0) {
			if(n == "malloc" || n == "_ZnwmRKSt9nothrow_t") { ret = vint(64, 0); return false; }
			throwStd(s, "_ZTISt9bad_alloc", C);
			return true;
		}
		ret = vint(64, alloc(s, sz, OHeap, "heap", n == "_Znwm" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" ? 'n' : n == "_Znam" ? 'a' : 'm'));
		return false;
	}
	if(n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
		uint64_t p = concretize(s, a[0]);
		if(!p) return false;
		Obj* o = findObj(s, p, false);
		if(!o || o->base != p || o->kind != OHeap) violation(s, "free", "invalid or double deallocation");
		char want = n[0] == 'f' ? 'm' : n[3] == 'a' ? 'a' : 'n';
		if(o->heapKind != want) violation(s, "free", "mismatched deallocation function");
		if(n == "_ZdlPvm" && a[1].k == KInt && a[1].u != o->size) violation(s, "free", "sized deallocation with the wrong size");
		release(s, p);
		return false;
	}
	// exceptions
	if(n == "__cxa_allocate_exception") { ret = vint(64, alloc(s, concretize(s, a[0]), OHeap, "exception", 'e')); s.exc[ret.u]; return false; }
	if(n == "__cxa_free_exception") { release(s, a[0].u); s.exc.erase(a[0].u); return false; }
	if(n == "__cxa_throw") {
		auto& e = s.exc[a[0].u];
		e.tinfo = a[1].u; e.dtor = a[2].u; e.thrown = true;
		s.uncaught++;
		unwind(s, a[0].u, &C);
		return true;
	}
	if(n == "__cxa_get_exception_ptr") { ret = a[0]; return false; }
	if(n == "__cxa_begin_catch") {
		uint64_t o = a[0].u;
		auto& e = s.exc[o];
		if(e.thrown) { s.uncaught--; e.thrown = false; }
		e.handlers++;
		s.caught.push_back(o);
		ret = vint(64, o); // base-class offset 0 is assumed for caught class types
		return false;
	}
	if(n == "__cxa_end_catch") {
		if(s.caught.empty()) return false;
		uint64_t o = s.caught.back();
		s.caught.pop_back();
		auto& e = s.exc[o];
		if(--e.handlers == 0 && !e.thrown && --e.refs == 0) {
			uint64_t d = e.dtor;
			s.exc.erase(o);
			if(d) {
				auto it = faddr.find(d);
				if(it != faddr.end() && !it->second->isDeclaration()) {
					pushFrame(s, it->second, {vint(64, o)}, &C);
					s.fr.back().freeOnReturn = o;
					s.fr.back().discardRet = true;
					return true;
				}
			}
			release(s, o);
		}
		return false;
	}
	if(n == "__cxa_rethrow") {
		if(s.caught.empty()) violation(s, "terminate", "rethrow without an active exception");
		uint64_t o = s.caught.back();
		s.exc[o].thrown = true;
		s.uncaught++;
		unwind(s, o, &C);
		return true;
	}
	if(n == "_ZSt17current_exceptionv") { // sret: exception_ptr
		uint64_t o = s.caught.empty() ? 0 : s.caught.back();
		if(o) s.exc[o].refs++;
		store(s, a[0], vint(64, o), PointerType::get(mod->getContext(), 0));
		return false;
	}
	if(n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") {
		uint64_t o = readPtr(s, a[0].u);
		if(!o) violation(s, "terminate", "rethrow_exception of null");
		s.exc[o].thrown = true; s.uncaught++;
		unwind(s, o, &C);
		return true;
	}
	if(n == "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv") { uint64_t o = readPtr(s, a[0].u); if(o) s.exc[o].refs++; return false; }
	if(n == "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv") {
		uint64_t o = readPtr(s, a[0].u);
		if(o) { auto& e = s.exc[o]; if(--e.refs == 0 && e.handlers == 0) { s.exc.erase(o); release(s, o); } store(s, a[0], vint(64, 0), PointerType::get(mod->getContext(), 0)); }
		return false;
	}
	if(n == "_ZSt19uncaught_exceptionsv") { ret = vint(w, s.uncaught); return false; }
	if(n == "_ZSt18uncaught_exceptionv") { ret = vint(w, s.uncaught > 0); return false; }
	if(n == "_ZSt9terminatev" || n == "__clang_call_terminate") violation(s, "terminate", "std::terminate");
	if(n == "abort") violation(s, "abort", "abort()");
	if(n == "__assert_fail") violation(s, "assertfail", "assert(" + readStr(s, a[0].u) + ")");
	if(n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") violation(s, "assertfail", "libstdc++ assertion " + readStr(s, a[3].u));
	if(n == "__cxa_pure_virtual") violation(s, "purevirtual", "pure virtual call");
	if(n == "__cxa_guard_acquire") { Val v = load(s, a[0], Type::getInt8Ty(mod->getContext())); ret = vint(32, !(v.k == KInt && v.u)); return false; }
	if(n == "__cxa_guard_release") { store(s, a[0], vint(8, 1), Type::getInt8Ty(mod->getContext())); return false; }
	if(n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "__cxa_thread_atexit") { if(w) ret = vint(w, 0); return false; }
	if(starts("_ZSt") && n.find("__throw_") != std::string::npos) {
		static const std::vector<std::pair<const char*, const char*>> m = {
			{"__throw_bad_function_call", "_ZTISt17bad_function_call"}, {"__throw_length_error", "_ZTISt12length_error"}, {"__throw_out_of_range", "_ZTISt12out_of_range"},
			{"__throw_bad_alloc", "_ZTISt9bad_alloc"}, {"__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"__throw_logic_error", "_ZTISt11logic_error"},
			{"__throw_invalid_argument", "_ZTISt16invalid_argument"}, {"__throw_runtime_error", "_ZTISt13runtime_error"}, {"__throw_range_error", "_ZTISt11range_error"},
			{"__throw_bad_cast", "_ZTISt8bad_cast"}, {"__throw_bad_weak_ptr", "_ZTISt12bad_weak_ptr"}, {"__throw_domain_error", "_ZTISt12domain_error"},
			{"__throw_bad_optional_access", "_ZTISt19bad_optional_access"}, {"__throw_bad_variant_access", "_ZTISt18bad_variant_access"}};
		for(auto& x : m) if(n.find(x.first) != std::string::npos) { throwStd(s, x.second, C); return true; }
	}
	if(n == "__dynamic_cast") {
		if(!a[0].u) { ret = vint(64, 0); return false; }
		uint64_t vp = readPtr(s, a[0].u);
		int64_t top = (int64_t)readPtr(s, vp - 16);
		uint64_t ti = readPtr(s, vp - 8), whole = a[0].u + top;
		int64_t off = 0;
		if(tiPath(s, ti, a[2].u, off)) ret = vint(64, whole + off); else ret = vint(64, 0);
		return false;
	}
	// streams: formatting is not the subject of any property
	if(starts("_ZNSo") || starts("_ZStls") || starts("_ZSt16__ostream_insert") || starts("_ZNSt8ios_base") || starts("_ZNSt13basic_ostream") || starts("_ZSt4endl") || starts("_ZSt5flush")) {
		stubs.insert(demangle(n));
		if(w == 64) ret = a[0]; else if(w) throw Unsupported("stream function " + n);
		return false;
	}
	// memory and strings
	if(n == "memcpy" || n == "memmove") {
		uint64_t k = concretize(s, a[2]);
		if(k) { uint64_t src = resolve(s, a[1], k, "copy source"), dst = resolve(s, a[0], k, "copy destination"); copyMem(s, dst, src, k); }
		ret = a[0];
		return false;
	}
	if(n == "memcmp" || n == "bcmp" || n == "strncmp_") {
		uint64_t k = concretize(s, a[2]);
		if(!k) { ret = vint(32, 0); return false; }
		uint64_t x = resolve(s, a[0], k, "memcmp"), y = resolve(s, a[1], k, "memcmp");
		Obj *ox = findObj(s, x, false), *oy = findObj(s, y, false);
		z3::expr r = ctx.bv_val(0, 32);
		bool conc = true; int cr = 0;
		std::vector<std::pair<Val, Val>> bs;
		for(uint64_t i = 0; i < k; ++i) {
			Val p = loadBytes(s, ox, x - ox->base + i, 1), q = loadBytes(s, oy, y - oy->base + i, 1);
			if(isUndef(p) || isUndef(q)) violation(s, "uninit", "memcmp of uninitialised bytes");
			if(p.k != KInt || q.k != KInt) conc = false;
			bs.push_back({p, q});
		}
		if(conc) { for(auto& b : bs) if(b.first.u != b.second.u) { cr = b.first.u < b.second.u ? -1 : 1; break; } ret = vint(32, (uint64_t)(int64_t)cr); return false; }
		for(size_t i = bs.size(); i-- > 0;) { z3::expr p = toBV(bs[i].first), q = toBV(bs[i].second); r = z3::ite(p == q, r, z3::ite(z3::ult(p, q), ctx.bv_val(-1, 32), ctx.bv_val(1, 32))); }
		ret = fromBV(32, r);
		return false;
	}
	if(n == "strlen") {
		uint64_t p = resolve(s, a[0], 1, "strlen");
		for(uint64_t i = 0;; ++i) {
			uint64_t q = resolve(s, vint(64, p + i), 1, "strlen");
			Obj* o = findObj(s, q, false);
			Val v = loadBytes(s, o, q - o->base, 1);
			if(isUndef(v)) violation(s, "uninit", "strlen of uninitialised bytes");
			bool z = v.k == KInt ? v.u == 0 : decide(s, toBV(v) == ctx.bv_val(0, 8));
			if(z) { ret = vint(64, i); return false; }
		}
	}
	if(n == "memchr") {
		uint64_t k = concretize(s, a[2]);
		uint64_t c = concretize(s, a[1]) & 255;
		if(!k) { ret = vint(64, 0); return false; }
		uint64_t p = resolve(s, a[0], k, "memchr");
		Obj* o = findObj(s, p, false);
		for(uint64_t i = 0; i < k; ++i) {
			Val v = loadBytes(s, o, p - o->base + i, 1);
			if(isUndef(v)) violation(s, "uninit", "memchr of uninitialised bytes");
			bool z = v.k == KInt ? v.u == c : decide(s, toBV(v) == ctx.bv_val((uint64_t)c, 8));
			if(z) { ret = vint(64, p + i); return false; }
		}
		ret = vint(64, 0);
		return false;
	}
	// libm
	if(n == "sincos" || n == "sincosf") {
		Type* t = n == "sincos" ? Type::getDoubleTy(mod->getContext()) : Type::getFloatTy(mod->getContext());
		unsigned fw = n == "sincos" ? 64 : 32;
		if(isUndef(a[0])) { store(s, a[1], vundef(fw), t); store(s, a[2], vundef(fw), t); return false; }
		if(!opt.real) throw Unsupported("sincos");
		store(s, a[1], realFn(s, "sin", {a[0]}, fw), t);
		store(s, a[2], realFn(s, "cos", {a[0]}, fw), t);
		return false;
	}
	if((n == "ldexp" || n == "ldexpf") && opt.real && a[1].k == KInt && std::abs((int)a[1].u) < 64) {
		if(isUndef(a[0])) { ret = vundef(w); return false; }
		int e = (int)a[1].u;
		mpq_class q = 1;
		for(int i = 0; i < std::abs(e); ++i) q *= 2;
		if(e < 0) q = 1 / q;
		ret = vreal(w, rmul(toRat(a[0]), poly::Rat(q)));
		return false;
	}
	{
		static const std::map<std::string, std::string> lm = {{"sqrtf", "sqrt"}, {"sqrt", "sqrt"}, {"sinf", "sin"}, {"sin", "sin"}, {"cosf", "cos"}, {"cos", "cos"}, {"tanf", "tan"}, {"tan", "tan"},
			{"acosf", "acos"}, {"acos", "acos"}, {"asinf", "asin"}, {"asin", "asin"}, {"atan2f", "atan2"}, {"atan2", "atan2"}, {"atanf", "atan"}, {"atan", "atan"}, {"powf", "pow"}, {"pow", "pow"}, {"fabsf", "fabs"}, {"fabs", "fabs"}, {"fmin", "fmin"}, {"fminf", "fmin"}, {"fmax", "fmax"}, {"fmaxf", "fmax"},
			{"expf", "exp"}, {"exp", "exp"}, {"logf", "log"}, {"log", "log"}, {"copysign", "copysign"}, {"copysignf", "copysign"}, {"hypot", "hypot"}, {"hypotf", "hypot"}, {"cabs", "hypot"}, {"cabsf", "hypot"}, {"fdim", "fdim"}, {"fdimf", "fdim"}, {"fmod", "fmod"}, {"fmodf", "fmod"}, {"remainder", "remainder"}, {"remainderf", "remainder"}};
		auto& more = libmMore;
		std::string n64 = w == 32 && n.size() > 1 && n.back() == 'f' ? n.substr(0, n.size() - 1) : n;
		if(n == "cabsf" && a.size() == 1 && a[0].k == KAgg) { std::vector<Val> parts = agg(a[0]); a = parts; }
		auto mt = more.find(n64);
		auto it = lm.find(n);
		if(it != lm.end() || mt != more.end()) {
			for(auto& v : a) if(isUndef(v)) { ret = vundef(w); return false; }
			if(opt.real) { ret = realFn(s, it != lm.end() ? it->second : n64, a, w); return false; }
			const std::string fname = it != lm.end() ? it->second : n64;
			if(fname == "sqrt" || fname == "fabs" || fname == "fmin" || fname == "fmax") {
				if(fname == "sqrt" && a[0].k != KInt) { ret = fromFP(w, z3::expr(ctx, Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), toFP(a[0], w)))); return false; }
				unsigned id = fname == "sqrt" ? Intrinsic::sqrt : fname == "fabs" ? Intrinsic::fabs : fname == "fmin" ? Intrinsic::minnum : Intrinsic::maxnum;
				intrinsic(s, C, id, a, ret);
				return false;
			}
			bool conc = true; for(auto& v : a) if(v.k != KInt) conc = false;
			if(conc) { ret = vint(w, libm(fname, w, a[0].u, a.size() > 1 ? a[1].u : 0)); return false; }
			std::string key = fname + std::to_string(w);
			for(auto& v : a) key += "|" + (v.k == KInt ? std::to_string(v.u) : "e" + std::to_string(Z3_get_ast_id(ctx, ex(v))));
			auto f = opaqueFn.find(key);
			int v;
			if(f == opaqueFn.end()) {
				v = newVar(ctx.bv_sort(w), n);
				opaqueFn[key] = v;
				OpaqueCall oc {fname, w, {}};
				for(auto& x : a) { if(x.k == KSym) keep.push_back(ex(x)); oc.args.push_back(toFP(x, w)); }
				opaqueCalls.emplace(v, std::move(oc));
			} else v = f->second;
			stubs.insert(n + " (uninterpreted, refined by its values)");
			ret = vsym(w, z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, vars[v].e, fsort(w))));
			return false;
		}
	}
	handled = false;
	return false;
}

void Engine::doCall(State& s, const CallBase& C) {
	Frame& f = s.fr.back();
	std::vector<Val> a;
	for(auto& x : C.args()) a.push_back(get(f, x));
	const Function* callee = C.getCalledFunction();
	if(!callee) {
		Value* cv = C.getCalledOperand()->stripPointerCasts();
		callee = dyn_cast<Function>(cv);
		if(!callee) {
			if(isa<InlineAsm>(cv)) { if(C.getType()->isVoidTy()) { afterCall(s, C, Val{}); return; } throw Unsupported("inline asm"); }
			Val p = get(f, C.getCalledOperand());
			if(isUndef(p)) violation(s, "uninit", "call through an uninitialised pointer");
			uint64_t ad = concretize(s, p);
			auto it = faddr.find(ad);
			if(it == faddr.end()) violation(s, ad < 4096 ? "null" : "badcall", "call through an invalid function pointer");
			callee = it->second;
		}
	}
	if(callee->isIntrinsic()) {
		Val r;
		intrinsic(s, C, callee->getIntrinsicID(), a, r);
		if(!r.k && !C.getType()->isVoidTy()) throw Unsupported("intrinsic result");
		afterCall(s, C, r);
		return;
	}
	FuncInfo* fi = info(callee);
	if(fi->special != 0) {
		Val r; bool handled = false;
		// streams and other library names are intercepted even when a body exists
		bool decl = callee->isDeclaration();
		const std::string& n = fi->name;
		// (unless the harness brings a model of them)
		bool streams = n.rfind("_ZStls", 0) == 0 || n.rfind("_ZNSo", 0) == 0;
		if(streams && callee->getParent()->getFunction("_Z11modelStreamv")) streams = false;
		bool force = decl || streams || n == "__clang_call_terminate" || n.find("__throw_bad_optional_access") != std::string::npos;
		if(force) {
			bool moved = builtin(s, C, n, a, r, handled);
			if(handled) { if(decl && n.rfind("__sx_", 0) != 0) stubs.insert(demangle(n)); if(!moved) afterCall(s, C, r); return; }
			if(decl) throw Unsupported("external function " + demangle(n) + " [" + n + "]");
		}
		fi->special = 0;
	}
	if(callee->isVarArg()) { // without va_start the further arguments are only evaluated
		for(auto& i : instructions(*callee)) if(auto* v = dyn_cast<VAStartInst>(&i)) { (void) v; throw Unsupported("variadic function " + fi->name); }
		a.resize(callee->arg_size());
	}
	pushFrame(s, callee, a, &C);
}

void Engine::exec(State& s, const Instruction& I) {
	Frame& f = s.fr.back();
	switch(I.getOpcode()) {
	case Instruction::Ret: {
		auto* r = cast<ReturnInst>(&I);
		doReturn(s, r->getReturnValue() ? get(f, r->getReturnValue()) : Val{});
		return;
	}
	case Instruction::Br: {
		auto* b = cast<BranchInst>(&I);
		if(b->isUnconditional()) { jump(s, b->getSuccessor(0)); return; }
		Val c = get(f, b->getCondition());
		bool t;
		if(c.k == KInt) t = c.u & 1;
		else if(isUndef(c)) { violation(s, "uninit", "branch on an uninitialised value"); }
		else { uint64_t before = forks; t = decide(s, toBool(c)); if(forks != before) forkSites[f.fi->name]++; }
		jump(s, b->getSuccessor(t ? 0 : 1));
		return;
	}
	case Instruction::Switch: {
		auto* sw = cast<SwitchInst>(&I);
		Val c = get(f, sw->getCondition());
		if(isUndef(c)) violation(s, "uninit", "switch on an uninitialised value");
		if(c.k == KInt) {
			for(auto& k : sw->cases()) if(k.getCaseValue()->getZExtValue() == c.u) { jump(s, k.getCaseSuccessor()); return; }
			jump(s, sw->getDefaultDest());
			return;
		}
		z3::expr e = toBV(c);
		for(auto& k : sw->cases()) if(decide(s, e == ctx.bv_val((uint64_t)k.getCaseValue()->getZExtValue(), c.w))) { jump(s, k.getCaseSuccessor()); return; }
		jump(s, sw->getDefaultDest());
		return;
	}
	case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
	case Instruction::Resume: {
		Val v = get(f, I.getOperand(0));
		unwind(s, agg(v)[0].u, nullptr);
		return;
	}
	case Instruction::Unreachable: violation(s, "unreachable", "reached llvm unreachable");
	case Instruction::LandingPad: throw Unsupported("landingpad reached normally");
	case Instruction::Alloca: {
		auto& al = cast<AllocaInst>(I);
		uint64_t n = dl->getTypeAllocSize(al.getAllocatedType());
		if(al.isArrayAllocation()) n *= concretize(s, get(f, al.getArraySize()));
		uint64_t a = alloc(s, n, OStack, al.getName().str());
		f.allocas.push_back(a);
		set(f, &I, vint(64, a));
		break;
	}
	case Instruction::Load: {
		Val v = load(s, get(f, I.getOperand(0)), I.getType());
		set(f, &I, v);
		break;
	}
	case Instruction::Store:
		store(s, get(f, I.getOperand(1)), get(f, I.getOperand(0)), I.getOperand(0)->getType());
		break;
	case Instruction::GetElementPtr: {
		auto& g = cast<GetElementPtrInst>(I);
		if(g.getType()->isVectorTy()) throw Unsupported("vector gep");
		Val base = get(f, g.getPointerOperand());
		if(isUndef(base)) { set(f, &I, vundef(64)); break; }
		uint64_t off = 0; bool sym = false;
		z3::expr soff(ctx);
		for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
			Val ix = get(f, it.getOperand());
			if(auto* st = it.getStructTypeOrNull()) { off += dl->getStructLayout(st)->getElementOffset(ix.u); continue; }
			uint64_t es = dl->getTypeAllocSize(it.getIndexedType());
			unsigned iw = it.getOperand()->getType()->getIntegerBitWidth();
			if(ix.k == KInt) off += es * (uint64_t)((int64_t)(ix.u << (64 - iw)) >> (64 - iw));
			else if(isUndef(ix)) violation(s, "uninit", "index is uninitialised");
			else {
				z3::expr x = toBV(ix);
				if(iw < 64) x = z3::sext(x, 64 - iw);
				x = x * ctx.bv_val((uint64_t)es, 64);
				soff = sym ? soff + x : x; sym = true;
			}
		}
		if(!sym && base.k == KInt) set(f, &I, vint(64, base.u + off));
		else { z3::expr x = toBV(base) + ctx.bv_val((uint64_t)off, 64); if(sym) x = x + soff; set(f, &I, fromBV(64, x)); }
		break;
	}
	case Instruction::ICmp: {
		auto& c = cast<ICmpInst>(I);
		Val a = get(f, c.getOperand(0)), b = get(f, c.getOperand(1));
		Type* t = c.getOperand(0)->getType();
		unsigned w = t->isPtrOrPtrVectorTy() ? 64 : t->getScalarSizeInBits();
		if(t->isVectorTy()) { std::vector<Val> r; for(size_t i = 0; i < agg(a).size(); ++i) r.push_back(icmp(s, c.getPredicate(), agg(a)[i], agg(b)[i], w)); set(f, &I, vagg(r)); }
		else set(f, &I, icmp(s, c.getPredicate(), a, b, w));
		break;
	}
	case Instruction::FCmp: {
		auto& c = cast<FCmpInst>(I);
		Val a = get(f, c.getOperand(0)), b = get(f, c.getOperand(1));
		Type* t = c.getOperand(0)->getType();
		unsigned w = t->getScalarSizeInBits();
		if(w > 64) throw Unsupported("long double");
		if(t->isVectorTy()) { std::vector<Val> r; for(size_t i = 0; i < agg(a).size(); ++i) r.push_back(fcmp(s, c.getPredicate(), agg(a)[i], agg(b)[i], w)); set(f, &I, vagg(r)); }
		else set(f, &I, fcmp(s, c.getPredicate(), a, b, w));
		break;
	}
	case Instruction::FNeg: {
		Val a = get(f, I.getOperand(0));
		unsigned w = I.getType()->getScalarSizeInBits();
		auto neg = [&](const Val& x) -> Val {
			if(isUndef(x)) return vundef(w);
			if(opt.real) return vreal(w, poly::rneg(toRat(x)));
			if(x.k == KInt) return vint(w, x.u ^ (1ull << (w - 1)));
			return fromFP(w, z3::expr(ctx, Z3_mk_fpa_neg(ctx, toFP(x, w))));
		};
		if(I.getType()->isVectorTy()) { std::vector<Val> r; for(auto& x : agg(a)) r.push_back(neg(x)); set(f, &I, vagg(r)); }
		else set(f, &I, neg(a));
		break;
	}
	case Instruction::Select: {
		Val c = get(f, I.getOperand(0)), a = get(f, I.getOperand(1)), b = get(f, I.getOperand(2));
		if(c.k == KAgg) { std::vector<Val> r; for(size_t i = 0; i < agg(c).size(); ++i) r.push_back(select(s, agg(c)[i], agg(a)[i], agg(b)[i], I.getType()->getScalarType())); set(f, &I, vagg(r)); }
		else { Val r = select(s, c, a, b, I.getType()); set(f, &I, r); }
		break;
	}
	case Instruction::Freeze: {
		Val a = get(f, I.getOperand(0));
		if(isUndef(a)) a = vint(a.w, 0);
		set(f, &I, a);
		break;
	}
	case Instruction::ExtractValue: {
		auto& e = cast<ExtractValueInst>(I);
		Val v = get(f, e.getAggregateOperand());
		for(unsigned i : e.indices()) { if(v.k != KAgg) { v = vundef(64); break; } Val x = agg(v)[i]; v = x; }
		set(f, &I, v);
		break;
	}
	case Instruction::InsertValue: {
		auto& e = cast<InsertValueInst>(I);
		Val v = get(f, e.getAggregateOperand()), x = get(f, e.getInsertedValueOperand());
		std::function<Val(const Val&, unsigned)> ins = [&](const Val& o, unsigned d) -> Val {
			if(d == e.getNumIndices()) return x;
			std::vector<Val> el = agg(o);
			el[e.getIndices()[d]] = ins(el[e.getIndices()[d]], d + 1);
			return vagg(el);
		};
		set(f, &I, ins(v, 0));
		break;
	}
	case Instruction::ExtractElement: {
		Val v = get(f, I.getOperand(0));
		uint64_t i = concretize(s, get(f, I.getOperand(1)));
		set(f, &I, v.k == KAgg ? agg(v)[i] : vundef(I.getType()->getPrimitiveSizeInBits()));
		break;
	}
	case Instruction::InsertElement: {
		Val v = get(f, I.getOperand(0));
		uint64_t i = concretize(s, get(f, I.getOperand(2)));
		std::vector<Val> el;
		if(v.k == KAgg) el = agg(v); else el.assign(cast<FixedVectorType>(I.getType())->getNumElements(), vundef(I.getType()->getScalarSizeInBits()));
		el[i] = get(f, I.getOperand(1));
		set(f, &I, vagg(el));
		break;
	}
	case Instruction::ShuffleVector: {
		auto& sv = cast<ShuffleVectorInst>(I);
		Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1));
		int n = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements();
		std::vector<Val> r;
		for(int m : sv.getShuffleMask()) {
			const Val& src = m < n ? a : b;
			r.push_back(m < 0 || src.k != KAgg ? vundef(I.getType()->getScalarSizeInBits()) : agg(src)[m < n ? m : m - n]);
		}
		set(f, &I, vagg(r));
		break;
	}
	case Instruction::AtomicRMW: {
		auto& r = cast<AtomicRMWInst>(I);
		Val p = get(f, r.getPointerOperand()), v = get(f, r.getValOperand());
		Type* t = r.getValOperand()->getType();
		Val old = load(s, p, t), nw;
		switch(r.getOperation()) {
		case AtomicRMWInst::Xchg: nw = v; break;
		case AtomicRMWInst::Add: nw = binop(s, Instruction::Add, old, v, t); break;
		case AtomicRMWInst::Sub: nw = binop(s, Instruction::Sub, old, v, t); break;
		case AtomicRMWInst::And: nw = binop(s, Instruction::And, old, v, t); break;
		case AtomicRMWInst::Or: nw = binop(s, Instruction::Or, old, v, t); break;
		default: throw Unsupported("atomicrmw");
		}
		store(s, p, nw, t);
		set(f, &I, old);
		break;
	}
	case Instruction::AtomicCmpXchg: {
		auto& x = cast<AtomicCmpXchgInst>(I);
		Type* t = x.getNewValOperand()->getType();
		Val p = get(f, x.getPointerOperand()), old = load(s, p, t);
		Val eq = icmp(s, CmpInst::ICMP_EQ, old, get(f, x.getCompareOperand()), t->isPointerTy() ? 64 : (unsigned)t->getPrimitiveSizeInBits());
		bool e = eq.k == KInt ? eq.u : decide(s, toBool(eq));
		if(e) store(s, p, get(f, x.getNewValOperand()), t);
		set(f, &I, vagg({old, vint(1, e)}));
		break;
	}
	case Instruction::Fence: break;
	default:
		if(I.isBinaryOp()) { Val r = binop(s, I.getOpcode(), get(f, I.getOperand(0)), get(f, I.getOperand(1)), I.getType()); set(f, &I, r); break; }
		if(I.isCast()) { Val r = castOp(s, I.getOpcode(), get(f, I.getOperand(0)), I.getOperand(0)->getType(), I.getType()); set(f, &I, r); break; }
		throw Unsupported(std::string("instruction ") + I.getOpcodeName());
	}
	++s.fr.back().it;
}

void Engine::runState(State& s) {
	try {
		while(!s.fr.empty()) {
			const Instruction& I = *s.fr.back().it;
			if(++s.steps > opt.maxSteps) ++endless, violation(s, "nontermination", "more than " + std::to_string(opt.maxSteps) + " instructions on one path");
			++insts;
			if((insts & 1023) == 0 && since(t0) > opt.timeBudget) { incomplete = true; incompleteWhy = "time budget"; return; }
			exec(s, I);
			s.made.clear();
			if(!s.forced.empty()) { s.forced.clear(); s.forcedPos = 0; }
		}
		++paths; ++completed;
		if(opt.leak && s.heapLive != 0) { try { violation(s, "leak", std::to_string(s.heapLive) + " heap blocks still allocated at the end"); } catch(PathEnd&) {} }
		if((int)wit.size() < opt.witnesses || (completed % 97 == 0 && (int)wit.size() < 2 * opt.witnesses)) {
			std::shared_ptr<Model> m;
			if(check(s, ctx.bool_val(true), &m, opt.real ? opt.feasTimeout : opt.solverTimeout, false) == SAT) wit.push_back({rawInputs(s, *m), s.trace});
		}
	} catch(PathEnd&) { ++paths; }
}
void Engine::run(const std::string& entry) {
	t0 = Clock::now();
	entryName = entry;
	newVar(ctx.bool_sort(), "dummy");
	auto s = std::make_unique<State>();
	s->model = std::make_shared<Model>();
	setupGlobals(*s);
	const Function* f = mod->getFunction(entry);
	if(!f || f->isDeclaration()) throw Unsupported("no such entry: " + entry);
	// assertion names that must be reached are collected by the driver from the module
	std::vector<const Function*> ctors;
	if(auto* g = mod->getNamedGlobal("llvm.global_ctors"))
		if(auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
			for(auto& op : arr->operands()) if(auto* fn = dyn_cast<Function>(cast<Constant>(op)->getAggregateElement(1u)->stripPointerCasts())) ctors.push_back(fn);
	// run constructors first: each in its own frame below the entry
	pushFrame(*s, f, {}, nullptr);
	for(auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushFrame(*s, *it, {}, nullptr);
	work.push_back(std::move(s));
	while(!work.empty() && !incomplete) {
		auto st = std::move(work.back());
		work.pop_back();
		runState(*st);
		if(paths > opt.maxPaths) { incomplete = true; incompleteWhy = "path limit"; }
		if(viol.size() >= 12 || endless >= 4) break;
	}
}
