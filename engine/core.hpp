// symx: values, memory objects, states
#pragma once
#include "poly.hpp"
#include <z3++.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DataLayout.h>
#include <cassert>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

struct Node { int rc = 0; virtual ~Node() = default; };
template<class T> struct Ref {
	T* p = nullptr;
	Ref() = default;
	Ref(T* x) : p(x) { if(p) ++p->rc; }
	Ref(const Ref& o) : p(o.p) { if(p) ++p->rc; }
	Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
	Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
	~Ref() { if(p && --p->rc == 0) delete p; }
	T* operator->() const { return p; }
	T& operator*() const { return *p; }
	explicit operator bool() const { return p; }
};

enum K : uint8_t { KNone, KInt, KSym, KReal, KAgg, KUndef, KPieces };
struct Val {
	K k = KNone;
	uint16_t w = 0;
	uint64_t u = 0;
	Ref<Node> n;
};
struct ExprNode : Node { z3::expr e; ExprNode(const z3::expr& x) : e(x) {} };
struct RealNode : Node { poly::Rat r; RealNode(poly::Rat x) : r(std::move(x)) {} };
struct AggNode : Node { std::vector<Val> v; };
struct Piece { Val v; unsigned off, len; };
struct PiecesNode : Node { std::vector<Piece> p; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline Val vint(unsigned w, uint64_t u) { Val v; v.k = KInt; v.w = w; v.u = u & maskw(w); return v; }
inline Val vundef(unsigned w) { Val v; v.k = KUndef; v.w = w; return v; }
inline Val vsym(unsigned w, const z3::expr& e) { Val v; v.k = KSym; v.w = w; v.n = Ref<Node>(new ExprNode(e)); return v; }
inline Val vreal(unsigned w, poly::Rat r) { Val v; v.k = KReal; v.w = w; v.n = Ref<Node>(new RealNode(std::move(r))); return v; }
inline Val vagg(std::vector<Val> x) { Val v; v.k = KAgg; auto* a = new AggNode; a->v = std::move(x); v.n = Ref<Node>(a); return v; }
inline const z3::expr& ex(const Val& v) { return static_cast<ExprNode*>(v.n.p)->e; }
inline const poly::Rat& rat(const Val& v) { return static_cast<RealNode*>(v.n.p)->r; }
inline const std::vector<Val>& agg(const Val& v) { return static_cast<AggNode*>(v.n.p)->v; }
inline const std::vector<Piece>& pieces(const Val& v) { return static_cast<PiecesNode*>(v.n.p)->p; }

struct Ent { uint32_t off, size; Val v; };
enum ObjKind : uint8_t { OGlobal, OConst, OStack, OHeap, OExtern };
struct Obj : Node {
	uint64_t base = 0, size = 0;
	ObjKind kind = OHeap;
	char heapKind = 0; // 'n' new, 'a' new[], 'm' malloc, 'e' exception
	std::string name;
	std::vector<Ent> ents; // sorted by off, non overlapping
	size_t find(uint32_t off) const { // first entry with off+size > off
		size_t lo = 0, hi = ents.size();
		while(lo < hi) { size_t m = (lo + hi) / 2; if(ents[m].off + ents[m].size > off) hi = m; else lo = m + 1; }
		return lo;
	}
};

struct Cons : Node {
	Ref<Cons> prev;
	z3::expr e;
	const std::vector<int>* vars;
	Cons(Ref<Cons> p, const z3::expr& x, const std::vector<int>* v) : prev(std::move(p)), e(x), vars(v) {}
};

struct Input { char kind; unsigned w; std::string name; int var; uint64_t conc; }; // kind: 'i' int, 'f' float, 'c' choice

struct FuncInfo;
struct Exc { uint64_t obj = 0; };
struct ExcInfo { uint64_t tinfo = 0, dtor = 0; int handlers = 0; bool thrown = false; int refs = 1; };

struct Frame {
	FuncInfo* fi = nullptr;
	const llvm::BasicBlock* bb = nullptr;
	const llvm::BasicBlock* prev = nullptr;
	llvm::BasicBlock::const_iterator it;
	std::vector<Val> regs;
	std::vector<uint64_t> allocas;
	const llvm::CallBase* callInst = nullptr; // instruction in the caller
	uint64_t freeOnReturn = 0; // exception object
	bool discardRet = false;
};
using Model = std::map<int, z3::expr>;

struct State {
	std::vector<Frame> fr;
	std::vector<std::pair<uint64_t, Ref<Obj>>> mem;
	uint64_t nextAddr = 0x10000000;
	Ref<Cons> pc;
	int pcSize = 0;
	std::vector<Input> inputs;
	std::shared_ptr<Model> model;
	std::map<uint64_t, ExcInfo> exc;
	std::vector<uint64_t> caught;
	int uncaught = 0;
	std::vector<int64_t> forced; // decisions to be consumed by the re-executed instruction
	std::vector<int64_t> made;   // decisions made while executing the current instruction
	size_t forcedPos = 0;
	uint64_t steps = 0;
	int heapLive = 0;
	std::vector<int> trace; // assert ids reached
	int depth = 0;
	int failAlloc = -1; // number of allocations until one fails
	bool lossy = false; // a value that is not constant was rounded to a smaller floating point type
};
