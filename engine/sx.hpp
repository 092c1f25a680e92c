#pragma once
#include "core.hpp"
#include <chrono>
#include <unordered_map>
#include <unordered_set>
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstIterator.h>

using Clock = std::chrono::steady_clock;
inline double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathEnd {};                        // path is over (assumption failed, violation recorded, ...)
enum Res { UNSAT, SAT, UNK };

struct FuncInfo {
	const llvm::Function* f = nullptr;
	llvm::DenseMap<const llvm::Value*, int> idx;
	int nregs = 0;
	std::string name, pretty;
	bool counted = false;
	int special = -1;
};
struct Violation { std::string kind, id, msg; std::vector<std::pair<std::string, std::string>> in; std::vector<std::string> raw; std::vector<std::vector<std::string>> alts; };
struct AssertStat { uint64_t reached = 0, trivial = 0, normal = 0, solver = 0, failed = 0, undecided = 0; };
struct AngleBase { mpq_class unit; poly::Rat c, s; int var = -1; bool input = false; };

struct Options {
	bool real = false;
	double timeBudget = 300;
	unsigned solverTimeout = 20000, feasTimeout = 3000;
	uint64_t maxSteps = 2000000, maxPaths = 200000;
	int witnesses = 3;
	size_t maxDepth = 400;
	int maxViol = 4;
	unsigned seed = 1;
	bool trace = false, leak = false, absFork = false;
	bool coarse = false;
};

struct Engine {
	Options opt;
	z3::context ctx;
	std::unique_ptr<llvm::Module> mod;
	const llvm::DataLayout* dl = nullptr;
	std::unordered_map<const llvm::Function*, std::unique_ptr<FuncInfo>> finfo;
	std::unordered_map<const llvm::Value*, Val> constCache;
	std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
	std::unordered_map<uint64_t, const llvm::Function*> faddr;
	std::map<uint64_t, Ref<Obj>> constObjs;   // shared, read only
	std::map<uint64_t, std::string> externName; // address of external/unmodelled globals
	std::map<std::string, uint64_t> externAddr;
	std::map<uint64_t, std::string> tiName;   // address of type infos -> mangled name
	std::unordered_map<uint64_t, int> tiId;
	uint64_t nextGlobal = 0x100000;
	std::vector<std::unique_ptr<State>> work;
	Clock::time_point t0;

	// stats
	uint64_t paths = 0, completed = 0, assumedAway = 0, forks = 0, endless = 0, insts = 0;
	uint64_t nq = 0, nsat = 0, nunsat = 0, nunk = 0, ncache = 0;
	double solverSec = 0, maxQuery = 0;
	std::vector<Violation> viol;
	std::map<std::string, int> violSeen;
	std::map<std::string, AssertStat> asserts;
	std::vector<std::string> assertNames;
	std::map<std::string, int> assertIdx;
	std::vector<std::string> undecided;
	struct Witness { std::vector<std::string> raw; std::vector<int> trace; };
	std::vector<Witness> wit;
	std::set<std::string> funcs, stubs;
	std::string entryName;
	std::map<std::string, int> forkSites;

	// variables
	struct VarInfo { z3::expr e; std::vector<z3::expr> axioms; std::string name; bool input = false; };
	std::vector<VarInfo> vars;
	std::unordered_map<unsigned, std::pair<z3::expr, std::vector<int>>> varsCache;
	std::unordered_map<std::string, std::pair<Res, std::shared_ptr<Model>>> qcache;
	std::vector<z3::expr> keep;

	int newVar(const z3::sort& s, const std::string& name);
	const std::vector<int>& varsOf(const z3::expr& e);

	// solver.cpp
	Res query(const std::vector<z3::expr>& cs, unsigned timeout, std::shared_ptr<Model>* m);
	Res solve(const std::vector<z3::expr>& cs, unsigned timeout, std::shared_ptr<Model>* m);
	Res solveOnce(const std::vector<z3::expr>& cs, unsigned timeout, std::shared_ptr<Model>* m);
	Res check(State& s, const z3::expr& cond, std::shared_ptr<Model>* m, unsigned timeout, bool slice = true);
	int evalModel(const Model& m, const z3::expr& cond);
	z3::expr evalIn(const Model& m, const z3::expr& e);
	void addPC(State& s, const z3::expr& e);
	bool decide(State& s, z3::expr cond);
	uint64_t concretize(State& s, const Val& v);
	int64_t choose(State& s, int64_t n);

	// values
	z3::sort fsort(unsigned w) { return w == 32 ? ctx.fpa_sort(8, 24) : ctx.fpa_sort(11, 53); }
	z3::expr toBV(const Val& v);
	z3::expr toBool(const Val& v);
	z3::expr toFP(const Val& v, unsigned w);
	poly::Rat toRat(const Val& v);
	Val fromBV(unsigned w, z3::expr e);
	Val fromBool(z3::expr e);
	Val fromFP(unsigned w, z3::expr e);
	bool isUndef(const Val& v);
	Val normPieces(unsigned bytes, std::vector<Piece> p);
	std::vector<Piece> asPieces(const Val& v);
	Val binop(State& s, unsigned opc, const Val& a, const Val& b, llvm::Type* t);
	Val fbin(State& s, unsigned opc, const Val& a, const Val& b, unsigned w);
	Val icmp(State& s, unsigned pred, const Val& a, const Val& b, unsigned w);
	Val fcmp(State& s, unsigned pred, const Val& a, const Val& b, unsigned w);
	Val castOp(State& s, unsigned opc, const Val& a, llvm::Type* from, llvm::Type* to);
	Val select(State& s, const Val& c, const Val& a, const Val& b, llvm::Type* t);
	Val asType(const Val& v, llvm::Type* t);

	// real.cpp
	z3::expr polyExpr(const poly::Poly& p);
	z3::expr ratSign(const poly::Rat& r, int op); // op 0: ==0, 1: <0, 2: <=0
	int realVar(const std::string& name);
	poly::Rat intReal(State& s, const z3::expr& e, bool sg);
	std::map<std::pair<unsigned, bool>, int> intMemo;
	poly::Rat absRat(State& s, const poly::Rat& r);
	poly::Rat absPoly(State& s, const poly::Poly& p);
	bool nonneg(const poly::Poly& p);
	bool sqrtRat(State& s, const poly::Rat& r, poly::Rat& out); // false: negative (NaN)
	void sincos(State& s, const poly::Rat& r, poly::Rat& sn, poly::Rat& cs);
	Val realFn(State& s, const std::string& fn, const std::vector<Val>& a, unsigned w);
	Val realDiv(State& s, const Val& a, const Val& b, unsigned w);
	std::map<poly::Poly, int> sqrtMemo, absMemo;
	std::map<poly::Mono, AngleBase> angles;
	std::map<std::string, AngleBase> opaqueAngles;
	std::map<std::string, int> opaqueFn;
	// library functions of symbolic arguments: the result is a variable, tied to the function by its values where models need them
	struct OpaqueCall { std::string fn; unsigned w; std::vector<z3::expr> args; };
	std::map<int, OpaqueCall> opaqueCalls;
	uint64_t refinements = 0;
	static uint64_t libm(const std::string& f, unsigned w, uint64_t a, uint64_t b);
	std::set<int> nonnegVars;
	void assertEqReal(State& s, const Val& a, const Val& b, int id, bool wide);
	void precisionCandidate(State& s, int id);
	std::multiset<int> precisionSeen;
	std::string ratStr(const poly::Rat& r);

	// memory
	Obj* findObj(State& s, uint64_t a, bool write);
	uint64_t alloc(State& s, uint64_t size, ObjKind k, const std::string& name, char hk = 0);
	void release(State& s, uint64_t base);
	Val loadBytes(State& s, Obj* o, uint64_t off, unsigned bytes);
	void storeVal(Obj* o, uint64_t off, unsigned bytes, const Val& v);
	Val load(State& s, const Val& p, llvm::Type* t);
	void store(State& s, const Val& p, const Val& v, llvm::Type* t);
	uint64_t resolve(State& s, const Val& p, uint64_t size, const char* what);
	void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n);
	uint64_t readPtr(State& s, uint64_t a);
	std::string readStr(State& s, uint64_t a);

	// constants / globals
	void setupGlobals(State& s);
	Val constVal(const llvm::Constant* c);
	void initObj(Obj* o, uint64_t off, const llvm::Constant* c);
	uint64_t globalAddr(const llvm::GlobalValue* g);
	uint64_t externGlobal(const std::string& name);

	// execution
	FuncInfo* info(const llvm::Function* f);
	Val get(Frame& f, const llvm::Value* v);
	void set(Frame& f, const llvm::Value* v, Val x);
	void jump(State& s, const llvm::BasicBlock* to);
	void runState(State& s);
	void exec(State& s, const llvm::Instruction& I);
	void doCall(State& s, const llvm::CallBase& C);
	bool builtin(State& s, const llvm::CallBase& C, const std::string& name, std::vector<Val>& a, Val& ret, bool& handled);
	bool intrinsic(State& s, const llvm::CallBase& C, unsigned id, std::vector<Val>& a, Val& ret);
	void pushFrame(State& s, const llvm::Function* f, const std::vector<Val>& a, const llvm::CallBase* ci);
	void doReturn(State& s, Val v);
	void afterCall(State& s, const llvm::CallBase& C, const Val& v);
	void popFrame(State& s);
	void unwind(State& s, uint64_t obj, const llvm::Instruction* at);
	void throwStd(State& s, const std::string& ti, const llvm::CallBase& C);
	bool tiMatch(State& s, uint64_t thrown, uint64_t want, int64_t& off, uint64_t obj);
	bool tiPath(State& s, uint64_t from, uint64_t to, int64_t& off);
	uint64_t lpObj = 0; int lpSel = 0;

	[[noreturn]] void violation(State& s, const std::string& kind, const std::string& msg);
	void report(State& s, const std::string& kind, const std::string& id, const std::string& msg, const Model& m, const z3::expr* bad = nullptr);
	std::vector<std::vector<std::string>> alternatives(State& s, const z3::expr& bad);
	std::vector<std::string> rawInputs(State& s, const Model& m);
	std::string where(State& s);
	void doAssert(State& s, const z3::expr& cond, int id);
	int assertId(const std::string& n);
	void run(const std::string& entry);
	std::string json();
	bool incomplete = false;
	std::string incompleteWhy;
};
std::string demangle(const std::string& s);
