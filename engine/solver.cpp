#include "sx.hpp"
#include <iostream>
#include <fstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

// second opinion for queries z3 gives up on: cvc5 with different strategies, first answer wins.
// Only bit-vector and boolean values are read back from its models.
static Res askCvc5(const std::string& smt, const std::vector<std::string>& names, unsigned ms, bool nonlinearInt, std::map<std::string, std::string>& values) {
	static int serial;
	std::string base = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/symx." + std::to_string(getpid()) + "." + std::to_string(serial++);
	std::string in = base + ".smt2";
	{
		std::ofstream f(in);
		f << "(set-logic ALL)\n" << smt;
		if(!names.empty()) { f << "(get-value ("; for(auto& n : names) f << n << " "; f << "))\n"; }
	}
	std::vector<std::vector<std::string>> modes{{}};
	if(nonlinearInt) modes.push_back({"--solve-bv-as-int=sum"});
	struct Child { pid_t pid; std::string out; };
	std::vector<Child> ch;
	for(size_t i = 0; i < modes.size(); ++i) {
		Child c{0, base + "." + std::to_string(i)};
		std::vector<std::string> a{"cvc5", "-q", "--produce-models", "--tlimit=" + std::to_string(ms)};
		for(auto& x : modes[i]) a.push_back(x);
		a.push_back(in);
		std::vector<char*> av;
		for(auto& x : a) av.push_back(&x[0]);
		av.push_back(nullptr);
		c.pid = fork();
		if(c.pid == 0) {
			int o = open(c.out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), n = open("/dev/null", O_RDWR);
			dup2(n, 0); dup2(o, 1); dup2(n, 2);
			execvp("cvc5", av.data());
			_exit(127);
		}
		if(c.pid > 0) ch.push_back(c);
	}
	Res r = UNK;
	auto t = Clock::now();
	size_t left = ch.size();
	while(left && r == UNK && since(t) * 1000 < ms + 2000) {
		bool any = false;
		for(auto& c : ch) if(c.pid) {
			int st;
			if(waitpid(c.pid, &st, WNOHANG) != c.pid) continue;
			c.pid = 0; --left; any = true;
			std::ifstream f(c.out);
			std::string line;
			std::getline(f, line);
			if(line == "unsat") { r = UNSAT; break; }
			if(line != "sat") continue;
			std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
			for(size_t p = 0; (p = all.find("(k!", p)) != std::string::npos;) {
				size_t e = all.find(' ', p), z = all.find(')', e);
				if(e == std::string::npos || z == std::string::npos) break;
				values[all.substr(p + 1, e - p - 1)] = all.substr(e + 1, z - e - 1);
				p = z;
			}
			r = SAT;
			break;
		}
		if(!any) usleep(3000);
	}
	for(auto& c : ch) { if(c.pid) { kill(c.pid, SIGKILL); int st; waitpid(c.pid, &st, 0); } unlink(c.out.c_str()); }
	unlink(in.c_str());
	return r;
}

int Engine::newVar(const z3::sort& s, const std::string& name) {
	int id = (int)vars.size();
	z3::symbol sy = ctx.int_symbol(id);
	z3::expr e = ctx.constant(sy, s);
	vars.push_back({e, {}, name, false});
	return id;
}
const std::vector<int>& Engine::varsOf(const z3::expr& e) {
	unsigned h = Z3_get_ast_id(ctx, e);
	auto it = varsCache.find(h);
	if(it != varsCache.end()) return it->second.second;
	std::vector<int> r;
	if(e.is_app()) {
		if(e.num_args() == 0) {
			if(e.decl().decl_kind() == Z3_OP_UNINTERPRETED && e.decl().name().kind() == Z3_INT_SYMBOL)
				r.push_back(e.decl().name().to_int());
		} else {
			for(unsigned i = 0; i < e.num_args(); ++i) {
				auto& x = varsOf(e.arg(i));
				r.insert(r.end(), x.begin(), x.end());
			}
			std::sort(r.begin(), r.end());
			r.erase(std::unique(r.begin(), r.end()), r.end());
		}
	}
	return varsCache.emplace(h, std::make_pair(e, r)).first->second.second;
}
// queries that differ only in the names of their variables share one answer
Res Engine::query(const std::vector<z3::expr>& in, unsigned timeout, std::shared_ptr<Model>* m) {
	std::set<int> vs;
	for(auto& c : in) for(int v : varsOf(c)) vs.insert(v);
	std::vector<z3::expr> cs;
	std::map<int, int> canon; // canonical -> actual
	bool plain = vs.size() <= 8;
	for(int v : vs) if(!vars[v].e.get_sort().is_bv() && !vars[v].e.get_sort().is_bool()) plain = false;
	if(plain && !opaqueCalls.empty()) for(int v : vs) if(opaqueCalls.count(v)) plain = false;
	if(plain) {
		static std::map<std::pair<int, unsigned>, int> pool; // (width, index) -> variable
		std::map<unsigned, int> used;
		std::vector<z3::expr> from, to;
		for(int v : vs) {
			auto so = vars[v].e.get_sort();
			unsigned w = so.is_bool() ? 0 : so.bv_size();
			auto k = std::make_pair((int)w, (unsigned)used[w]++);
			auto it = pool.find(k);
			if(it == pool.end()) it = pool.emplace(k, newVar(so, "canonical")).first;
			canon[it->second] = v;
			from.push_back(vars[v].e); to.push_back(vars[it->second].e);
		}
		z3::expr_vector a(ctx), b(ctx);
		for(size_t i = 0; i < from.size(); ++i) { a.push_back(from[i]); b.push_back(to[i]); }
		for(auto c : in) cs.push_back(c.substitute(a, b));
	} else {
		cs = in;
		for(int v : vs) canon[v] = v;
	}
	std::shared_ptr<Model> mm;
	Res r = solve(cs, timeout, &mm);
	if(m) {
		if(mm && plain) {
			auto out = std::make_shared<Model>();
			for(auto& kv : *mm) out->emplace(canon.at(kv.first), kv.second);
			*m = out;
		} else *m = mm;
	}
	return r;
}
Res Engine::solveOnce(const std::vector<z3::expr>& cs, unsigned timeout, std::shared_ptr<Model>* m) {
	std::string key;
	{
		std::vector<unsigned> ids;
		for(auto& c : cs) ids.push_back(Z3_get_ast_id(ctx, c));
		std::sort(ids.begin(), ids.end());
		ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
		key.assign((char*)ids.data(), ids.size() * sizeof(unsigned));
	}
	auto it = qcache.find(key);
	if(it != qcache.end() && (it->second.first != UNK)) {
		++ncache;
		if(m) *m = it->second.second;
		return it->second.first;
	}
	auto t = Clock::now();
	++nq;
	bool fp = false, real = false, bv = false;
	std::set<int> vs;
	for(auto& c : cs) for(int v : varsOf(c)) vs.insert(v);
	for(int v : vs) { auto s = vars[v].e.get_sort(); if(s.is_real()) real = true; else if(s.is_fpa()) fp = true; else bv = true; }
	(void)bv;
	if(!real && !fp) { // symbolic floats are built from bit-vector inputs
		std::vector<z3::expr> st(cs);
		std::unordered_set<unsigned> seen;
		while(!st.empty() && !fp) {
			z3::expr e = st.back(); st.pop_back();
			if(!seen.insert(Z3_get_ast_id(ctx, e)).second) continue;
			if(e.is_fpa()) { fp = true; break; }
			if(e.is_app()) for(unsigned i = 0; i < e.num_args(); ++i) st.push_back(e.arg(i));
		}
	}
	auto mk = [&]() -> z3::solver {
		if(real) return z3::solver(ctx, "QF_NRA");
		if(fp) { z3::tactic tq(ctx, "qffp"); return tq.mk_solver(); }
		return z3::solver(ctx, "QF_BV");
	};
	Res r = UNK;
	std::shared_ptr<Model> mm;
	if(real && cs.size() > 1) { // products as unknowns: decides most conditions that are already implied
		try {
			z3::solver lin(ctx, z3::solver::simple());
			z3::params p(ctx);
			p.set("arith.nl", false);
			Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 300u);
			lin.set(p);
			for(auto& c : cs) lin.add(c);
			if(lin.check() == z3::unsat) r = UNSAT;
		} catch(z3::exception&) {}
	}
	if(r != UNSAT) try {
		static Z3_symbol tsym = Z3_mk_string_symbol(ctx, "timeout");
		auto go = [&](z3::solver& sv, unsigned ms) {
			z3::params p(ctx);
			Z3_params_set_uint(ctx, p, tsym, ms);
			sv.set(p);
			for(auto& c : cs) sv.add(c);
			return sv.check();
		};
		z3::check_result res = z3::unknown;
		auto take = [&](z3::solver& sv) {
			if(res != z3::sat) return;
			mm = std::make_shared<Model>();
			z3::model md = sv.get_model();
			for(int v : vs) mm->emplace(v, md.eval(vars[v].e, true));
		};
		static std::unique_ptr<z3::solver> fast;
		static int fastUses;
		if(!real && !fp) { // most path conditions are tiny: one persistent solver, scopes per query
			if(!fast || ++fastUses > 2000) {
				fast = std::make_unique<z3::solver>(ctx, z3::solver::simple());
				fastUses = 0;
				z3::params p(ctx);
				Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 2000000u);
				fast->set(p);
			}
			try {
				fast->push();
				for(auto& c : cs) fast->add(c);
				res = fast->check();
				take(*fast);
				fast->pop();
			} catch(z3::exception&) { fast.reset(); res = z3::unknown; }
		}
		if(res == z3::unknown) {
			z3::solver sv = mk();
			unsigned first = real ? timeout : std::min(timeout, 3000u);
			res = go(sv, first);
			take(sv);
			if(res == z3::unknown && real && since(t) * 1000 < timeout / 2) { // not plain arithmetic (integers mixed in)
				z3::solver any(ctx);
				res = go(any, timeout / 2);
				take(any);
			}
			if(res == z3::unknown && !real && timeout >= 3000) {
				z3::solver plain(ctx);
				for(auto& c : cs) plain.add(c);
				std::vector<std::string> names;
				bool readable = true;
				for(int v : vs) {
					names.push_back("k!" + std::to_string(v));
					auto so = vars[v].e.get_sort();
					if(!so.is_bv() && !so.is_bool()) readable = false;
				}
				std::map<std::string, std::string> vals;
				Res o = askCvc5(plain.to_smt2(), names, timeout, !fp, vals);
				if(o == UNSAT) res = z3::unsat;
				else if(o == SAT && readable) {
					auto md = std::make_shared<Model>();
					bool ok = true;
					for(int v : vs) {
						auto it = vals.find("k!" + std::to_string(v));
						auto so = vars[v].e.get_sort();
						if(it == vals.end()) { ok = false; break; }
						if(so.is_bool()) md->emplace(v, ctx.bool_val(it->second == "true"));
						else if(it->second.compare(0, 2, "#b") == 0 && it->second.size() <= 66) md->emplace(v, ctx.bv_val((uint64_t)std::stoull(it->second.substr(2), nullptr, 2), so.bv_size()));
						else { ok = false; break; }
					}
					if(ok) { res = z3::sat; mm = md; }
				}
			}
			if(res == z3::unknown && first < timeout) { z3::solver again = mk(); res = go(again, timeout - first); take(again); }
		}
		r = res == z3::sat ? SAT : res == z3::unsat ? UNSAT : UNK;
	} catch(z3::exception& e) { r = UNK; }
	double dt = since(t);
	solverSec += dt;
	if(dt > maxQuery) maxQuery = dt;
	if(r == SAT) ++nsat; else if(r == UNSAT) ++nunsat; else ++nunk;
	for(auto& c : cs) keep.push_back(c);
	qcache[key] = {r, mm};
	if(m) *m = mm;
	return r;
}
// A model may give a library function a value it does not have: such models are corrected, or excluded by
// stating the value of the function for those arguments. What is added is true, so UNSAT remains a verdict.
Res Engine::solve(const std::vector<z3::expr>& in, unsigned timeout, std::shared_ptr<Model>* m) {
	std::shared_ptr<Model> mm;
	Res r = solveOnce(in, timeout, &mm);
	if(m) *m = mm;
	if(r != SAT || opaqueCalls.empty() || !mm) return r;
	std::vector<z3::expr> cs(in);
	auto bits = [&](const z3::expr& e, unsigned w, uint64_t& u) {
		if(Z3_fpa_is_numeral_nan(ctx, e)) { u = w == 32 ? 0x7fc00000u : 0x7ff8000000000000ull; return true; }
		z3::expr b = z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, e)).simplify();
		return b.is_numeral() && Z3_get_numeral_uint64(ctx, b, &u);
	};
	auto t = Clock::now();
	for(int round = 0; round < 16 && since(t) * 1000 < 2 * timeout; ++round) {
		Model fixed(*mm);
		bool wrong = false, any = false;
		std::set<int> calls, seen;
		std::vector<int> todo;
		for(auto& c : cs) for(int v : varsOf(c)) todo.push_back(v);
		while(!todo.empty()) { // with the calls their arguments depend on
			int v = todo.back(); todo.pop_back();
			if(!seen.insert(v).second) continue;
			auto oc = opaqueCalls.find(v);
			if(oc == opaqueCalls.end()) continue;
			calls.insert(v);
			for(auto& a : oc->second.args) for(int x : varsOf(a)) todo.push_back(x);
		}
		for(int v : calls) { // arguments come before results
			auto& oc = opaqueCalls.at(v);
			any = true;
			for(int pass = 0; pass < 2; ++pass) {
				const Model& md = pass ? *mm : fixed;
				uint64_t arg[2] = {0, 0};
				z3::expr pre = ctx.bool_val(true);
				bool ok = true;
				for(size_t i = 0; i < oc.args.size() && i < 2; ++i) {
					z3::expr x = evalIn(md, oc.args[i]);
					ok = ok && bits(x, oc.w, arg[i]);
					if(ok && oc.args[i].is_fpa() && !varsOf(oc.args[i]).empty()) pre = pre && z3::expr(ctx, Z3_mk_eq(ctx, oc.args[i], z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, ctx.bv_val(arg[i], oc.w), fsort(oc.w))).simplify()));
				}
				if(!ok) return r;
				z3::expr val = ctx.bv_val(libm(oc.fn, oc.w, arg[0], arg[1]), oc.w);
				z3::expr is = (vars[v].e == val);
				auto old = mm->find(v);
				bool same = old != mm->end() && evalModel(*mm, is) == 1;
				if(!pass) { fixed.erase(v); fixed.emplace(v, val); if(same) break; wrong = true; }
				if(!same) {
					z3::expr lemma = z3::implies(pre, is).simplify();
					cs.push_back(lemma);
					keep.push_back(lemma);
					if(vars[v].axioms.size() < 24) vars[v].axioms.push_back(lemma);
				}
			}
		}
		if(!any) return r;
		if(!wrong) return r;
		bool good = true;
		for(auto& c : in) if(evalModel(fixed, c) != 1) { good = false; break; }
		if(good) { if(m) *m = std::make_shared<Model>(fixed); return SAT; }
		++refinements;
		std::shared_ptr<Model> next;
		Res q = solveOnce(cs, timeout, &next);
		if(q != SAT) return q;
		mm = next;
		if(m) *m = mm;
	}
	return SAT;
}
Res Engine::check(State& s, const z3::expr& cond, std::shared_ptr<Model>* m, unsigned timeout, bool slice) {
	std::vector<z3::expr> cs;
	std::set<int> vs;
	std::vector<const Cons*> all;
	for(Cons* c = s.pc.p; c; c = c->prev.p) all.push_back(c);
	if(!cond.is_true()) cs.push_back(cond);
	std::vector<int> todo(varsOf(cond));
	std::vector<char> used(all.size(), 0);
	if(!slice) {
		for(auto* c : all) { cs.push_back(c->e); for(int v : *c->vars) todo.push_back(v); }
		for(auto& x : s.inputs) if(x.var >= 0) todo.push_back(x.var);
		std::fill(used.begin(), used.end(), 1);
	}
	while(!todo.empty()) {
		int v = todo.back(); todo.pop_back();
		if(!vs.insert(v).second) continue;
		for(auto& a : vars[v].axioms) { cs.push_back(a); for(int x : varsOf(a)) todo.push_back(x); }
		auto oc = opaqueCalls.find(v);
		if(oc != opaqueCalls.end()) for(auto& a : oc->second.args) for(int x : varsOf(a)) todo.push_back(x);
		for(size_t i = 0; i < all.size(); ++i) {
			if(used[i]) continue;
			if(std::binary_search(all[i]->vars->begin(), all[i]->vars->end(), v)) {
				used[i] = 1;
				cs.push_back(all[i]->e);
				for(int x : *all[i]->vars) todo.push_back(x);
			}
		}
	}
	if(opt.real && cs.size() > 2) { // contradictions among constraints over the same few variables
		const z3::expr* c0 = cond.is_true() ? (all.empty() ? nullptr : &all[0]->e) : &cond;
		if(c0) {
			std::vector<int> v0(varsOf(*c0));
			std::sort(v0.begin(), v0.end());
			auto inside = [&](const std::vector<int>& v) { for(int x : v) if(!std::binary_search(v0.begin(), v0.end(), x)) return false; return true; };
			std::vector<z3::expr> few{*c0};
			for(auto& c : cs) if(!z3::eq(c, *c0) && inside(varsOf(c))) few.push_back(c);
			if(few.size() > 1 && few.size() < cs.size() && query(few, std::min(timeout, 500u), nullptr) == UNSAT) return UNSAT;
		}
	}
	std::shared_ptr<Model> mm;
	Res r = query(cs, timeout, &mm);
	if(m && r == SAT && !(slice && !s.model)) {
		auto out = std::make_shared<Model>();
		if(slice && s.model) *out = *s.model;
		if(mm) for(auto& kv : *mm) { out->erase(kv.first); out->emplace(kv.first, kv.second); }
		*m = out;
	}
	return r;
}
z3::expr Engine::evalIn(const Model& m, const z3::expr& e) {
	z3::expr_vector a(ctx), b(ctx);
	for(int v : varsOf(e)) {
		auto it = m.find(v);
		z3::expr val = it != m.end() ? it->second : vars[v].e.get_sort().is_bool() ? ctx.bool_val(false)
			: vars[v].e.get_sort().is_real() ? ctx.real_val(0) : vars[v].e.get_sort().is_fpa() ? ctx.fpa_val(0.0) : ctx.bv_val(0, vars[v].e.get_sort().bv_size());
		if(vars[v].e.get_sort().is_fpa() && it == m.end()) val = z3::expr(ctx, Z3_mk_fpa_numeral_double(ctx, 0.0, vars[v].e.get_sort()));
		a.push_back(vars[v].e); b.push_back(val);
	}
	z3::expr x = e;
	return x.substitute(a, b).simplify();
}
int Engine::evalModel(const Model& m, const z3::expr& cond) {
	z3::expr r = evalIn(m, cond);
	if(r.is_true()) return 1;
	if(r.is_false()) return 0;
	return -1;
}
void Engine::addPC(State& s, const z3::expr& e) {
	if(e.is_true()) return;
	s.pc = Ref<Cons>(new Cons(s.pc, e, &varsOf(e)));
	++s.pcSize;
}
bool Engine::decide(State& s, z3::expr cond) {
	cond = cond.simplify();
	if(cond.is_true()) return true;
	if(cond.is_false()) return false;
	if(s.forcedPos < s.forced.size()) {
		int64_t r = s.forced[s.forcedPos++];
		s.made.push_back(r);
		return r;
	}
	z3::expr nc = (!cond).simplify();
	bool ft = true, ff = true;
	std::shared_ptr<Model> mt, mf;
	int known = -1;
	if(!opt.real && s.model) known = evalModel(*s.model, cond);
	auto feas = [&](const z3::expr& c, std::shared_ptr<Model>& m) { return check(s, c, &m, opt.real ? opt.feasTimeout : opt.solverTimeout) != UNSAT; };
	if(known == 1) { mt = s.model; ff = feas(nc, mf); }
	else if(known == 0) { mf = s.model; ft = feas(cond, mt); }
	else { ft = feas(cond, mt); ff = ft ? feas(nc, mf) : true; }
	if(!ft && !ff) throw PathEnd{};
	if(ft && ff) {
		++forks;
		auto c = std::make_unique<State>(s);
		addPC(*c, nc);
		c->model = mf;
		c->forced = s.made;
		c->forced.push_back(0);
		c->forcedPos = 0;
		c->made.clear();
		c->depth++;
		work.push_back(std::move(c));
		addPC(s, cond);
		s.model = mt;
		s.depth++;
		s.made.push_back(1);
		return true;
	}
	bool r = ft;
	if(opt.real || !s.model) { if(mt && ft) s.model = mt; else if(mf && ff) s.model = mf; }
	s.made.push_back(r);
	// implied, but keep it: re-executions of this instruction consume it as a forced decision
	return r;
}
int64_t Engine::choose(State& s, int64_t n) {
	if(s.forcedPos < s.forced.size()) {
		int64_t r = s.forced[s.forcedPos++];
		s.made.push_back(r);
		return r;
	}
	for(int64_t k = n - 1; k > 0; --k) {
		++forks;
		auto c = std::make_unique<State>(s);
		c->forced = s.made;
		c->forced.push_back(k);
		c->forcedPos = 0;
		c->made.clear();
		c->depth++;
		work.push_back(std::move(c));
	}
	s.made.push_back(0);
	return 0;
}
uint64_t Engine::concretize(State& s, const Val& v) {
	if(v.k == KInt) return v.u;
	if(isUndef(v)) violation(s, "uninit", "use of an uninitialised value");
	if(v.k != KSym) throw Unsupported("concretize of a non-integer value");
	if(s.forcedPos < s.forced.size()) {
		int64_t r = s.forced[s.forcedPos++];
		s.made.push_back(r);
		return (uint64_t)r;
	}
	z3::expr e = toBV(v);
	std::shared_ptr<Model> m;
	z3::expr val(ctx);
	if(s.model) val = evalIn(*s.model, e);
	else {
		Res r = check(s, ctx.bool_val(true), &m, opt.solverTimeout, false);
		if(r == UNSAT) throw PathEnd{};
		if(r == UNK) throw Unsupported("solver gave up on a concretisation");
		s.model = m;
		val = evalIn(*m, e);
	}
	if(!val.is_numeral()) throw Unsupported("concretize: no numeral");
	uint64_t x = 0;
	Z3_get_numeral_uint64(ctx, val, &x);
	z3::expr ne = (e != ctx.bv_val((uint64_t)x, v.w)).simplify();
	if(ne.is_true()) throw Unsupported("concretize");
	if(!ne.is_false() && check(s, ne, &m, opt.solverTimeout) != UNSAT) {
		++forks;
		auto c = std::make_unique<State>(s);
		addPC(*c, ne);
		c->model = m;
		c->forced = s.made;
		c->forcedPos = 0;
		c->made.clear();
		c->depth++;
		work.push_back(std::move(c));
		addPC(s, (e == ctx.bv_val((uint64_t)x, v.w)).simplify());
		s.depth++;
	}
	s.made.push_back((int64_t)x);
	return x;
}
