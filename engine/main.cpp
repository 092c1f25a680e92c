#include "sx.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <unistd.h>
#include <iostream>
#include <sstream>

static std::string esc(const std::string& s) {
	std::string r = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c == '\n') r += "\\n";
		else if(c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
std::string Engine::json() {
	std::ostringstream o;
	auto list = [&](auto& l) { o << "["; bool f = true; for(auto& x : l) { o << (f ? "" : ",") << esc(x); f = false; } o << "]"; };
	o << "{\"entry\":" << esc(entryName) << ",\"complete\":" << (incomplete || (!work.empty() && viol.empty()) ? "false" : "true") << ",\"why\":" << esc(incompleteWhy)
	  << ",\"paths\":" << paths << ",\"completed\":" << completed << ",\"assumed_away\":" << assumedAway << ",\"forks\":" << forks << ",\"insts\":" << insts
	  << ",\"queries\":" << nq << ",\"sat\":" << nsat << ",\"unsat\":" << nunsat << ",\"unknown\":" << nunk << ",\"cached\":" << ncache
	  << ",\"solver_s\":" << solverSec << ",\"max_query_s\":" << maxQuery << ",\"wall_s\":" << since(t0) << ",\"mode\":" << esc(opt.real ? "real" : "bv/fp");
	o << ",\"asserts\":{";
	bool f = true;
	for(auto& a : asserts) { o << (f ? "" : ",") << esc(a.first) << ":{\"reached\":" << a.second.reached << ",\"trivial\":" << a.second.trivial << ",\"normal_form\":" << a.second.normal << ",\"solver\":" << a.second.solver << ",\"failed\":" << a.second.failed << ",\"undecided\":" << a.second.undecided << "}"; f = false; }
	o << "},\"undecided\":"; list(undecided);
	o << ",\"functions\":"; list(funcs);
	o << ",\"stubs\":"; list(stubs);
	o << ",\"violations\":[";
	f = true;
	for(auto& v : viol) { o << (f ? "" : ",") << "{\"kind\":" << esc(v.kind) << ",\"id\":" << esc(v.id) << ",\"msg\":" << esc(v.msg) << ",\"inputs\":"; list(v.raw); o << ",\"alts\":["; bool g = true; for(auto& a : v.alts) { o << (g ? "" : ","); list(a); g = false; } o << "]}"; f = false; }
	o << "],\"witnesses\":[";
	f = true;
	for(auto& w : wit) { o << (f ? "" : ",") << "{\"inputs\":"; list(w.raw); o << ",\"trace\":["; bool g = true; for(int t : w.trace) { o << (g ? "" : ",") << esc(assertNames[t]); g = false; } o << "]}"; f = false; }
	o << "]}";
	return o.str();
}
int main(int argc, char** argv) {
	if(argc < 3) { std::cerr << "usage: symx module.bc entry [options]\n"; return 2; }
	std::string file = argv[1], entry = argv[2], out;
	auto e = std::make_unique<Engine>();
	for(int i = 3; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if(a == "--real") e->opt.real = true;
		else if(a == "--time") e->opt.timeBudget = std::stod(val());
		else if(a == "--query-ms") e->opt.solverTimeout = std::stoul(val());
		else if(a == "--feas-ms") e->opt.feasTimeout = std::stoul(val());
		else if(a == "--max-steps") e->opt.maxSteps = std::stoull(val());
		else if(a == "--max-depth") e->opt.maxDepth = std::stoull(val());
		else if(a == "--max-paths") e->opt.maxPaths = std::stoull(val());
		else if(a == "--witnesses") e->opt.witnesses = std::stoi(val());
		else if(a == "--seed") e->opt.seed = std::stoul(val());
		else if(a == "--leak") e->opt.leak = true;
		else if(a == "--out") out = val();
		else { std::cerr << "bad option " << a << "\n"; return 2; }
	}
	llvm::LLVMContext lc;
	llvm::SMDiagnostic err;
	e->mod = llvm::parseIRFile(file, err, lc);
	if(!e->mod) { err.print("symx", llvm::errs()); return 2; }
	e->dl = &e->mod->getDataLayout();
	int rc = 0;
	try { e->run(entry); }
	catch(Unsupported& x) { e->incomplete = true; e->incompleteWhy = std::string("unsupported: ") + x.what(); rc = 3; }
	catch(z3::exception& x) { e->incomplete = true; e->incompleteWhy = std::string("z3: ") + x.msg(); rc = 3; }
	catch(std::exception& x) { e->incomplete = true; e->incompleteWhy = std::string("error: ") + x.what(); rc = 3; }
	if(getenv("SX_FORKS")) for(auto& x : e->forkSites) std::cerr << x.second << " " << demangle(x.first) << "\n";
	std::string j = e->json();
	if(out.empty()) std::cout << j << "\n"; else { std::ofstream f(out); f << j << "\n"; }
	std::cout.flush();
	_exit(rc); // skip the destruction of large solver structures
}
