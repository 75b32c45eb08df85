#include "exec.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/FunctionAttrs.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
using namespace llvm;
static LLVMContext* C;
static std::unique_ptr<Module> loadMod(const std::string& f) { SMDiagnostic e; auto m = parseIRFile(f, e, *C); if (!m) { e.print("bsx", errs()); fatal("cannot read " + f); } return m; }
static void saveMod(Module& m, const std::string& f) { std::error_code ec; raw_fd_ostream o(f, ec); WriteBitcodeToFile(m, o); }
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

static int cmdPrep(const std::string& in, const std::string& out) { // scheduling points before atomic operations
  auto m = loadMod(in); auto* vt = FunctionType::get(Type::getVoidTy(*C), false); auto f = m->getOrInsertFunction("vf_sched", vt);
  std::vector<std::string> ex = {"sp_counted", "shared_count", "weak_count", "sp_enable", "_Sp_counted", "__shared_count", "__weak_count", "intrusive_ptr", "refcount_", "exception_ptr", "__gthread", "__exchange_and_add", "__atomic_add", "atomic_count", "atomic_increment", "atomic_decrement", "atomic_conditional_increment", "sp_atomic", "thread_safe_refcount"};
  int n = 0;
  for (auto& F : *m) { std::string nm = F.getName().str(); bool skip = false; for (auto& e : ex) if (nm.find(e) != std::string::npos) skip = true; if (skip) continue;
    std::vector<Instruction*> v; for (auto& B : F) for (auto& I : B) if (I.isAtomic() && !isa<FenceInst>(I)) v.push_back(&I);
    for (auto* I : v) { IRBuilder<> b(I); auto* c = b.CreateCall(f); (void)c; n++; } }
  saveMod(*m, out); fprintf(stderr, "%d scheduling points at atomics\n", n); return 0;
}
static int cmdEnv(const std::string& in, const std::string& out) { auto m = loadMod(in); for (auto& F : *m) if (!F.isDeclaration()) { F.addFnAttr("bsx-env"); F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); } saveMod(*m, out); return 0; }
// instrument plain accesses that are scheduling points (native replay): vf_plain() before each
static int cmdEmit(const std::string& in, const std::string& out, const std::string& marks) {
  auto m = loadMod(in); auto* vt = FunctionType::get(Type::getVoidTy(*C), false); auto f = m->getOrInsertFunction("vf_sched", vt);
  std::ifstream mf(marks); std::string fn; u32 ip; std::map<std::string, std::set<u32>> mk; while (mf >> fn >> ip) mk[fn].insert(ip);
  for (auto& F : *m) { auto it = mk.find(F.getName().str()); if (it == mk.end()) continue; u32 i = 0; std::vector<Instruction*> v; for (auto& B : F) for (auto& I : B) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; if (it->second.count(i)) v.push_back(&I); i++; } for (auto* I : v) { IRBuilder<> b(I); b.CreateCall(f); } }
  saveMod(*m, out); return 0;
}
static std::map<std::string, std::string> args; static std::vector<std::string> pos;
static std::string entryName;
static void writeTrace(Engine& e, const std::string& f, const std::string& label) {
  std::ofstream o(f); o << "# entry " << entryName << "\n# label " << label << "\nR " << g_reduce << "\n"; for (auto& t : e.trace) { if (t.k == 'S') o << "S " << t.t << " " << t.a << " " << (i64)t.b << "\n"; else o << t.k << " " << t.t << " " << t.a << "\n"; }
}
static void writeMarks(const std::string& f) { std::ofstream o(f); for (auto* d : g_funcs) for (auto& i : d->ins) if (i.marked) o << d->name << " " << i.idx << "\n"; }
static int cmdExplore() {
  auto t0 = std::chrono::steady_clock::now();
  auto mod = loadMod(pos[1]); g_mod = mod.get(); g_dl = &mod->getDataLayout();
  { // which locals never escape (they need no race bookkeeping)
    for (auto& F : *mod) if (!F.isDeclaration() && !F.hasLocalLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM; MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass())); MPM.run(*mod, MAM); }
  const char* bn[] = {"", "vf_tid", "vf_spawn", "vf_sched", "vf_await", "vf_nondet", "vf_assume", "vf_assert", "vf_fail", "vf_reach", "vf_observe", "vf_malloc", "vf_free", "vf_hb_release", "vf_hb_acquire", "vf_raise", "vf_is_native", "vf_heap_live", "__dynamic_cast", "vf_concrete", "vf_daemon", "vf_ghost", "vf_stop", "vf_reach_if", "", "", "vf_alive", "", "vf_print", "vf_lk_release", "vf_lk_acquire", "vf_mov", "vf_case"};
  for (size_t i = 1; i < sizeof bn / sizeof *bn; i++) if (*bn[i]) g_builtins[bn[i]] = i;
  for (auto& F : *mod) getFunc(&F);
  for (auto& G : mod->globals()) { if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used" || G.getName() == "llvm.global_dtors") continue; globalAddr(&G); }
  std::vector<std::pair<u64, DFunc*>> ct; if (auto* g = mod->getNamedGlobal("llvm.global_ctors")) if (auto* A = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) ct.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), getFunc(F)}); }
  std::stable_sort(ct.begin(), ct.end(), [](auto& a, auto& b) { return a.first < b.first; }); std::vector<DFunc*> ctors; for (auto& c : ct) ctors.push_back(c.second);
  entryName = args["entry"]; Function* ef = mod->getFunction(entryName); if (!ef) fatal("no entry " + entryName);
  if (args.count("max-level")) g_opt.maxLevel = atoi(args["max-level"].c_str()); if (args.count("ctx")) g_opt.ctx = atoi(args["ctx"].c_str()); if (args.count("norace")) g_opt.norace = true; if (args.count("v")) g_opt.verbose = true; if (args.count("nostop")) g_opt.nostop = true; if (args.count("norp")) g_opt.norp = true; if (args.count("nomerge")) g_opt.nomerge = true;
  if (args.count("noreduce")) g_reduce = false; if (args.count("time")) g_opt.timeLimit = atof(args["time"].c_str()); if (args.count("samples")) g_opt.samples = atoi(args["samples"].c_str()); if (args.count("max-steps")) g_opt.maxSteps = atoll(args["max-steps"].c_str());
  std::string odir = args.count("out") ? args["out"] : "/tmp"; if (system(("mkdir -p '" + odir + "'").c_str())) fatal("mkdir");
  Engine* en = nullptr; u64 tot_states = 0, tot_trans = 0, tot_merge = 0; int passes = 0; u64 unconf = 0;
  for (;;) {
    passes++; g_pass = passes; en = new Engine; E = en; en->explore(getFunc(ef), ctors, g_opt.maxLevel);
    if (g_restart && g_reduce) { g_reduce = false; g_restart = false; if (g_opt.verbose) fprintf(stderr, "restart without lock reduction\n"); continue; }
    tot_states += en->nstates; tot_trans += en->ntrans; tot_merge += en->nmerge;
    if (!en->viols.empty() || en->newMarks.empty()) break;
    // confirm races concretely; unconfirmed candidates become scheduling points
    bool conf = false;
    for (auto& [k, ms] : en->races) { for (auto& [m0, lv] : ms) { ModelP m = en->expand(m0); Engine c; c.conc = m.get(); E = &c; g_opt.verbose = false; c.explore(getFunc(ef), ctors, lv); E = en; g_opt.verbose = args.count("v");
        if (!c.races.empty()) { conf = true; Viol v; auto kk = c.races.count(k) ? k : c.races.begin()->first; const DInst *a = &g_funcs[kk.first >> 32]->ins[(u32)kk.first], *b = &g_funcs[kk.second >> 32]->ins[(u32)kk.second]; v.label = "data race: " + instLoc(a) + " / " + instLoc(b); v.where = ""; v.m = m0; v.level = lv; v.race = true; v.k1 = kk.first; v.k2 = kk.second; en->viols[v.label] = v; break; } } if (en->viols.size() > 8) break; }
    if (conf || passes >= 5) { if (!conf) { unconf = en->newMarks.size(); } break; }
    int nm = 0; for (u64 k : en->newMarks) { DInst& d = g_funcs[k >> 32]->ins[(u32)k]; if (!d.marked) { d.marked = true; nm++; if (g_opt.verbose) fprintf(stderr, "mark %s #%u\n", instLoc(&d).c_str(), d.idx); } }
    if (!nm) break;
  }
  bool cert = true; if (!args.count("nocert")) { if (args.count("cert-limit")) g_solver.certify_limit = atof(args["cert-limit"].c_str()); cert = g_solver.certify(); }
  writeMarks(odir + "/" + entryName + ".marks");
  // concrete re-execution of every violation and of some complete runs: traces for the native replay
  std::ostringstream js; js << "{\n \"entry\": \"" << entryName << "\",\n \"violations\": ["; int k = 0; bool vb = g_opt.verbose; g_opt.verbose = args.count("vv");
  for (auto& [lab, v] : en->viols) { ModelP vm = en->expand(v.m); Engine c; c.conc = vm.get(); E = &c; c.explore(getFunc(ef), ctors, v.level + (v.race ? 0 : 3)); E = en;
    bool conf = v.race ? c.races.count({v.k1, v.k2}) > 0 : c.concViol == lab; std::string tf = odir + "/" + entryName + ".v" + std::to_string(k) + ".trace"; writeTrace(c, tf, lab);
    js << (k ? "," : "") << "\n  {\"label\": \"" << jesc(lab) << "\", \"where\": \"" << jesc(v.where) << "\", \"level\": " << v.level << ", \"race\": " << (v.race ? "true" : "false") << ", \"confirmed\": " << (conf ? "true" : "false") << ", \"concrete\": \"" << jesc(c.concViol) << "\", \"trace\": \"" << tf << "\"}"; k++; }
  js << "],\n \"samples\": ["; k = 0; size_t ns = en->samples.size(); int want = g_opt.samples; if ((size_t)want > ns) want = ns;
  if (en->viols.empty()) for (int i = 0; i < want; i++) { auto& [m0, lv] = en->samples[ns * i / want]; ModelP m = en->expand(m0); Engine c; c.conc = m.get(); E = &c; c.explore(getFunc(ef), ctors, lv + 1); E = en; std::string tf = odir + "/" + entryName + ".s" + std::to_string(i) + ".trace"; writeTrace(c, tf, c.concViol);
    js << (k++ ? "," : "") << "\n  {\"trace\": \"" << tf << "\", \"steps\": " << lv - 1 << ", \"ok\": " << (c.concViol.empty() && c.nfinal == 1 ? "true" : "false") << "}"; }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  js << "],\n \"levels\": " << en->levels << ", \"states\": " << tot_states << ", \"transitions\": " << tot_trans << ", \"merges\": " << tot_merge << ", \"final_states\": " << en->nfinal << ", \"max_frontier\": " << en->maxfront << ", \"value_tuples\": " << en->ntuples << ", \"states_kept_symbolic\": " << en->nkept << ", \"truncated\": " << en->truncated << ", \"passes\": " << passes << ", \"lock_reduction\": " << (g_reduce ? "true" : "false") << ", \"race_candidates_unresolved\": " << unconf
     << ",\n \"instructions\": " << en->ninst << ", \"forks\": " << en->nforks << ", \"threads\": " << en->maxThreads << ", \"assertions\": " << en->nassert << ", \"queries\": " << g_solver.queries << ", \"sat\": " << g_solver.sat << ", \"unsat\": " << g_solver.unsat << ", \"decided_by_model\": " << g_solver.hinted << ", \"claims\": " << g_solver.claims.size() << ", \"certified\": " << g_solver.certified << ", \"certify_s\": " << g_solver.certify_s << ", \"solver_s\": " << g_solver.secs << ", \"wall_s\": " << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << ", \"maxrss_mb\": " << ru.ru_maxrss / 1024 << ", \"nodes\": " << g_nodes << ", \"vars\": " << g_vars.size();
  js << ",\n \"reached\": ["; k = 0; for (auto& r : en->reached) js << (k++ ? ", " : "") << "\"" << jesc(r.first) << "\"";
  js << "],\n \"functions\": ["; k = 0; for (auto* f : en->funcs) if (!f->F->hasFnAttribute("bsx-env")) js << (k++ ? ", " : "") << "\"" << jesc(f->name) << "\"";
  js << "]\n}\n";
  std::ofstream(odir + "/" + entryName + ".json") << js.str();
  if (vb || args.count("show")) { std::string s = js.str(); printf("%s", s.substr(0, s.find("\"functions\"")).c_str()); printf("\n"); }
  printf("DONE %s violations=%zu truncated=%llu states=%llu queries=%llu solver=%.1fs\n", entryName.c_str(), en->viols.size(), (unsigned long long)en->truncated, (unsigned long long)tot_states, (unsigned long long)g_solver.queries, g_solver.secs); fflush(stdout);
  _Exit(0);
}
static int rc; static int realMain() {
  C = new LLVMContext; if (pos.empty()) { fprintf(stderr, "usage: bsx prep|env|emit|explore ...\n"); return 2; }
  if (pos[0] == "prep") return cmdPrep(pos[1], pos[2]); if (pos[0] == "env") return cmdEnv(pos[1], pos[2]); if (pos[0] == "emit") return cmdEmit(pos[1], pos[2], pos[3]); if (pos[0] == "explore") return cmdExplore();
  return 2;
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { auto e = a.find('='); if (e == std::string::npos) args[a.substr(2)] = "1"; else args[a.substr(2, e - 2)] = a.substr(e + 1); } else pos.push_back(a); }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ul << 20); pthread_t th; pthread_create(&th, &at, [](void*) -> void* { rc = realMain(); return nullptr; }, nullptr); pthread_join(th, nullptr); return rc;
}
