// se <bitcode> <function> [options] [-- params]: explore a harness symbolically and print a JSON report.
#include "interp.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <pthread.h>
#include <sys/resource.h>
using namespace llvm;
static int gArgc; static char **gArgv; static int gRc;

static void *mainThread(void *) {
    se::Options o;
    std::string bc, out;
    std::vector<std::string> pos;
    for (int i = 1; i < gArgc; ++i) {
        std::string a = gArgv[i];
        auto next = [&] { return std::string(gArgv[++i]); };
        if (a == "--time") o.timeBudget = atof(next().c_str());
        else if (a == "--steps") o.maxSteps = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--violations") o.maxViolations = atoi(next().c_str());
        else if (a == "--witnesses") o.maxWitnesses = atoi(next().c_str());
        else if (a == "--query-ms") se::gQueryTimeoutMs = atoi(next().c_str());
        else if (a == "--repo") o.repo = next();
        else if (a == "--out") out = next();
        else if (a == "-v") o.verbose = true;
        else if (a == "--") { while (++i < gArgc) o.params.push_back(strtoll(gArgv[i], nullptr, 10)); }
        else pos.push_back(a);
    }
    if (pos.size() < 2) { fprintf(stderr, "usage\n"); gRc = 2; return nullptr; }
    o.func = pos[1];
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(pos[0], err, ctx);
    if (!M) { err.print("se", errs()); gRc = 2; return nullptr; }
    se::threadLocals(*M);
    se::Report r = se::explore(*M, o);
    json::Object j;
    j["function"] = o.func;
    json::Array ps; for (auto p : o.params) ps.push_back(p);
    j["params"] = std::move(ps);
    j["paths"] = (int64_t)r.paths; j["forks"] = (int64_t)r.forks; j["killed"] = (int64_t)r.killed; j["instructions"] = (int64_t)r.insts;
    j["asserts"] = (int64_t)r.asserts; j["asserts_symbolic"] = (int64_t)r.asserts_symbolic; j["memory_checks"] = (int64_t)r.memchecks; j["symbolic_branches"] = (int64_t)r.branches;
    j["states_left"] = (int64_t)r.left; j["wall_s"] = r.wall; j["exprs"] = (int64_t)se::exprCount();
    auto &s = se::gSolver;
    j["solver"] = json::Object{{"queries", (int64_t)s.queries}, {"z3", (int64_t)s.z3}, {"cex_hits", (int64_t)s.cexHits}, {"cache_hits", (int64_t)s.cacheHits}, {"sat", (int64_t)s.sat}, {"unsat", (int64_t)s.unsat}, {"unknown", (int64_t)s.unknown}, {"lia", (int64_t)s.lia}, {"time_s", s.z3Time}, {"max_s", s.maxTime}};
    json::Array inc; for (auto &x : r.incomplete) inc.push_back(x);
    j["incomplete"] = std::move(inc);
    json::Array fs; for (auto &x : r.functions) fs.push_back(x);
    j["functions"] = std::move(fs);
    json::Array ls; for (auto &x : r.lines) ls.push_back(x);
    j["lines"] = std::move(ls);
    json::Object cv; for (auto &x : r.covers) cv[x.first] = (int64_t)x.second;
    j["covers"] = std::move(cv);
    auto ins = [](const std::vector<std::pair<std::string, uint64_t>> &v) { json::Array a; for (auto &p : v) a.push_back(json::Array{p.first, std::to_string(p.second)}); return a; };
    json::Array vs;
    for (auto &v : r.violations) vs.push_back(json::Object{{"kind", v.kind}, {"msg", v.msg}, {"where", v.where}, {"backtrace", v.bt}, {"inputs", ins(v.inputs)}});
    j["violations"] = std::move(vs);
    json::Array ws;
    for (auto &w : r.witnesses) {
        json::Array ob; for (auto x : w.obs) ob.push_back(std::to_string(x));
        json::Array cs; for (auto &x : w.covers) cs.push_back(x);
        ws.push_back(json::Object{{"inputs", ins(w.inputs)}, {"observed", std::move(ob)}, {"covers", std::move(cs)}});
    }
    j["witnesses"] = std::move(ws);
    std::string text; raw_string_ostream os(text); os << json::Value(std::move(j)); os.flush();
    if (out.empty()) { fputs(text.c_str(), stdout); fputc('\n', stdout); }
    else { FILE *f = fopen(out.c_str(), "w"); fputs(text.c_str(), f); fclose(f); }
    fflush(stdout);
    _exit(0);
}
int main(int argc, char **argv) {
    gArgc = argc; gArgv = argv;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t;
    if (pthread_create(&t, &at, mainThread, nullptr)) { perror("pthread"); return 2; }
    pthread_join(t, nullptr);
    return gRc;
}
