// Native side of sym.hpp: replays one assignment found by the solver.
#include "sym.hpp"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
static std::map<std::string, uint64_t> gV;
static std::map<std::string, int> gCnt;
static std::vector<int64_t> gP;
static std::string key(const char *n) { int k = gCnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static uint64_t val(const std::string &k) { auto it = gV.find(k); return it == gV.end() ? 0 : it->second; }
extern "C" {
uint8_t sym_u8(const char *n) { return val(key(n)); }
uint16_t sym_u16(const char *n) { return val(key(n)); }
uint32_t sym_u32(const char *n) { return val(key(n)); }
uint64_t sym_u64(const char *n) { return val(key(n)); }
void sym_bytes(void *p, size_t n, const char *name) { if (!n) return; std::string k = key(name); for (size_t i = 0; i < n; ++i) ((uint8_t *)p)[i] = val(k + "[" + std::to_string(i) + "]"); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(78); } }
void sym_assert(bool c, const char *m) { if (!c) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); _exit(77); } }
void sym_cover(const char *l) { printf("COVER %s\n", l); }
uint64_t sym_concretize(uint64_t v) { return v; }
int64_t sym_param(unsigned i) { return i < gP.size() ? gP[i] : 0; }
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void sym_valid_range(const void *p, size_t n) { volatile uint8_t s = 0; for (size_t i = 0; i < n; ++i) s ^= ((const volatile uint8_t *)p)[i]; }
uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_run_thread(void (*fn)(void *), void *arg) { std::thread(fn, arg).join(); }
}
// usage: replay VALUES FUNCTION [params...]; VALUES has lines "name value"
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    alarm(60);
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    char name[512]; unsigned long long v;
    char line[1024];
    while (fgets(line, sizeof line, f)) { if (line[0] == '!') continue; if (sscanf(line, "%511s %llu", name, &v) == 2) gV[name] = v; }
    fclose(f);
    for (int i = 3; i < argc; ++i) gP.push_back(atoll(argv[i]));
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
    if (!fn) { printf("no function %s\n", argv[2]); return 3; }
    fn();
    printf("DONE\n"); fflush(stdout);
    _exit(0);
}
