// Native side of the harness interface: runs a harness against the real Qt with the inputs of a counterexample.
#include <unistd.h>
// replay_<harness> ENTRY [INPUTS]   INPUTS: lines "in NAME HEX" and "param NAME VALUE"
// exit 0: every check passed; 99: a check failed; 77: an assumption does not hold for these inputs; anything else: crash
#include "../symx.h"
#include <QtCore/QCoreApplication>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <atomic>
#include <malloc.h>
#include <thread>
static std::vector<std::thread> threads;
static std::map<std::string, std::vector<unsigned char>> in; static std::map<std::string, long> par; static std::map<std::string, unsigned> cnt; static int failed;
extern "C" {
void symx_make_symbolic(void *p, unsigned long n, const char *name) { std::string s = name; unsigned c = cnt[s]++; if (c) s += "#" + std::to_string(c); memset(p, 0, n); auto it = in.find(s); if (it != in.end()) memcpy(p, it->second.data(), std::min<size_t>(n, it->second.size())); }
void symx_assume(bool c) { if (!c) { printf("ASSUMPTION-FALSE\n"); fflush(stdout); _exit(failed ? 99 : 77); } }
void symx_check(bool c, const char *m) { if (!c) { printf("CHECK-FAILED: %s\n", m); fflush(stdout); failed = 1; } }
void symx_fail(const char *m) { printf("CHECK-FAILED: %s\n", m); fflush(stdout); _exit(99); }
void symx_cover(const char *l) { printf("COVER %s\n", l); }
void symx_event(const char *l) { printf("EVENT %s\n", l); }
void symx_print(const char *l, unsigned long v) { printf("symx: %s %ld\n", l, (long)v); }
long symx_param(const char *n, long d) { auto it = par.find(n); return it == par.end() ? d : it->second; }
unsigned long symx_concretize(unsigned long v) { return v; }
int symx_is_live(const void *) { return -1; }
long symx_heap_live() { return -1; }
int symx_thread_create(void (*fn)(void *), void *arg) { threads.emplace_back(fn, arg); return (int)threads.size(); }
void symx_thread_join_all() { for (auto &t : threads) t.join(); threads.clear(); }
void symx_abort_path() { fflush(stdout); _exit(failed ? 99 : 0); }
}
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    if (argc > 2) { std::ifstream f(argv[2]); std::string k, n, v; while (f >> k >> n) { std::getline(f, v); v.erase(0, v.find_first_not_of(' ')); if (k == "param") par[n] = atol(v.c_str()); else { std::vector<unsigned char> b; for (size_t i = 0; i + 1 < v.size(); i += 2) b.push_back((unsigned char)strtoul(v.substr(i, 2).c_str(), nullptr, 16)); in[n] = b; } } }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    int ac = 1; char *av[] = {argv[0], nullptr}; QCoreApplication app(ac, av);
    fn(); fflush(stdout); _exit(failed ? 99 : 0); }
