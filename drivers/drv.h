// Bounded runtime-contract enumeration: shared by all drivers.  A driver states the contracts of a property as executable
// checks and enumerates a bounded set of inputs/histories against the library built from /repo's current sources.
// It is the counterexample replay of the deductive check and the (labelled) bounded stand-in where a contract is out of reach.
#pragma once
#include <jnivm.h>
#include <jnivm/internal/findclass.h>
#include <jnivm/weak.h>
#include <jnivm/bytebuffer.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <sys/time.h>
#include <exception>
#include <functional>
#include <random>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unistd.h>
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
namespace drv {
    static char cur[512] = "start"; static unsigned long evals = 0, fails = 0; static bool thorough = false; static std::mt19937 rng;
    static std::vector<std::string> samples;
    static void die() { char b[700]; int n = snprintf(b, sizeof b, "FAIL crash in case: %s\n", cur); if(write(1, b, n)) {} }
    static void onsig(int s) { die(); signal(s, SIG_DFL); raise(s); }
    // a case that burns 100 s of CPU or blocks for 400 s is a hang
    static void arm() { itimerval t{}; t.it_value.tv_sec = 100; setitimer(ITIMER_PROF, &t, nullptr); alarm(400); }
    static void kase(const char* f, ...) { arm(); va_list l; va_start(l, f); vsnprintf(cur, sizeof cur, f, l); va_end(l); evals++; if(samples.size() < 5 || (evals % 4099 == 0 && samples.size() < 9)) samples.push_back(cur); }
    static void fail(const char* file, int line, const char* e) { fails++; printf("FAIL %s:%d: %s  in case: %s\n", file, line, e, cur); fflush(stdout); if(fails >= 12) _exit(1); }
    static unsigned rnd(unsigned n) { return rng() % n; }
    // true iff t throws a C++ exception
    static bool throws(const std::function<void()>& t) { try { t(); } catch(...) { return true; } return false; }
}
#define CHECK(c) do { if(!(c)) drv::fail(strrchr(__FILE__, '/') ? strrchr(__FILE__, '/') + 1 : __FILE__, __LINE__, #c); } while(0)
#define THROWS(x) drv::throws([&]() { x; })
void drive();
int main(int argc, char** argv) {
    drv::rng.seed(argc > 1 ? strtoul(argv[1], 0, 10) : 1); drv::thorough = argc > 2 && !strcmp(argv[2], "thorough");
    if(__asan_set_death_callback) __asan_set_death_callback(drv::die);
    signal(SIGABRT, drv::onsig); signal(SIGPROF, drv::onsig); signal(SIGALRM, drv::onsig);
    std::set_terminate([] { drv::die(); signal(SIGABRT, SIG_DFL); abort(); });
    try { drive(); } catch(const std::exception& e) { printf("FAIL unexpected exception %s in case: %s\n", e.what(), drv::cur); drv::fails++; }
    for(auto&& s : drv::samples) printf("SAMPLE %s\n", s.c_str());
    printf("EVALS %lu FAILS %lu\n", drv::evals, drv::fails); fflush(stdout);
    _exit(drv::fails ? 1 : 0);
}
