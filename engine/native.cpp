// Native (uninstrumented) implementation of the harness API: replays one concrete input.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <filesystem>
#include "symapi.h"
static std::string input;
static size_t pos = 0;
struct Reg {
    const char* n;
    sym_fn f;
};
static std::vector<Reg>& regs() {
    static std::vector<Reg> r;
    return r;
}
SymCase::SymCase(const char* n, sym_fn f, const char*) { regs().push_back({n, f}); }
static std::string scratchDir;
static void done(int rc) {
    std::error_code ec;
    if (!scratchDir.empty())
        std::filesystem::remove_all(scratchDir, ec);
    fflush(stdout);
    _exit(rc);
}
extern "C" {
void sym_bytes_(void* p, size_t n, const char* name, const void* init) {
    printf("  %s =", name);
    for (size_t i = 0; i < n; ++i) {
        unsigned char v = pos < input.size() ? input[pos] : (init ? ((const unsigned char*)init)[i] : 0);
        ++pos;
        ((unsigned char*)p)[i] = v;
        printf(" %02x", v);
    }
    puts("");
}
void sym_assume_(bool c) {
    if (!c) {
        puts("assumption not met: not a counterexample");
        done(0);
    }
}
void sym_assert_(bool c, const char* msg) {
    if (!c)
        sym_fail(msg);
}
uint64_t sym_concrete_(uint64_t v, uint32_t) { return v; }
void sym_reach(const char* l) { printf("  reached %s\n", l); }
void sym_note(const char* l) { printf("  note: %s\n", l); }
void sym_fail(const char* msg) {
    printf("VIOLATED: %s\n", msg);
    done(1);
}
void sym_end_path() { done(0); }
int sym_is_replay() { return 1; }
void* symw_model_hook() { return nullptr; }
}
static void onSig(int s) {
    printf("VIOLATED: crash: signal %d\n", s);
    done(1);
}
int main(int argc, char** argv) {
    if (argc < 3)
        return 2;
    const char* h = argv[2];
    for (size_t i = 0; h[i] && h[i + 1]; i += 2) {
        char b[3] = {h[i], h[i + 1], 0};
        input.push_back((char)strtol(b, nullptr, 16));
    }
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
        signal(s, onSig);
    char t[64] = "/dev/shm/fdbsym.XXXXXX";
    if (mkdtemp(t) || mkdtemp(strcpy(t, "/tmp/fdbsym.XXXXXX"))) {
        scratchDir = t;
        setenv("SYM_SCRATCH", t, 1);
    }
    sym_setup();
    for (auto& r : regs())
        if (!strcmp(r.n, argv[1])) {
            try {
                r.f();
            }
            catch (std::exception& e) {
                printf("VIOLATED: uncaught exception %s: %s\n", typeid(e).name(), e.what());
                done(1);
            }
            catch (...) {
                puts("VIOLATED: uncaught exception");
                done(1);
            }
            puts("held");
            done(0);
        }
    return 2;
}

// as in the instrumented build: a started thread runs to completion where it is started
#include <dlfcn.h>
#include <pthread.h>
static void* nothing(void*) { return nullptr; }
extern "C" __attribute__((weak)) int sym_defer_thread(void* (*fn)(void*), void* arg);
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    typedef int (*PC)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static PC real = (PC)dlsym(RTLD_NEXT, "pthread_create");
    if (!sym_defer_thread || !sym_defer_thread(fn, arg))
        fn(arg);
    return real(t, a, nothing, nullptr);
}
extern "C" void sym_run_thread(void* (*fn)(void*), void* arg) {
    fn(arg);
}
