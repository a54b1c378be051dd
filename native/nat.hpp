// shared by the native oracles: report the current case when it crashes, asserts or hangs
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <functional>
#include <string>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace nat {
inline std::function<void()>& describe() { static std::function<void()> f; return f; }
inline std::string& why() { static std::string s; return s; }
inline void death() { if (describe()) { why() = "crash (sanitizer or signal)"; auto f = describe(); describe() = nullptr; f(); fflush(stdout); } }
inline void on_sig(int s) {
    if (describe()) { why() = s == SIGALRM ? "HANG: no answer within 10 s" : "crash (assertion or signal)"; auto f = describe(); describe() = nullptr; f(); fflush(stdout); }
    _exit(1);
}
inline void init() {
    setvbuf(stdout, nullptr, _IONBF, 0);
    __sanitizer_set_death_callback(death);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig); signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig);
}
struct watch { explicit watch(std::function<void()> f) { describe() = std::move(f); alarm(10); } ~watch() { describe() = nullptr; alarm(0); } };
}
