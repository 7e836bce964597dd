// Common part of the harnesses: the trace file, crash and hang events, script reading.
#pragma once
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <cmath>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <vector>

// Every draw of std::random_device is fixed, so that runs repeat.
namespace std {
unsigned random_device::_M_getval() {
    static unsigned n = 12345;
    return n += 2654435769u;
}
}

namespace vt {
static FILE* out = nullptr;
static int seconds = 30;

inline void die(int sig) {
    // async-signal-safe: one line, unbuffered
    char b[64];
    int n = snprintf(b, sizeof b, "{\"e\":\"%s\",\"sig\":%d}\n", sig == SIGALRM ? "hang" : "crash", sig);
    if (out) { fflush(out); if (write(fileno(out), b, n)) {} }
    _exit(0);
}

inline void open(const char* path) {
    out = fopen(path, "w");
    if (!out) { perror(path); exit(3); }
    static char stack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = die; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) { sigaction(s, &sa, nullptr); }
}

inline void watch() { alarm(seconds); }

// One event: a JSON object written as it is built
struct Ev {
    std::string s;
    explicit Ev(const std::string& e) : s("{\"e\":\"" + e + "\"") {}
    Ev& raw(const std::string& k, const std::string& v) { s += ",\"" + k + "\":" + v; return *this; }
    Ev& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
    Ev& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    Ev& str(const std::string& k, const std::string& v) { return raw(k, "\"" + v + "\""); }
    ~Ev() { s += "}\n"; fputs(s.c_str(), out); fflush(out); }
};

// A double as an integer in units of 1/scale.  NaN and anything out of TLC's range
// become NAN_ (no value a specification expects).
static const long NAN_ = -2000000000;
inline long fx(double v, double scale) {
    double r = std::round(v * scale);
    if (!(r > -1.9e9 && r < 2.1e9)) { return NAN_; }
    return static_cast<long>(r);
}

// A double as a big integer, v * 10^(4*limbs), for BigNat: {"n":neg,"m":[limbs]}
inline std::string big(double v, int limbs) {
    if (!(std::abs(v) < 1e290)) { return "{\"n\":true,\"m\":[9999,9999,9999,9999,9999,9999,9999,9999,9999,9999,9999,9999,9999,9999,9999,9999]}"; }
    bool neg = v < 0;
    long double x = std::fabs(static_cast<long double>(v));
    for (int k = 0; k < limbs; ++k) { x *= 10000.0L; }
    x = std::round(x);
    std::string s = "[";
    bool first = true;
    bool zero = true;
    while (x >= 1) {
        long double q = std::floor(x / 10000.0L);
        long l = static_cast<long>(x - q * 10000.0L);
        if (l < 0) { l = 0; }
        if (l > 9999) { l = 9999; }
        if (!first) { s += ","; }
        first = false; zero = false;
        s += std::to_string(l);
        x = q;
    }
    return std::string("{\"n\":") + (neg && !zero ? "true" : "false") + ",\"m\":" + s + "]}";
}

template<typename T, typename F>
std::string list(const T& v, F f) {
    std::string s = "[";
    bool first = true;
    for (const auto& x : v) {
        if (!first) { s += ","; }
        first = false;
        s += f(x);
    }
    return s + "]";
}
template<typename T>
std::string ints(const T& v) { return list(v, [](auto x) { return std::to_string(static_cast<long>(x)); }); }
}  // namespace vt
