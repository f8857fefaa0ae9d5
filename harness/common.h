#pragma once
// Shared by all harnesses: set-up and generators of symbolic FDB objects.
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "symapi.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"

inline void harnessInit() {
    static const char* argv[] = {"fdb-check", nullptr};
    setenv("FDB_HOME", "/nonexistent-fdb-home", 1);
    setenv("ECCODES_DEBUG", "0", 1);
    if (!eckit::Main::ready())
        eckit::Main::initialise(1, const_cast<char**>(argv));
}
// characters found in MARS values
inline bool valueChar(unsigned char c) {
    // branch-free: one path condition per character
    return (unsigned(c - 'a') < 26u) | (unsigned(c - '-') < 13u) | (c == '_');  // a-z 0-9 - . / _
}
inline bool anyChar(unsigned char c) {
    return unsigned(c - 32) < 95u;
}
template <class F>
inline bool throws(F&& f) {
    try {
        f();
    }
    catch (eckit::Exception&) {
        return true;
    }
    catch (std::exception&) {
        return true;
    }
    return false;
}
// symbolic string of length lo..hi (one path family per length)
template <typename P>
inline std::string symStr(const char* name, unsigned lo, unsigned hi, P pred, char init = 'a') {
    unsigned n = lo == hi ? lo : lo + sym_choice(name, hi - lo + 1);
    return sym_string(name, n, pred, init);
}
// independent ("reference") reading of expected results must not go through library code under test
// thorough tier: larger bounds
inline bool deep() {
    const char* d = getenv("SYM_DEEP");
    return d && *d;
}
// decimal text of v with exactly `width` digits, computed without branching on v
inline std::string digits(unsigned v, unsigned width) {
    std::string s(width, '0');
    for (unsigned i = width; i-- > 0;) {
        s[i] = (char)('0' + v % 10);
        v /= 10;
    }
    return s;
}
