// What another process finds when the one that archives is stopped between, or in the middle of, any of its calls that change the file system,
// or is still running.
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include "local.h"
using namespace fdb5;

// Calls that change files of the scratch directory. Everything else is left alone.
static std::function<void()> atPoint;  // what happens at the chosen point
static long chosen, passed;
static bool armed, tearing;
static void point() {
    if (armed && passed++ == chosen) {
        armed = false;
        std::string e;
        try {
            atPoint();
        } catch (const std::exception& x) {
            e = x.what();
        }
        if (e != "") {
            sym_note(e.c_str());
            sym_fail("another process fails");
        }
    }
}
static bool ours(const char* p) {
    if (!armed || !p)
        return false;
    static const char* s = getenv("SYM_SCRATCH");
    for (size_t i = 0; s[i]; ++i)
        if (p[i] != s[i])
            return false;
    return true;
}
static bool ours(int fd) {
    if (!armed)
        return false;
    static char l[32], t[512];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    long n = syscall(SYS_readlink, l, t, sizeof t - 1);
    if (n <= 0)
        return false;
    t[n] = 0;
    return ours(t);
}
// part of the bytes reach the file
static void write1(int fd, const void* p, size_t n) {
    if (tearing && armed && passed == chosen && n > 1) {
        static const size_t at[] = {1, 4, 100, 112, 113, 600};
        unsigned c = sym_choice("part", 8);
        size_t k = c == 6 ? n / 2 : c == 7 ? n - 1 : at[c];
        sym_assume(k < n);
        syscall(SYS_write, fd, p, k);
    }
    point();
}
template <class T>
static T real(T, const char* name) {
    return (T)dlsym(RTLD_NEXT, name);
}
extern "C" {
ssize_t write(int fd, const void* p, size_t n) {
    if (ours(fd))
        write1(fd, p, n);
    return syscall(SYS_write, fd, p, n);
}
int fflush(FILE* f) {
    static auto r = real(&fflush, "fflush");
    if (armed && f && f->_IO_write_ptr > f->_IO_write_base && ours(fileno(f)))
        write1(fileno(f), f->_IO_write_base, f->_IO_write_ptr - f->_IO_write_base);
    return r(f);
}
int fclose(FILE* f) {
    static auto r = real(&fclose, "fclose");
    if (armed && f && f->_IO_write_ptr > f->_IO_write_base && ours(fileno(f)))
        write1(fileno(f), f->_IO_write_base, f->_IO_write_ptr - f->_IO_write_base);
    return r(f);
}
FILE* fopen(const char* p, const char* m) {
    static auto r = real(&fopen, "fopen");
    if (ours(p) && m[0] != 'r')
        point();
    return r(p, m);
}
int open(const char* p, int flags, ...) {
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    if ((flags & O_CREAT) && ours(p) && access(p, F_OK) != 0)
        point();
    return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int mkdir(const char* p, mode_t m) {
    if (ours(p) && access(p, F_OK) != 0)
        point();
    return syscall(SYS_mkdir, p, m);
}
int rename(const char* a, const char* b) {
    if (ours(a))
        point();
    return syscall(SYS_rename, a, b);
}
int unlink(const char* p) {
    if (ours(p))
        point();
    return syscall(SYS_unlink, p);
}
int ftruncate(int fd, off_t n) {
    if (ours(fd))
        point();
    return syscall(SYS_ftruncate, fd, n);
}
}

static const struct { unsigned db, ix, d; } fields[] = {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}};
static const unsigned nFields = 4;
struct Session {
    std::string dir = scratch();
    Config base = localConfig(dir);
    bool sub;
    std::vector<std::string> done = std::vector<std::string>(nFields), next = done;  // the content of each field: after the last flush; after this one
    std::vector<std::string> before = done;                                         // of readers that may have been there before
    FDB* w = nullptr;
    explicit Session(bool sub) : sub(sub) {}
    Config config() const { return sub ? Config(base, eckit::YAMLConfiguration(std::string("useSubToc: true"))) : base; }
    void archive(FDB& f, unsigned i, const std::string& s) {
        next[i] = s;
        f.archive(mkKey(fieldOf(fields[i].db, fields[i].ix, fields[i].d)), s.data(), s.size());
    }
    void flush(FDB& f) {
        f.flush();
        done = next;
    }
    // the archiving process
    void run(unsigned cycles) {
        w = new FDB(config());
        for (unsigned c = 0; c < cycles; ++c) {
            unsigned k = sym_choice("fields", 4);
            std::string s = "cycle " + std::to_string(c) + std::string(c, '+');
            if (k == 0 || k == 2)
                archive(*w, 0, s + "a");
            if (k == 1 || k == 2)
                archive(*w, 2, s + "c");
            if (k == 2)
                archive(*w, 1, s + "b");
            if (k == 3) {
                archive(*w, 3, s + "d");
                archive(*w, 0, s + "a");
            }
            flush(*w);
        }
        delete w;
    }
    // what is found, field by field; "" if missing
    std::vector<std::string> look(bool retrieve) {
        FDB r(base);
        std::vector<std::string> v(nFields);
        if (retrieve) {
            for (unsigned i = 0; i < nFields; ++i)
                v[i] = readAll(r.retrieve(mkRequest(fieldOf(fields[i].db, fields[i].ix, fields[i].d))));
            return v;
        }
        auto m = listAll(r, FDBToolRequest({}, true), true, true);
        size_t n = 0;
        for (unsigned i = 0; i < nFields; ++i) {
            auto e = m.equal_range(textOf(fieldOf(fields[i].db, fields[i].ix, fields[i].d)));
            n += std::distance(e.first, e.second);
            sym_assert(std::distance(e.first, e.second) <= 1, "a field is listed twice");
            if (e.first != e.second)
                v[i] = e.first->second;
        }
        sym_assert(n == m.size(), "something is listed that was never archived");
        return v;
    }
    void judge(const std::vector<std::string>& v) {
        // for each index, all of what the flush in progress adds or none
        for (unsigned i = 0; i < nFields; ++i)
            sym_assert(v[i] == done[i] || v[i] == next[i], done[i] == "" ? "a field has content that was never archived" : "a field whose flush had returned is lost or wrong");
        for (unsigned i = 0; i < nFields; ++i)
            for (unsigned j = 0; j < i; ++j)
                if (fields[i].db == fields[j].db && fields[i].ix == fields[j].ix && next[i] != done[i] && next[j] != done[j])
                    sym_assert((v[i] == next[i]) == (v[j] == next[j]), "an index is partly visible");
    }
    void show(const std::vector<std::string>& v) {
        for (unsigned i = 0; i < nFields; ++i) {
            std::string s = "field " + std::to_string(i) + ": flushed '" + done[i] + "' archived '" + next[i] + "' found '" + v[i] + "'";
            sym_note(s.c_str());
        }
    }
};
static void setup2(bool sub) {
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm" + std::to_string(2 + sub);
    mkdir(d.c_str(), 0777);
    Config c = localConfig(d);
    Config c2 = sub ? Config(c, eckit::YAMLConfiguration(std::string("useSubToc: true"))) : c;
    FDB fdb(c2);
    fdb.archive(mkKey(fieldOf(0, 0, 0)), "abc", 3);
    fdb.flush();
}
void sym_setup() {
    localSetup();
    throws([] { throw eckit::UserError("x"); });
    setup2(false);
    setup2(true);
}
static unsigned pointsOf(unsigned cycles) { return 60 * cycles; }

SYM_CASE(crash, "an archiving process of up to 2 (thorough: 3) rounds of archiving and flushing into 2 databases with 2 indexes, with or without sub-tables, stopped before any of its calls that change the file system; then another process lists or retrieves, and archives more") {
    Session s(sym_bool("sub-table"));
    unsigned cycles = deep() ? 3 : 2;
    bool ret = sym_bool("retrieve");
    chosen = sym_range<unsigned>("point", 0, pointsOf(cycles));
    passed = 0;
    bool hit = false;
    std::function<void()> after = [&] {
        std::vector<std::string> v = s.look(ret);
        s.show(v);
        s.judge(v);
        {
            FDB w2(s.config());
            s.done = s.next = v;
            unsigned i = sym_choice("then", nFields);
            s.archive(w2, i, "later");
            s.flush(w2);
            s.judge(s.look(false));
        }
        s.judge(s.look(false));
        sym_reach("afterwards");
    };
    atPoint = [&] {
        hit = true;
        after();
        sym_end_path();
    };
    armed = true;
    s.run(cycles);
    armed = false;
    sym_reach("not stopped");
    after();
}
SYM_CASE(torn, "the same process stopped in the middle of a write: another process finds what was flushed, or reports an error, but never finds anything wrong") {
    Session s(sym_bool("sub-table"));
    bool ret = deep() && sym_bool("retrieve");
    chosen = sym_range<unsigned>("point", 0, pointsOf(2));
    passed = 0;
    tearing = true;
    atPoint = [&] {
        std::vector<std::string> v;
        if (throws([&] { v = s.look(ret); })) {
            sym_reach("reported");
            sym_end_path();
        }
        s.show(v);
        s.judge(v);
        sym_reach("found");
        sym_end_path();
    };
    armed = true;
    s.run(2);
    armed = false;
}
SYM_CASE(reader, "another process lists or retrieves while the process above is before any of its calls; and the process goes on") {
    Session s(sym_bool("sub-table"));
    bool ret = sym_bool("retrieve");
    unsigned cycles = deep() ? 3 : 2;
    chosen = sym_range<unsigned>("point", 0, pointsOf(cycles));
    passed = 0;
    atPoint = [&] {
        std::vector<std::string> v = s.look(ret);
        s.show(v);
        s.judge(v);
        sym_reach("looked");
    };
    armed = true;
    s.run(cycles);
    armed = false;
    std::vector<std::string> v = s.look(ret);
    s.show(v);
    s.judge(v);
}
SYM_CASE(writers, "another process archives and flushes while the process above is before any of its calls; nothing of either is lost") {
    Session s(sym_bool("sub-table"));
    Session o(s.sub);  // what the other one does
    o.dir = s.dir;
    o.base = s.base;
    chosen = sym_range<unsigned>("point", 0, pointsOf(2));
    passed = 0;
    bool did = false;
    unsigned i = sym_choice("other", nFields);
    if (!deep())
        sym_assume(i != 1);
    bool close = sym_bool("closed");
    FDB* other = nullptr;
    atPoint = [&] {
        other = new FDB(s.config());
        o.archive(*other, i, "other");
        o.flush(*other);
        if (close)
            delete other, other = nullptr;
        std::vector<std::string> v = s.look(false);
        sym_assert(v[i] == "other" || v[i] == s.next[i], "what the other process has flushed is not found");
        did = true;
    };
    armed = true;
    s.run(2);
    armed = false;
    if (other)
        delete other;
    std::vector<std::string> v = s.look(false);
    s.show(v);
    for (unsigned j = 0; j < nFields; ++j)
        sym_assert(v[j] == s.done[j] || (did && j == i && v[j] == "other"), "a field is lost");
    if (did && s.done[i] == "")
        sym_assert(v[i] == "other", "what the other process has flushed is lost");
    sym_reach(did ? "two" : "one");
}
