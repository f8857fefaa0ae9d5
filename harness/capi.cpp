// The C API: codes, messages and values against an FDB that records what it is asked and fails where it is told to.
#include <array>
#include <climits>
#include <functional>
#include "common.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/FDBFactory.h"
#include "fdb5/api/fdb_c.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/database/FieldLocation.h"
using namespace fdb5;
using metkit::mars::MarsRequest;

// ---- where and how calls fail
enum Kind { None, Eckit, Standard, Other };
static Kind kind = None;
static const char* failAt = "";
static std::string failText;
static void maybe(const char* where) {
    if (kind == None || strcmp(where, failAt) != 0)
        return;
    switch (kind) {
        case Eckit: throw eckit::UserError(failText);
        case Standard: throw std::runtime_error(failText);
        default: throw 42;
    }
}
// ---- a data handle over some bytes
struct TestHandle : eckit::DataHandle {
    explicit TestHandle(const std::string& d) : data(d) {}
    std::string data;
    size_t at = 0;
    void print(std::ostream& s) const override { s << "TestHandle"; }
    eckit::Length openForRead() override {
        maybe("open");
        at = 0;
        return data.size();
    }
    void openForWrite(const eckit::Length&) override {}
    void openForAppend(const eckit::Length&) override {}
    long read(void* p, long n) override {
        maybe("read");
        size_t k = std::min<size_t>(n, data.size() - at);
        memcpy(p, data.data() + at, k);
        at += k;
        return k;
    }
    long write(const void*, long) override { return 0; }
    void close() override { maybe("close"); }
    void flush() override {}
    eckit::Length size() override {
        maybe("size");
        return data.size();
    }
    eckit::Length estimate() override { return data.size(); }
    eckit::Offset position() override {
        maybe("tell");
        return at;
    }
    eckit::Offset seek(const eckit::Offset& o) override {
        maybe("seek");
        at = o;
        return o;
    }
    void skip(const eckit::Length& l) override {
        maybe("skip");
        at += l;
    }
    bool canSeek() const override { return true; }
};
struct TestLocation : FieldLocation {
    TestLocation(const std::string& path, long long off, long long len, const std::string& d) :
        FieldLocation(eckit::URI("file", path), off, len, Key()), data(d) {}
    std::string data;
    eckit::DataHandle* dataHandle() const override { return new TestHandle(data); }
    std::shared_ptr<const FieldLocation> make_shared() const override {
        return std::make_shared<TestLocation>(uri_.name(), offset_, length_, data);
    }
    void visit(FieldLocationVisitor&) const override {}
    const eckit::ReanimatorBase& reanimator() const override { NOTIMP; }
};
// ---- the FDB behind
template <class T>
struct Fixed : APIIteratorBase<T> {
    const char* name;
    std::vector<T> v;
    size_t at = 0;
    explicit Fixed(const char* n) : name(n) {}
    bool next(T& e) override {
        maybe(name);
        if (at == v.size())
            return false;
        e = v[at++];
        return true;
    }
};
static std::vector<ListElement> elements;
static std::vector<std::string> purged;
static std::vector<std::string> calls;
static const void* gotData;
static size_t gotLength;
static Key gotKey;
static int gotLevel;
static bool gotAll, gotDoit, gotPorcelain, gotUnsafe;
static MarsRequest gotRequest;
static bool gotSub;
struct Fake : FDBBase {
    Fake(const Config& c, const std::string& n) : FDBBase(c, n) { gotSub = c.userConfig().getBool("useSubToc", false); }
    void archive(const Key& k, const void* d, size_t n) override {
        calls.push_back("archive");
        maybe("archive");
        gotKey = k;
        gotData = d;
        gotLength = n;
    }
    void flush() override {
        calls.push_back("flush");
        maybe("flush");
    }
    ListIterator lst(const char* n) {
        auto f = new Fixed<ListElement>(n);
        f->v = elements;
        return ListIterator(APIIterator<ListElement>(f));
    }
    ListIterator inspect(const MarsRequest& r) override {
        calls.push_back("inspect");
        maybe("inspect");
        gotRequest = r;
        return lst("inspect next");
    }
    ListIterator list(const FDBToolRequest& rq, int l) override {
        calls.push_back("list");
        maybe("list");
        gotLevel = l;
        gotAll = rq.all();
        gotRequest = rq.request();
        return lst("list next");
    }
    DumpIterator dump(const FDBToolRequest&, bool) override { NOTIMP; }
    StatusIterator status(const FDBToolRequest&) override { NOTIMP; }
    WipeStateIterator wipe(const FDBToolRequest& rq, bool d, bool p, bool u) override {
        calls.push_back("wipe");
        maybe("wipe");
        gotDoit = d;
        gotPorcelain = p;
        gotUnsafe = u;
        gotAll = rq.all();
        gotRequest = rq.request();
        return WipeStateIterator(nullptr);
    }
    PurgeIterator purge(const FDBToolRequest& rq, bool d, bool p) override {
        calls.push_back("purge");
        maybe("purge");
        gotDoit = d;
        gotPorcelain = p;
        gotAll = rq.all();
        gotRequest = rq.request();
        auto f = new Fixed<std::string>("purge next");
        f->v = purged;
        return PurgeIterator(f);
    }
    StatsIterator stats(const FDBToolRequest&) override { NOTIMP; }
    ControlIterator control(const FDBToolRequest&, ControlAction, ControlIdentifiers) override { NOTIMP; }
    MoveIterator move(const FDBToolRequest&, const eckit::URI&) override { NOTIMP; }
    AxesIterator axesIterator(const FDBToolRequest&, int) override { NOTIMP; }
    void print(std::ostream& s) const override { s << "Fake"; }
};
static FDBBuilder<Fake> fakeBuilder("fake");

// ---- failure handler
static int handled, handledCode;
static void* handledContext;
static int theContext;
static void handler(void* context, int code) {
    ++handled;
    handledCode = code;
    handledContext = context;
}
// nothing may leave a function of the C API
static int call(const std::function<int()>& f) {
    try {
        return f();
    }
    catch (...) {
        sym_assert(false, "an exception leaves a function of the C API");
    }
    return -1;
}
static fdb_handle_t* newHandle(const char* user = "{}") {
    fdb_handle_t* h = nullptr;
    sym_assert(call([&] { return fdb_new_handle_from_yaml(&h, "type: fake", user); }) == FDB_SUCCESS && h, "no handle from a configuration");
    return h;
}
static Key mk(const std::vector<std::pair<std::string, std::string>>& v) {
    Key k;
    for (auto& i : v)
        k.set(i.first, i.second);
    return k;
}
static ListElement element(const std::string& step, const std::string& path, long long off, long long len, const std::string& data = "abcdef") {
    return ListElement(std::array<Key, 3>{mk({{"class", "od"}}), mk({{"type", "an"}}), mk({{"step", step}})},
                       std::make_shared<TestLocation>(path, off, len, data), 1);
}
static fdb_request_t* newRequest() {
    fdb_request_t* r = nullptr;
    sym_assert(call([&] { return fdb_new_request(&r); }) == FDB_SUCCESS && r, "no request");
    const char* v[] = {"0"};
    sym_assert(call([&] { return fdb_request_add(r, "step", v, 1); }) == FDB_SUCCESS, "a value cannot be added to a request");
    return r;
}
static fdb_key_t* newKey() {
    fdb_key_t* k = nullptr;
    sym_assert(call([&] { return fdb_new_key(&k); }) == FDB_SUCCESS && k, "no key");
    sym_assert(call([&] { return fdb_key_add(k, "class", "od"); }) == FDB_SUCCESS, "a value cannot be added to a key");
    return k;
}
void sym_setup() {
    harnessInit();
    unsetenv("FDB_DEDUPLICATE_FIELDS");
    unsetenv("FDB_SEEKABLE_DATA_HANDLE");
    throws([] { throw eckit::UserError("x"); });
    elements = {element("0", "/f", 0, 6)};
    fdb_handle_t* h = newHandle();
    fdb_request_t* r = newRequest();
    fdb_listiterator_t* it;
    fdb_list(h, r, &it, true, 3);
    fdb_listiterator_next(it);
    fdb_delete_listiterator(it);
    fdb_datareader_t* dr;
    fdb_new_datareader(&dr);
    fdb_retrieve(h, r, dr);
    long n;
    fdb_datareader_open(dr, &n);
    fdb_delete_datareader(dr);
    fdb_wipe_iterator_t* w;
    fdb_wipe(h, r, false, false, false, &w);
    fdb_delete_wipe_iterator(w);
    fdb_delete_request(r);
    fdb_delete_handle(h);
}

// ---- failures
SYM_CASE(errors, "each call that reaches the FDB or a data handle, which throws any of three kinds of exceptions with one of seven messages (empty, long, of several lines, with formats), with or without a failure handler") {
    static const char* const where[] = {"archive", "flush", "list", "list next", "inspect", "inspect next", "wipe", "purge", "purge next",
                                        "open", "read", "seek", "tell", "close", "size", "delete"};
    unsigned op = sym_choice("call", sizeof where / sizeof *where);
    Kind k = (Kind)(1 + sym_choice("kind", 3));
    static std::string text;
    static const std::string texts[] = {"", "a", "Two words", "%s%n%d", std::string(5000, 'x'), "line\nline", "\xff\x01"};
    text = texts[sym_choice("message", sizeof texts / sizeof *texts)];
    elements = {element("0", "/f", 0, 6)};
    purged = {"one"};
    fdb_handle_t* h = newHandle();
    fdb_request_t* r = newRequest();
    fdb_key_t* key = newKey();
    fdb_listiterator_t* li = nullptr;
    fdb_purge_iterator_t* pi = nullptr;
    fdb_purge_element_t* pe = nullptr;
    fdb_wipe_iterator_t* wi = nullptr;
    fdb_wipe_element_t* we = nullptr;
    fdb_datareader_t* dr = nullptr;
    sym_assert(call([&] { return fdb_new_datareader(&dr); }) == FDB_SUCCESS, "no data reader");
    long n = 0;
    static char buffer[16];
    // all that comes before works
    if (op == 1 || op == 15)
        sym_assert(call([&] { return fdb_archive(h, key, "abc", 3); }) == FDB_SUCCESS, "archive fails");
    if (op == 3)
        sym_assert(call([&] { return fdb_list(h, r, &li, true, 3); }) == FDB_SUCCESS, "list fails");
    if (op == 8)
        sym_assert(call([&] { return fdb_purge(h, r, false, false, &pi); }) == FDB_SUCCESS, "purge fails");
    if (op >= 9 && op <= 14)
        sym_assert(call([&] { return fdb_retrieve(h, r, dr); }) == FDB_SUCCESS, "retrieve fails");
    if (op >= 10 && op <= 13)
        sym_assert(call([&] { return fdb_datareader_open(dr, &n); }) == FDB_SUCCESS && n == 6, "open fails");
    if (op == 13)  // a handle in the middle of which one is
        sym_assert(call([&] { return fdb_datareader_read(dr, buffer, 3, &n); }) == FDB_SUCCESS && n == 3, "read fails");
    bool withHandler = sym_bool("handler");
    call([&] { return fdb_set_failure_handler(withHandler ? handler : nullptr, &theContext); });
    auto attempt = [&]() -> int {
        switch (op) {
            case 0: return fdb_archive(h, key, "abc", 3);
            case 1: return fdb_flush(h);
            case 2: return fdb_list(h, r, &li, true, 3);
            case 3: return fdb_listiterator_next(li);
            case 4:
            case 5: return fdb_retrieve(h, r, dr);
            case 6: {
                // what happens in the thread of the wipe is reported with its first element
                int rc = fdb_wipe(h, r, false, false, false, &wi);
                return rc != FDB_SUCCESS ? rc : fdb_wipe_iterator_next(wi, &we);
            }
            case 7: return fdb_purge(h, r, false, false, &pi);
            case 8: return fdb_purge_iterator_next(pi, &pe);
            case 9: return fdb_datareader_open(dr, &n);
            case 10: return fdb_datareader_read(dr, buffer, 3, &n);
            case 11: return fdb_datareader_seek(dr, 0);
            case 12: return fdb_datareader_tell(dr, &n);
            case 13: return fdb_datareader_close(dr);
            case 14: return fdb_datareader_size(dr, &n);
            default: return fdb_delete_handle(h);
        }
    };
    kind = k;
    failText = text;
    failAt = op == 15 ? "flush" : where[op];
    handled = 0;
    int rc = call(attempt);
    kind = None;
    if (op == 11 || op == 12 || op == 13)  // whether the handle of several fields asks the one it reads is its own affair
        if (rc == FDB_SUCCESS) {
            sym_reach("not asked");
            sym_end_path();
        }
    sym_assert(rc == (k == Other ? FDB_ERROR_UNKNOWN_EXCEPTION : FDB_ERROR_GENERAL_EXCEPTION), "a failure is not reported with its code");
    sym_assert(handled == (withHandler ? 1 : 0), "the failure handler is not called once");
    if (withHandler)
        sym_assert(handledCode == rc && handledContext == &theContext, "the failure handler is called with something else");
    std::string got = fdb_error_string(rc);
    if (k == Other)
        sym_assert(!got.empty(), "there is no message");
    else
        sym_assert(got.size() >= text.size() && got.compare(got.size() - text.size(), text.size(), text) == 0, "the message is not that of the failure");
    // and again, now that it works
    handled = 0;
    if ((op < 9 && op != 3 && op != 8) || op == 15) {
        int rc2 = call(attempt);
        sym_assert(rc2 == (op == 6 ? FDB_ITERATION_COMPLETE : FDB_SUCCESS), "after a failure the same call does not work");
        sym_assert(handled == 0, "the failure handler is called without failure");
    }
    sym_reach(where[op]);
    sym_end_path();
}
// ---- null arguments
SYM_CASE(nulls, "each function with any combination of null arguments") {
    elements = {element("0", "/f", 0, 6)};
    purged = {"one"};
    fdb_handle_t* h = newHandle();
    fdb_request_t* r = newRequest();
    fdb_key_t* key = newKey();
    fdb_listiterator_t* li = nullptr;
    fdb_purge_iterator_t* pi = nullptr;
    fdb_purge_element_t* pe = nullptr;
    fdb_wipe_iterator_t* wi = nullptr;
    fdb_wipe_element_t* we = nullptr;
    fdb_datareader_t* dr = nullptr;
    fdb_split_key_t* sk = nullptr;
    fdb_handle_t* h2 = nullptr;
    fdb_request_t* r2 = nullptr;
    fdb_key_t* key2 = nullptr;
    static char buffer[16];
    long n = 0;
    size_t sz = 0, off = 0, len = 0;
    const char *s = nullptr, *s2 = nullptr;
    char** vals = nullptr;
    const char* in[] = {"1", "2"};
    fdb_list(h, r, &li, true, 3);
    fdb_listiterator_next(li);
    fdb_purge(h, r, false, false, &pi);
    fdb_purge_iterator_next(pi, &pe);
    fdb_wipe(h, r, false, false, false, &wi);
    fdb_wipe_iterator_next(wi, &we);
    fdb_new_datareader(&dr);
    fdb_retrieve(h, r, dr);
    fdb_datareader_open(dr, &n);
    fdb_new_splitkey(&sk);
    fdb_listiterator_splitkey(li, sk);
    // name, number of pointers that may be null, number of the pointers that must not be (as bits), the call, code with none null
    struct Fn {
        const char* name;
        unsigned pointers, must;
        std::function<int(unsigned)> f;
        int ok;
    };
#define P(i, p) ((nul >> i & 1) ? nullptr : (p))
    const std::vector<Fn> fns = {
        {"version", 1, 1, [&](unsigned nul) { return fdb_version(P(0, &s)); }, 0},
        {"vcs", 1, 1, [&](unsigned nul) { return fdb_vcs_version(P(0, &s)); }, 0},
        {"from yaml", 3, 7, [&](unsigned nul) { return fdb_new_handle_from_yaml(P(0, &h2), P(1, "type: fake"), P(2, "{}")); }, 0},
        {"archive", 3, 7, [&](unsigned nul) { return fdb_archive(P(0, h), P(1, key), P(2, "abc"), 3); }, 0},
        {"archive multiple", 2, 3, [&](unsigned nul) { return nul ? fdb_archive_multiple(P(0, h), nullptr, P(1, "abc"), 0) : 0; }, 0},
        {"list", 3, 5, [&](unsigned nul) { return fdb_list(P(0, h), P(1, r), P(2, &li), true, 3); }, 0},
        {"retrieve", 3, 7, [&](unsigned nul) { return fdb_retrieve(P(0, h), P(1, r), P(2, dr)); }, 0},
        {"flush", 1, 1, [&](unsigned nul) { return fdb_flush(P(0, h)); }, 0},
        {"wipe", 3, 7, [&](unsigned nul) { return fdb_wipe(P(0, h), P(1, r), false, false, false, P(2, &wi)); }, 0},
        {"wipe next", 2, 3, [&](unsigned nul) { return fdb_wipe_iterator_next(P(0, wi), P(1, &we)); }, FDB_ITERATION_COMPLETE},
        {"wipe string", 2, 3, [&](unsigned nul) { return fdb_wipe_element_string(P(0, we), P(1, &s)); }, 0},
        {"wipe delete", 1, 1, [&](unsigned nul) { return fdb_delete_wipe_element(P(0, we)); }, 0},
        {"wipe delete iterator", 1, 0, [&](unsigned nul) { return fdb_delete_wipe_iterator(P(0, wi)); }, 0},
        {"purge", 3, 7, [&](unsigned nul) { return fdb_purge(P(0, h), P(1, r), false, false, P(2, &pi)); }, 0},
        {"purge next", 2, 3, [&](unsigned nul) { return fdb_purge_iterator_next(P(0, pi), P(1, &pe)); }, FDB_ITERATION_COMPLETE},
        {"purge string", 2, 3, [&](unsigned nul) { return fdb_purge_element_string(P(0, pe), P(1, &s)); }, 0},
        {"purge delete", 1, 1, [&](unsigned nul) { return fdb_delete_purge_element(P(0, pe)); }, 0},
        {"purge delete iterator", 1, 0, [&](unsigned nul) { return fdb_delete_purge_iterator(P(0, pi)); }, 0},
        {"delete handle", 1, 1, [&](unsigned nul) { return fdb_delete_handle(P(0, h)); }, 0},
        {"new key", 1, 1, [&](unsigned nul) { return fdb_new_key(P(0, &key2)); }, 0},
        {"key add", 3, 7, [&](unsigned nul) { return fdb_key_add(P(0, key), P(1, "type"), P(2, "an")); }, 0},
        {"delete key", 1, 1, [&](unsigned nul) { return fdb_delete_key(P(0, key)); }, 0},
        {"new request", 1, 1, [&](unsigned nul) { return fdb_new_request(P(0, &r2)); }, 0},
        {"request add", 4, 15, [&](unsigned nul) {
             in[1] = P(3, "2");
             return fdb_request_add(P(0, r), P(1, "step"), P(2, in), 2);
         }, 0},
        {"request get", 4, 15, [&](unsigned nul) { return fdb_request_get(P(0, r), P(1, "step"), P(2, &vals), P(3, &sz)); }, 0},
        {"expand request", 1, 1, [&](unsigned nul) { return nul ? fdb_expand_request(nullptr) : 0; }, 0},
        {"delete request", 1, 1, [&](unsigned nul) { return fdb_delete_request(P(0, r)); }, 0},
        {"list next", 1, 1, [&](unsigned nul) { return fdb_listiterator_next(P(0, li)); }, FDB_ITERATION_COMPLETE},
        {"list attrs", 4, 15, [&](unsigned nul) { return fdb_listiterator_attrs(P(0, li), P(1, &s), P(2, &off), P(3, &len)); }, 0},
        {"list split", 2, 3, [&](unsigned nul) { return fdb_listiterator_splitkey(P(0, li), P(1, sk)); }, 0},
        {"list delete", 1, 1, [&](unsigned nul) { return fdb_delete_listiterator(P(0, li)); }, 0},
        {"new split", 1, 1, [&](unsigned nul) { return fdb_new_splitkey(P(0, &sk)); }, 0},
        {"split next", 4, 7, [&](unsigned nul) { return fdb_splitkey_next_metadata(P(0, sk), P(1, &s), P(2, &s2), P(3, &sz)); }, 0},
        {"split delete", 1, 1, [&](unsigned nul) { return fdb_delete_splitkey(P(0, sk)); }, 0},
        {"new reader", 1, 1, [&](unsigned nul) { return fdb_new_datareader(P(0, &dr)); }, 0},
        {"open", 2, 1, [&](unsigned nul) { return fdb_datareader_open(P(0, dr), P(1, &n)); }, 0},
        {"close", 1, 1, [&](unsigned nul) { return fdb_datareader_close(P(0, dr)); }, 0},
        {"tell", 2, 3, [&](unsigned nul) { return fdb_datareader_tell(P(0, dr), P(1, &n)); }, 0},
        {"seek", 1, 1, [&](unsigned nul) { return fdb_datareader_seek(P(0, dr), 0); }, 0},
        {"skip", 1, 1, [&](unsigned nul) { return fdb_datareader_skip(P(0, dr), 1); }, 0},
        {"read", 3, 7, [&](unsigned nul) { return fdb_datareader_read(P(0, dr), P(1, buffer), 3, P(2, &n)); }, 0},
        {"size", 2, 3, [&](unsigned nul) { return fdb_datareader_size(P(0, dr), P(1, &n)); }, 0},
        {"reader delete", 1, 1, [&](unsigned nul) { return fdb_delete_datareader(P(0, dr)); }, 0},
    };
    const Fn& f = fns[sym_choice("function", fns.size())];
    unsigned nul = sym_choice("null", 16);
    sym_assume(nul < (1u << f.pointers));
    call([&] { return fdb_set_failure_handler(handler, &theContext); });
    handled = 0;
    size_t before = calls.size();
    int rc = call([&] { return f.f(nul); });
    if (nul & f.must) {
        sym_assert(rc == FDB_ERROR_GENERAL_EXCEPTION, "a null argument is not reported as an error");
        sym_assert(handled == 1 && handledCode == rc, "the failure handler is not called once");
        sym_assert(*fdb_error_string(rc), "there is no message");
        sym_assert(calls.size() == before, "something is done in spite of a null argument");
        sym_reach("refused");
    }
    else {
        sym_assert(rc == f.ok, "a call with all that it needs fails");
        sym_assert(handled == 0, "the failure handler is called without failure");
        sym_reach("done");
    }
    sym_end_path();
}
// ---- calls in an order that makes no sense
SYM_CASE(order, "elements asked for before the first or after the last, keys before there are any, a reader before anything is retrieved") {
    elements = {element("0", "/f", 0, 6)};
    fdb_handle_t* h = newHandle();
    fdb_request_t* r = newRequest();
    fdb_listiterator_t* li = nullptr;
    fdb_split_key_t* sk = nullptr;
    fdb_datareader_t* dr = nullptr;
    sym_assert(call([&] { return fdb_list(h, r, &li, true, 3); }) == FDB_SUCCESS, "list fails");
    sym_assert(call([&] { return fdb_new_splitkey(&sk); }) == FDB_SUCCESS, "no split key");
    sym_assert(call([&] { return fdb_new_datareader(&dr); }) == FDB_SUCCESS, "no data reader");
    int at = -1;  // before the first
    bool haveKeys = false;
    const char *s = nullptr, *s2 = nullptr;
    size_t off, len, level;
    long n;
    static char b[8];
    for (unsigned i = 0; i < (deep() ? 6u : 4u); ++i)
        switch (sym_choice("call", 5)) {
            case 0:
                at = std::min(at + 1, 1);
                sym_assert(call([&] { return fdb_listiterator_next(li); }) == (at == 0 ? FDB_SUCCESS : FDB_ITERATION_COMPLETE), "next does not say whether there is an element");
                break;
            case 1:
                sym_assert(call([&] { return fdb_listiterator_attrs(li, &s, &off, &len); }) == (at == 0 ? FDB_SUCCESS : FDB_ERROR_GENERAL_EXCEPTION), "attributes of no element");
                break;
            case 2:
                sym_assert(call([&] { return fdb_listiterator_splitkey(li, sk); }) == (at == 0 ? FDB_SUCCESS : FDB_ERROR_GENERAL_EXCEPTION), "keys of no element");
                haveKeys = haveKeys || at == 0;
                break;
            case 3:
                if (!haveKeys)
                    sym_assert(call([&] { return fdb_splitkey_next_metadata(sk, &s, &s2, &level); }) == FDB_ERROR_GENERAL_EXCEPTION, "metadata of no element");
                break;
            default:
                sym_assert(call([&] { return fdb_datareader_open(dr, &n); }) == FDB_ERROR_GENERAL_EXCEPTION, "nothing is opened");
                sym_assert(call([&] { return fdb_datareader_read(dr, b, 1, &n); }) == FDB_ERROR_GENERAL_EXCEPTION, "nothing is read");
                sym_assert(call([&] { return fdb_datareader_close(dr); }) == FDB_ERROR_GENERAL_EXCEPTION, "nothing is closed");
                sym_assert(call([&] { return fdb_datareader_size(dr, &n); }) == FDB_ERROR_GENERAL_EXCEPTION, "nothing has a size");
                sym_assert(call([&] { return fdb_datareader_tell(dr, &n); }) == FDB_ERROR_GENERAL_EXCEPTION, "nothing has a position");
                sym_assert(call([&] { return fdb_datareader_seek(dr, 0); }) == FDB_ERROR_GENERAL_EXCEPTION, "nothing is positioned");
                sym_assert(call([&] { return fdb_datareader_skip(dr, 0); }) == FDB_ERROR_GENERAL_EXCEPTION, "nothing is skipped");
                break;
        }
    sym_assert(call([&] { return fdb_delete_datareader(dr); }) == FDB_SUCCESS, "a reader that was not used cannot be deleted");
    sym_assert(call([&] { return fdb_delete_splitkey(sk); }) == FDB_SUCCESS, "a split key cannot be deleted");
    sym_assert(call([&] { return fdb_delete_listiterator(li); }) == FDB_SUCCESS, "an iterator cannot be deleted");
    sym_reach("end");
    sym_end_path();
}
// ---- values
SYM_CASE(list, "depths of 0 to 4 and extreme ones, up to 2 (thorough: 3) elements of which any have the same name, any offset and length, with or without a request and duplicates") {
    unsigned n = sym_choice("elements", deep() ? 4 : 3);
    elements.clear();
    std::vector<std::string> steps, paths;
    std::vector<long long> offs, lens;
    for (unsigned i = 0; i < n; ++i) {
        steps.push_back(sym_choice("step", 2) ? "1" : "0");
        paths.push_back("/file" + std::to_string(i));
        offs.push_back(sym_any<long long>("offset"));
        lens.push_back(sym_any<long long>("length"));
        elements.push_back(element(steps[i], paths[i], offs[i], lens[i]));
    }
    static const int depths[] = {1, 2, 3, 4, 0, -1, INT_MIN, INT_MAX};
    int depth = depths[sym_choice("depth", 8)];
    bool duplicates = sym_bool("duplicates"), with = sym_choice("request", 2);
    fdb_handle_t* h = newHandle();
    fdb_request_t* r = with ? newRequest() : nullptr;
    fdb_listiterator_t* li = nullptr;
    sym_assert(call([&] { return fdb_list(h, r, &li, duplicates, depth); }) == FDB_SUCCESS && li, "list fails");
    sym_assert(gotLevel == (depth >= 1 && depth <= 3 ? depth : 3), "another depth is listed");
    sym_assert(gotAll == !with, "with and without request are mixed up");
    if (with)
        sym_assert(gotRequest.values("step").size() == 1 && gotRequest.values("step")[0] == "0", "another request is listed");
    for (unsigned i = 0; i < n; ++i) {
        bool seen = false;
        for (unsigned j = 0; j < i; ++j)
            seen = seen || steps[j] == steps[i];
        if (seen && !duplicates)
            continue;
        sym_assert(call([&] { return fdb_listiterator_next(li); }) == FDB_SUCCESS, "an element is missing");
        const char* uri = nullptr;
        size_t off = 1, len = 1;
        int rc = call([&] { return fdb_listiterator_attrs(li, &uri, &off, &len); });
        if (offs[i] < 0 || lens[i] < 0) {
            sym_assert(rc == FDB_ERROR_GENERAL_EXCEPTION, "a negative offset or length is reported as something else");
            sym_reach("negative");
        }
        else {
            sym_assert(rc == FDB_SUCCESS && uri == paths[i] && off == (size_t)offs[i] && len == (size_t)lens[i], "the attributes are those of something else");
            sym_reach("attrs");
        }
    }
    sym_assert(call([&] { return fdb_listiterator_next(li); }) == FDB_ITERATION_COMPLETE, "there is an element too many");
    sym_assert(call([&] { return fdb_listiterator_next(li); }) == FDB_ITERATION_COMPLETE, "the end is not the end");
    sym_end_path();
}
SYM_CASE(splitkey, "the keys of an element of 1 to 3 levels of 1 or 2 keywords with values of any character, read to the end or started again anywhere, on any element") {
    elements.clear();
    std::vector<std::vector<std::pair<std::string, std::string>>> want[2];
    unsigned depth = 1 + sym_choice("depth", 3);
    unsigned ne = deep() ? 2 : 1;
    static const char* const names[3][2] = {{"class", "expver"}, {"levtype", "type"}, {"param", "step"}};
    for (unsigned e = 0; e < ne; ++e) {
        std::array<Key, 3> keys;
        want[e].resize(depth);
        for (unsigned l = 0; l < depth; ++l) {
            unsigned n = 1 + sym_choice("keywords", 2);
            for (unsigned i = 0; i < n; ++i) {
                std::string v = sym_string("value", 1, [](unsigned char c) { return unsigned(c - 'a') < 26u; });
                v += char('0' + e);
                keys[l].set(names[l][i], v);
                want[e][l].push_back({names[l][i], v});
            }
        }
        elements.push_back(ListElement(keys, nullptr, 1));
    }
    fdb_handle_t* h = newHandle();
    fdb_listiterator_t* li = nullptr;
    fdb_split_key_t* sk = nullptr;
    sym_assert(call([&] { return fdb_list(h, nullptr, &li, true, depth); }) == FDB_SUCCESS, "list fails");
    sym_assert(call([&] { return fdb_new_splitkey(&sk); }) == FDB_SUCCESS, "no split key");
    const char *k, *v;
    size_t level;
    for (unsigned e = 0; e < ne; ++e) {
        sym_assert(call([&] { return fdb_listiterator_next(li); }) == FDB_SUCCESS, "an element is missing");
        sym_assert(call([&] { return fdb_listiterator_splitkey(li, sk); }) == FDB_SUCCESS, "the keys cannot be had");
        unsigned first = sym_choice("steps before starting again", 4);
        for (unsigned i = 0; i < first; ++i)
            call([&] { return fdb_splitkey_next_metadata(sk, &k, &v, &level); });
        if (first)
            sym_assert(call([&] { return fdb_listiterator_splitkey(li, sk); }) == FDB_SUCCESS, "the keys cannot be had again");
        for (unsigned l = 0; l < depth; ++l)
            for (auto& kv : want[e][l]) {
                level = 99;
                bool wantLevel = l + 1 < depth || e;
                sym_assert(call([&] { return fdb_splitkey_next_metadata(sk, &k, &v, wantLevel ? &level : nullptr); }) == FDB_SUCCESS, "metadata is missing");
                sym_assert(kv.first == k && kv.second == v, "the metadata is that of something else");
                sym_assert(!wantLevel || level == l, "the level is another one");
            }
        for (int i = 0; i < 3; ++i)
            sym_assert(call([&] { return fdb_splitkey_next_metadata(sk, &k, &v, &level); }) == FDB_ITERATION_COMPLETE, "the end of the metadata is not the end");
    }
    sym_reach("end");
    sym_end_path();
}
SYM_CASE(archive, "any value and length of what is archived, and any user configuration of the handle") {
    bool sub = sym_choice("sub", 2);
    fdb_handle_t* h = newHandle(sub ? "useSubToc: true" : "{}");
    sym_assert(gotSub == sub, "the user configuration is another one");
    fdb_key_t* key = newKey();
    static std::string v;
    v = symStr("value", 1, 3, [](unsigned char c) { return (unsigned(c - 'a') < 26u) | (unsigned(c - '0') < 10u); });
    sym_assert(call([&] { return fdb_key_add(key, "type", v.c_str()); }) == FDB_SUCCESS, "a value cannot be added to a key");
    size_t n = sym_any<size_t>("length");
    const char* data = "abc";
    calls.clear();
    sym_assert(call([&] { return fdb_archive(h, key, data, n); }) == FDB_SUCCESS, "archive fails");
    sym_assert(calls.size() == 1 && gotData == data && gotLength == n, "other data is archived");
    Key k = gotKey;
    sym_assert(k.size() == 2 && k.get("class") == "od" && k.get("type") == v, "another key is archived");
    sym_assert(call([&] { return fdb_flush(h); }) == FDB_SUCCESS, "flush fails");
    sym_assert(calls.size() == 2 && calls[1] == "flush", "nothing is flushed");
    sym_assert(call([&] { return fdb_delete_handle(h); }) == FDB_SUCCESS, "a handle cannot be deleted");
    sym_assert(calls.size() == 2, "something else is archived or flushed");
    sym_reach("end");
    sym_end_path();
}
SYM_CASE(flags, "any flags of wipe and purge, up to 2 elements purged") {
    fdb_handle_t* h = newHandle();
    fdb_request_t* r = newRequest();
    bool a = sym_bool("doit"), b = sym_bool("porcelain"), c = sym_bool("unsafe");
    bool wipe = sym_choice("wipe", 2);
    calls.clear();
    if (wipe) {
        fdb_wipe_iterator_t* w = nullptr;
        fdb_wipe_element_t* e = nullptr;
        sym_assert(call([&] { return fdb_wipe(h, r, a, b, c, &w); }) == FDB_SUCCESS, "wipe fails");
        sym_assert(call([&] { return fdb_wipe_iterator_next(w, &e); }) == FDB_ITERATION_COMPLETE, "something is wiped");
        sym_assert(call([&] { return fdb_delete_wipe_iterator(w); }) == FDB_SUCCESS, "an iterator cannot be deleted");
        sym_assert(calls == std::vector<std::string>{"wipe"}, "it is not wiped once");
        sym_assert(gotDoit == a && gotPorcelain == b && gotUnsafe == c, "it is wiped with other flags");
    }
    else {
        unsigned n = sym_choice("elements", 3);
        purged.clear();
        for (unsigned i = 0; i < n; ++i)
            purged.push_back(symStr("text", 0, 2, anyChar));
        fdb_purge_iterator_t* p = nullptr;
        fdb_purge_element_t* e = nullptr;
        sym_assert(call([&] { return fdb_purge(h, r, a, b, &p); }) == FDB_SUCCESS, "purge fails");
        for (unsigned i = 0; i < n; ++i) {
            sym_assert(call([&] { return fdb_purge_iterator_next(p, &e); }) == FDB_SUCCESS, "an element is missing");
            const char* s = nullptr;
            sym_assert(call([&] { return fdb_purge_element_string(e, &s); }) == FDB_SUCCESS && s == purged[i], "the text of an element is another one");
            sym_assert(call([&] { return fdb_delete_purge_element(e); }) == FDB_SUCCESS, "an element cannot be deleted");
        }
        sym_assert(call([&] { return fdb_purge_iterator_next(p, &e); }) == FDB_ITERATION_COMPLETE, "there is an element too many");
        sym_assert(calls == std::vector<std::string>{"purge"}, "it is not purged once");
        sym_assert(gotDoit == a && gotPorcelain == b, "it is purged with other flags");
    }
    sym_assert(!gotAll && gotRequest.values("step").size() == 1 && gotRequest.values("step")[0] == "0", "the request is another one");
    sym_reach(wipe ? "wipe" : "purge");
    sym_end_path();
}
SYM_CASE(requests, "up to 2 texts of up to 3 letters and slashes as the values of a keyword") {
    fdb_request_t* r = newRequest();
    unsigned n = sym_choice("texts", 3);
    std::vector<std::string> texts, want;
    std::vector<const char*> p;
    for (unsigned i = 0; i < n; ++i) {
        std::string t;
        unsigned len = 1 + sym_choice("length", 3);
        for (unsigned k = 0; k < len; ++k)
            t += sym_choice("slash", 2) ? '/' : char('a' + i * 3 + k);
        texts.push_back(t);
    }
    for (auto& t : texts) {
        p.push_back(t.c_str());
        std::string one;
        for (char c : t + "/")
            if (c != '/')
                one += c;
            else if (!one.empty()) {
                want.push_back(one);
                one.clear();
            }
    }
    p.push_back(nullptr);
    sym_assert(call([&] { return fdb_request_add(r, "type", p.data(), n); }) == FDB_SUCCESS, "values cannot be added");
    char** got = nullptr;
    size_t ng = 99;
    sym_assert(call([&] { return fdb_request_get(r, "type", &got, &ng); }) == FDB_SUCCESS, "the values cannot be had");
    sym_assert(ng == want.size(), "there are more or fewer values");
    for (size_t i = 0; i < ng; ++i)
        sym_assert(want[i] == got[i], "a value is another one");
    sym_assert(call([&] { return fdb_request_get(r, "step", &got, &ng); }) == FDB_SUCCESS && ng == 1 && std::string(got[0]) == "0", "the values of another keyword changed");
    sym_reach("end");
    sym_end_path();
}
SYM_CASE(reader, "2 fields read through 2 (thorough: 3) calls of seek, skip, tell, read and size with any position and count in them, compared with the C++ API") {
    elements = {element("0", "/f", 0, 5, "abcde"), element("1", "/g", 0, 4, "fghi")};
    fdb_handle_t* h = newHandle();
    fdb_request_t* r = newRequest();
    fdb_datareader_t* dr = nullptr;
    sym_assert(call([&] { return fdb_new_datareader(&dr); }) == FDB_SUCCESS, "no data reader");
    sym_assert(call([&] { return fdb_retrieve(h, r, dr); }) == FDB_SUCCESS, "retrieve fails");
    sym_assert(gotRequest.values("step").size() == 1 && gotRequest.values("step")[0] == "0", "another request is retrieved");
    FDB cpp{Config(eckit::YAMLConfiguration(std::string("type: fake")))};
    std::unique_ptr<eckit::DataHandle> m(cpp.retrieve(gotRequest));
    long n = 0;
    sym_assert(call([&] { return fdb_datareader_open(dr, &n); }) == FDB_SUCCESS && n == (long)m->openForRead(), "it is opened with another size");
    for (unsigned i = 0; i < (deep() ? 3u : 2u); ++i) {
        unsigned op = sym_choice("call", 5);
        long x = op == 0 || op == 1 || op == 3 ? (long)sym_choice("position", 10) : 0;
        static char b1[16], b2[16];
        memset(b1, 'x', sizeof b1);
        memset(b2, 'x', sizeof b2);
        long g = -7, w = -7;
        int rc = FDB_SUCCESS;
        bool t = false;
        switch (op) {
            case 0:
                rc = call([&] { return fdb_datareader_seek(dr, x); });
                t = throws([&] { m->seek(x); });
                break;
            case 1:
                rc = call([&] { return fdb_datareader_skip(dr, x); });
                t = throws([&] { m->skip(x); });
                break;
            case 2:
                rc = call([&] { return fdb_datareader_tell(dr, &g); });
                t = throws([&] { w = m->position(); });
                break;
            case 3:
                rc = call([&] { return fdb_datareader_read(dr, b1, x, &g); });
                t = throws([&] { w = m->read(b2, x); });
                break;
            default:
                rc = call([&] { return fdb_datareader_size(dr, &g); });
                t = throws([&] { w = m->size(); });
        }
        sym_assert(rc == (t ? FDB_ERROR_GENERAL_EXCEPTION : FDB_SUCCESS), "the call succeeds in only one of the two");
        sym_assert(g == w && memcmp(b1, b2, sizeof b1) == 0, "the call gives something else");
    }
    sym_assert(call([&] { return fdb_datareader_close(dr); }) == FDB_SUCCESS, "it cannot be closed");
    // the same reader for another retrieval
    elements = {element("0", "/f", 0, 3, "xyz")};
    sym_assert(call([&] { return fdb_retrieve(h, r, dr); }) == FDB_SUCCESS, "retrieve fails");
    sym_assert(call([&] { return fdb_datareader_open(dr, &n); }) == FDB_SUCCESS && n == 3, "it is opened with another size");
    static char b[8];
    sym_assert(call([&] { return fdb_datareader_read(dr, b, 8, &n); }) == FDB_SUCCESS && n == 3 && memcmp(b, "xyz", 3) == 0, "something else is read");
    sym_assert(call([&] { return fdb_delete_datareader(dr); }) == FDB_SUCCESS, "it cannot be deleted");
    sym_reach("end");
    sym_end_path();
}
SYM_CASE(configs, "handles from texts that are no configuration or of no known kind") {
    static const struct {
        const char *system, *user;
        int code;
    } texts[] = {{"type: fake", "{}", 0}, {"type: fake", "useSubToc: true", 0}, {"type: nosuch", "{}", 1}, {"type: [", "{}", 1}, {"type: fake", "a: [", 1}, {"{type: fake", "{}", 1}, {"type: select\nfdbs:\n- type: fake", "{}", 1}};
    auto& t = texts[sym_choice("text", sizeof texts / sizeof *texts)];
    fdb_handle_t* h = nullptr;
    int rc = call([&] { return fdb_new_handle_from_yaml(&h, t.system, t.user); });
    sym_assert(rc == t.code, "whether there is such a configuration is not reported");
    sym_assert((h != nullptr) == (rc == FDB_SUCCESS), "there is a handle in spite of a failure");
    sym_reach(rc ? "refused" : "made");
    sym_end_path();
}
