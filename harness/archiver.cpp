#include "local.h"
#include "eckit/config/ResourceMgr.h"
#include "fdb5/api/LocalFDB.h"
#include "fdb5/database/Archiver.h"
#include "fdb5/toc/TocStore.h"
using namespace fdb5;
// the clock of the archiver
static long now = 0;
static bool clockOn = false;
extern "C" time_t time(time_t* t) {
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    time_t r = clockOn ? 1700000000 + now : s.tv_sec;
    if (t)
        *t = r;
    return r;
}
// a store whose flush can fail
static int failIn = 0;  // the how-manieth flush fails
static int lost = 0;    // stores destroyed with fields that were not flushed
struct FailingStore : TocStore {
    int pending = 0;
    using TocStore::TocStore;
    ~FailingStore() override { lost += pending > 0; }
    size_t flush() override {
        if (failIn > 0 && --failIn == 0)
            throw eckit::WriteError("flush");
        pending = 0;
        return TocStore::flush();
    }
    std::unique_ptr<const FieldLocation> archive(const Key& k, const void* data, eckit::Length length) override {
        ++pending;
        return TocStore::archive(k, data, length);
    }
};
struct FailingBuilder : StoreBuilderBase {
    FailingBuilder() : StoreBuilderBase("failing", {"failing"}) {}
    std::unique_ptr<Store> make(const Key& key, const Config& config) override { return std::make_unique<FailingStore>(key, config); }
    std::unique_ptr<Store> make(const eckit::URI& uri, const Config& config) override { return std::unique_ptr<Store>(new FailingStore(uri, config)); }
    eckit::URI uri(const eckit::URI& u) override { return u; }
};
static const unsigned limit = 2;
void sym_setup() {
    harnessInit();
    eckit::ResourceMgr::instance().set("fdbMaxNbDBsOpen", "2");
    localSetup();
    static FailingBuilder b;
    throws([] { throw eckit::UserError("x"); });
}
static KV field(unsigned db, unsigned n) {
    return {{"cls", "od"}, {"ver", std::string(1, char('a' + db))}, {"typ", n % 2 ? "fc" : "an"}, {"lev", "sfc"}, {"par", std::to_string(n)}, {"stp", "0"}};
}
static std::string dataOf(unsigned n) {
    return std::string(1 + n % 3, char('A' + n));
}
static unsigned openFiles() {
    unsigned n = 0;
    for (auto& e : fs::directory_iterator("/proc/self/fd")) {
        (void)e;
        ++n;
    }
    return n;
}
struct History {
    std::string dir = scratch();
    Config config;
    struct Arch {
        unsigned db, n;
        bool safe;
    };
    std::vector<Arch> done;
    std::map<unsigned, long> open;  // database -> when last used
    unsigned used = 0;              // databases named so far
    History(const std::string& more = "") : config(localConfig(dir, plainSchema, more)) {}
    void safe(int db = -1) {
        for (auto& a : done)
            a.safe |= db < 0 || a.db == (unsigned)db;
    }
    // which databases can have been closed to make room for db
    void use(const std::map<Key, Database>& dbs, unsigned db) {
        std::map<unsigned, long> left;
        for (auto& x : dbs) {
            unsigned i = x.first.get("ver")[0] - 'a';
            sym_assert(i == db || open.count(i), "only databases that were used are open");
            left[i] = i == db ? now : open[i];
        }
        sym_assert(left.count(db), "the database used is open");
        sym_assert(left.size() <= limit, "no more databases are open than may be");
        for (auto& o : open)
            if (!left.count(o.first)) {
                safe(o.first);
                sym_assert(open.size() == limit && !open.count(db), "a database is closed only to make room");
                for (auto& l : left)
                    sym_assert(l.first == db || l.second >= o.second, "the one closed is the least recently used");
                sym_reach("closed");
            }
        open = left;
    }
    void check(const char* what) {
        FDB fdb(config);
        auto seen = listAll(fdb, FDBToolRequest({}, true), true, true);
        for (auto& a : done) {
            auto i = seen.find(textOf(field(a.db, a.n)));
            if (i == seen.end())
                sym_assert_(!a.safe, what);
            else
                sym_assert(i->second == dataOf(a.n), "a field has its data");
        }
        sym_assert(seen.size() <= done.size(), "nothing that was not archived");
    }
};
SYM_CASE(history, "at most 2 databases open at a time; 5 (thorough 6) operations on 3 (4) databases: archive a field (0 or 1 seconds after the one before), flush; then flush or destroy the archiver: what is closed and when, what is visible to a new reader, files left open, callbacks") {
    History h;
    std::map<std::string, std::shared_future<std::shared_ptr<const FieldLocation>>> told;
    unsigned before = openFiles();
    {
        unsigned calls = 0;
        ArchiveCallback cb = [&](const Key& key, const void* data, size_t length, std::future<std::shared_ptr<const FieldLocation>> f) {
            ++calls;
            auto& a = h.done.back();
            sym_assert(std::string((const char*)data, length) == dataOf(a.n), "callback with the data");
            for (auto& kv : field(a.db, a.n))
                sym_assert(key.get(kv.first) == kv.second, "callback with the key");
            sym_assert(told.emplace(textOf(field(a.db, a.n)), std::move(f)).second, "once per field");
        };
        Archiver archiver(h.config, cb);
        now = 0;
        clockOn = true;
        for (unsigned i = 0; i < (deep() ? 6 : 5); ++i) {
            unsigned op = sym_choice("op", std::min(h.used + 1, deep() ? 4u : 3u) + 1);
            if (op == 0) {
                archiver.flush();
                h.safe();
            }
            else {
                unsigned db = op - 1;
                h.used = std::max(h.used, db + 1);
                now += i ? sym_choice("later", 2) : 0;
                h.done.push_back({db, i, false});
                archiver.archive(mkKey(field(db, i)), dataOf(i).data(), dataOf(i).size());
                h.use(archiver.databases_, db);
            }
            sym_assert(openFiles() <= before + limit * 8, "files of databases that were closed are closed");
        }
        sym_assert(calls == h.done.size(), "callback for every field");
        h.check("what was flushed or closed is visible");
        if (sym_choice("flush", 2)) {
            archiver.flush();
            h.safe();
            h.check("everything is visible after a flush");
        }
        clockOn = false;
    }
    h.safe();
    h.check("everything is visible when the archiver is gone");
    sym_assert(openFiles() == before, "no files are left open");
    FDB fdb(h.config);
    auto seen = listAll(fdb, FDBToolRequest({}, true), true, false);
    for (auto& t : told) {
        auto loc = t.second.get();
        auto i = seen.find(t.first);
        sym_assert(i != seen.end() && loc->fullUri().asRawString() == i->second, "callbacks tell where the field is");
    }
}
SYM_CASE(failing, "the same with 4 (thorough 5) operations, of which one flush of a store fails (at a flush or when a database is to be closed), and of which one database may be locked: the operation fails, nothing archived is dropped, and a later flush makes it visible") {
    History h("store: failing\n");
    unsigned locked = sym_choice("locked", 3);
    if (locked == 2)
        locked = 9;  // none
    if (locked < 2) {
        FDB fdb(h.config);
        fdb.archive(mkKey(field(locked, 9)), "x", 1);
        fdb.flush();
        auto it = fdb.control(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", field(locked, 0)["ver"]}})), ControlAction::Disable, ControlIdentifier::Archive);
        ControlElement e;
        while (it.next(e))
            ;
    }
    lost = 0;
    {
        Archiver archiver(h.config, CALLBACK_ARCHIVE_NOOP);
        now = 0;
        clockOn = true;
        failIn = sym_choice("failing", 4);
        bool failed = false;
        for (unsigned i = 0; i < (deep() ? 5 : 4); ++i) {
            unsigned op = sym_choice("op", 4);
            int f = failIn;
            if (op == 0) {
                bool t = throws([&] { archiver.flush(); });
                sym_assert(t == (f && !failIn), "a flush fails iff a store's does");
                if (!t)
                    h.safe();
                failed |= t;
            }
            else {
                unsigned db = op - 1;
                now += 1;
                bool t = throws([&] { archiver.archive(mkKey(field(db, i)), dataOf(i).data(), dataOf(i).size()); });
                bool l = db == locked;
                sym_assert(t == (l || (f && !failIn)), "archiving fails iff the database is locked or the one to be closed cannot be flushed");
                if (!t)
                    h.done.push_back({db, i, false});
            }
            sym_assert(lost == 0, "no store is closed with fields that were not flushed");
        }
        failIn = 0;
        archiver.flush();
        h.safe();
        clockOn = false;
    }
    sym_assert(lost == 0, "no store is closed with fields that were not flushed");
    if (locked < 2)
        h.done.push_back({locked, 9, false});
    h.config = localConfig(h.dir);
    FDB fdb(h.config);
    auto seen = listAll(fdb, FDBToolRequest({}, true), true, true);
    if (locked < 2)
        h.done.pop_back();
    for (auto& a : h.done) {
        auto i = seen.find(textOf(field(a.db, a.n)));
        sym_assert(i != seen.end() && i->second == dataOf(a.n), "everything archived is there after a flush that succeeds");
    }
    sym_assert(seen.size() == h.done.size() + (locked < 2), "nothing else is");
}
