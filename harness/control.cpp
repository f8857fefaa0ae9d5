#include "local.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/StatusIterator.h"
#include <sstream>
using namespace fdb5;
void sym_setup() { localSetup(); }
static const ControlIdentifier ids[5] = {ControlIdentifier::List, ControlIdentifier::Retrieve, ControlIdentifier::Archive, ControlIdentifier::Wipe, ControlIdentifier::UniqueRoot};
static ControlIdentifiers setOf(unsigned m) {
    ControlIdentifiers r;
    for (unsigned i = 0; i < 5; ++i)
        if (m >> i & 1)
            r |= ids[i];
    return r;
}
SYM_CASE(identifiers, "every set of the 5 identifiers") {
    uint16_t m = sym_range<uint16_t>("set", 0, 31);
    ControlIdentifiers s;
    for (unsigned i = 0; i < 5; ++i)
        if (m >> i & 1)
            s |= ids[i];
    for (unsigned i = 0; i < 5; ++i)
        sym_assert(s.enabled(ids[i]) == !(m >> i & 1), "exactly the members are disabled");
    uint16_t seen = 0;
    unsigned n = 0;
    for (auto id : s) {
        sym_assert(++n <= 5, "iteration ends");
        for (unsigned i = 0; i < 5; ++i)
            if (id == ids[i]) {
                sym_assert(!(seen >> i & 1), "no identifier twice");
                seen |= 1 << i;
            }
    }
    sym_assert(seen == m, "iterates exactly the members");
    eckit::ResizableMemoryStream out(*new eckit::Buffer(100));
    out << s;
    out.rewind();
    ControlIdentifiers r(out);
    for (unsigned i = 0; i < 5; ++i)
        sym_assert(r.enabled(ids[i]) == s.enabled(ids[i]), "streams as the same set");
    std::ostringstream a, b;
    a << s;
    b << r;
    sym_assert(a.str() == b.str(), "prints the same");
    ControlAction act = sym_choice("action", 3) == 0 ? ControlAction::None : sym_bool("dis") ? ControlAction::Disable : ControlAction::Enable, back;
    eckit::Buffer b2(100);
    eckit::MemoryStream o2(b2);
    o2 << act;
    o2.rewind();
    o2 >> back;
    sym_assert(back == act, "actions stream as themselves");
}
// disabling and enabling through the API: what is refused afterwards
SYM_CASE(locks, "2 databases, one field each; 2 (thorough 3) control requests with any action, any set of classes and database; then list, retrieve, archive and wipe on both") {
    std::string d = scratch();
    Config cfg = localConfig(d);
    KV f[2] = {fieldOf(0, 0, 0), fieldOf(1, 0, 0)};
    {
        FDB fdb(cfg);
        for (unsigned i = 0; i < 2; ++i)
            fdb.archive(mkKey(f[i]), i ? "BBB" : "AAA", 3);
        fdb.flush();
    }
    unsigned disabled[2] = {0, 0};
    unsigned steps = deep() ? 2 : 1;
    // first request disables, so that later ones have something to enable
    for (unsigned k = 0; k <= steps; ++k) {
        unsigned w = k == 0 ? 0 : sym_choice("database", 2);
        bool dis = k == 0 ? true : sym_choice("disable", 2);
        unsigned m = sym_choice("classes", 32);
        FDB fdb(cfg);
        auto it = fdb.control(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", f[w]["ver"]}})), dis ? ControlAction::Disable : ControlAction::Enable, setOf(m));
        ControlElement e;
        unsigned n = 0;
        while (it.next(e)) {
            ++n;
            sym_assert(e.key.get("ver") == f[w]["ver"], "only the requested database is controlled");
            disabled[w] = dis ? disabled[w] | m : disabled[w] & ~m;
            for (unsigned i = 0; i < 5; ++i)
                sym_assert(e.controlIdentifiers.enabled(ids[i]) == !(disabled[w] >> i & 1), "the reported state is the resulting one");
        }
        sym_assert(n == 1, "the requested database is controlled once");
    }
    FDB fdb(cfg);
    auto st = fdb.status(FDBToolRequest({}, true));
    StatusElement e;
    unsigned n = 0;
    while (st.next(e)) {
        ++n;
        unsigned w = e.key.get("ver") == f[1]["ver"];
        for (unsigned i = 0; i < 5; ++i)
            sym_assert(e.controlIdentifiers.enabled(ids[i]) == !(disabled[w] >> i & 1), "status shows what is disabled");
    }
    sym_assert(n == 2, "status shows every database");
    FDB other(cfg);  // archives to both
    unsigned first = deep() ? sym_choice("first", 2) : 1;
    for (unsigned k = 0; k < 2; ++k) {
        unsigned w = k ? 1 - first : first;
        auto is = [&](unsigned i) { return (disabled[w] >> i & 1) != 0; };
        std::string got = "?";
        bool t = throws([&] { got = readAll(fdb.retrieve(mkRequest(f[w]))); });
        if (is(1))
            sym_assert(t || got.empty(), "a retrieve that is disabled gives nothing");
        else
            sym_assert(!t && got == (w ? "BBB" : "AAA"), "a retrieve that is enabled gives the data");
        std::multimap<std::string, std::string> l;
        t = throws([&] { l = listAll(fdb, FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", f[w]["ver"]}})), true, false); });
        if (is(0))
            sym_assert(t || l.empty(), "a list that is disabled shows nothing");
        else
            sym_assert(!t && l.size() == 1, "a list that is enabled works");
        for (int depth = 1; depth < 3; ++depth) {
            auto it = fdb.list(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", f[w]["ver"]}})), false, depth);
            ListElement le;
            unsigned c = 0;
            while (it.next(le))
                ++c;
            sym_assert(c == (is(0) ? 0 : 1), "a list of databases or indexes shows exactly those that may be listed");
        }
        KV g = fieldOf(w, 0, 1);
        t = throws([&] {
            other.archive(mkKey(g), "CC", 2);
            other.flush();
        });
        sym_assert(t == is(2), "archive is refused exactly when disabled");
    }
    for (unsigned w = 0; w < 2; ++w) {
        auto is = [&](unsigned i) { return (disabled[w] >> i & 1) != 0; };
        auto wipe = [&](bool doit) {
            FDB wf(cfg);
            auto it = wf.wipe(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", f[w]["ver"]}})), doit, false, false);
            WipeElement we;
            while (it.next(we)) {
            }
        };
        bool t = throws([&] { wipe(true); });
        if (is(3))
            sym_assert(t && eckit::PathName(d + "/root/od:" + f[w]["ver"]).exists(), "a wipe that is disabled is refused and removes nothing");
        else
            sym_assert(!t, "a wipe that is enabled works");
    }
}
// a wipe closes the database for everything else while it removes files, and leaves it as it was
static std::string* watched;  // directory of the database being wiped
static unsigned removals, open_;
extern "C" int unlink(const char* p) {
    std::string path(p);
    if (watched && path.compare(0, watched->size(), *watched) == 0 && (path.find(".data") != std::string::npos || path.find(".index") != std::string::npos)) {
        ++removals;
        for (const char* l : {"/archive.lock", "/list.lock", "/retrieve.lock"})
            open_ += access((*watched + l).c_str(), F_OK) != 0;
    }
    return syscall(SYS_unlink, p);
}
SYM_CASE(wipe_state, "a database of 2 indexes with any set of classes disabled; one index (or none, or all with an unknown file, or all) is wiped, or would be") {
    std::string d = scratch();
    Config cfg = localConfig(d);
    KV f[2] = {fieldOf(0, 0, 0), fieldOf(0, 1, 0)};
    {
        FDB fdb(cfg);
        for (unsigned i = 0; i < 2; ++i)
            fdb.archive(mkKey(f[i]), i ? "BBB" : "AAA", 3);
        fdb.flush();
    }
    const FDBToolRequest db(mkRequest({{"cls", "od"}, {"ver", "0001"}}));
    std::string dir = d + "/root/od:0001";
    unsigned m = sym_choice("classes", 32);
    auto state = [&] {
        FDB fdb(cfg);
        auto st = fdb.status(db);
        StatusElement e;
        unsigned s = 0, n = 0;
        while (st.next(e)) {
            ++n;
            for (unsigned i = 0; i < 5; ++i)
                s |= (unsigned)!e.controlIdentifiers.enabled(ids[i]) << i;
        }
        sym_assert(n == 1, "the database is there");
        return s;
    };
    {
        FDB fdb(cfg);
        auto it = fdb.control(db, ControlAction::Disable, setOf(m));
        ControlElement e;
        while (it.next(e))
            ;
    }
    sym_assert(state() == m, "disabled as asked for");
    unsigned what = sym_choice("request", 4);  // one index, no index, all with an unknown file, all
    bool doit = sym_choice("doit", 2);
    KV rq{{"cls", "od"}, {"ver", "0001"}};
    if (what < 2)
        rq["typ"] = what ? "zz" : "an";
    if (what == 2)
        writeFile(dir + "/notes.txt", "?");
    watched = new std::string(dir);
    removals = open_ = 0;
    bool t = throws([&] {
        FDB wf(cfg);
        auto it = wf.wipe(FDBToolRequest(mkRequest(rq, "wipe")), doit, false, false);
        WipeElement we;
        while (it.next(we))
            ;
    });
    watched = nullptr;
    sym_assert(t == ((m >> 3 & 1) || (what == 2 && doit)), "a wipe is refused if disabled, or if told to remove a database with an unknown file");
    sym_assert(open_ == 0, "while files are removed nothing can be archived, listed or retrieved");
    if (t || !doit || what == 1)
        sym_assert(removals == 0, "nothing is removed");
    if (what == 3 && doit && !t) {
        sym_assert(!fs::exists(dir), "the database is gone");
        sym_reach("gone");
    }
    else {
        sym_assert(state() == m, "what was disabled is disabled again, what was not is not");
        if (removals)
            sym_reach("in part");
    }
}
