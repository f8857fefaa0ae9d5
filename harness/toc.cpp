// What is visible in a database whose table of contents has been through any history of additions, masks, sub-tables, overlays and rewriting.
#include "local.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/database/EntryVisitMechanism.h"
#include "fdb5/database/Index.h"
#include "fdb5/toc/TocCatalogueReader.h"
#include "fdb5/toc/TocCatalogueWriter.h"
#include "fdb5/toc/TocIndex.h"
using namespace fdb5;
static Config subConfig(const Config& c) {
    return Config(c, eckit::YAMLConfiguration(std::string("useSubToc: true")));
}
static KV field(unsigned db, unsigned ix) {
    return {{"cls", "od"}, {"ver", "000" + std::to_string(db + 1)}, {"typ", ix ? "fc" : "an"}, {"lev", "sfc"}, {"par", "167"}, {"stp", "0"}};
}
static Key dbKey(unsigned db) {
    return mkKey({{"cls", "od"}, {"ver", field(db, 0)["ver"]}});
}
struct Lengths : EntryVisitor {
    std::vector<long> v;
    bool visitIndex(const Index&) override { return true; }
    using EntryVisitor::visitDatum;
    void visitDatum(const Field& f, const std::string&) override { v.push_back((long long)f.location().length()); }
    void visitDatum(const Field& f, const Key&) override { v.push_back((long long)f.location().length()); }
};
void sym_setup() {
    localSetup();
    throws([] { throw eckit::UserError("x"); });
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm2";
    mkdir(d.c_str(), 0777);
    Config c = localConfig(d);
    FDB fdb(subConfig(c));
    fdb.archive(mkKey(field(0, 0)), "abc", 3);
    fdb.flush();
}
struct Rec {
    enum { Field, Sub, Mount } kind;
    unsigned ix = 0;                                  // a field: its index
    long length = 0;                                  // and which one it is
    unsigned db = 0;                                  // a mount: of which database
    std::vector<std::pair<unsigned, long>> sub = {};  // a sub-table: its fields
    bool masked = false;
};
struct Toc {
    std::string dir = scratch();
    Config c = localConfig(dir);
    std::vector<Rec> recs;
    long next = 1;
    std::unique_ptr<FDB> writer;  // with a sub-table
    int sub = -1;
    long mounted[3] = {0, 0, 0};
    void put(FDB& f, unsigned db, unsigned ix, long n) {
        std::string s(n, 'x');
        f.archive(mkKey(field(db, ix)), s.data(), s.size());
        f.flush();
    }
    // a database that was mounted twice is where it was mounted last
    void once(std::vector<long>& v, long x) const {
        if (std::find(v.begin(), v.end(), x) == v.end())
            v.push_back(x);
    }
    // index -> its fields, newest first; of the mounted databases -n
    std::map<unsigned, std::vector<long>> visible() const {
        std::map<unsigned, std::vector<long>> r;
        for (auto i = recs.rbegin(); i != recs.rend(); ++i) {
            if (i->masked)
                continue;
            if (i->kind == Rec::Field)
                r[i->ix].push_back(i->length);
            else if (i->kind == Rec::Mount)
                once(r[0], mounted[i->db]);
            else
                for (auto s = i->sub.rbegin(); s != i->sub.rend(); ++s)
                    r[s->first].push_back(s->second);
        }
        return r;
    }
    bool mounts(int db = 0) const {
        for (auto& r : recs)
            if (r.kind == Rec::Mount && !r.masked && (!db || r.db == (unsigned)db))
                return true;
        return false;
    }
    void check() {
        auto want = visible();
        TocCatalogueReader r(dbKey(0), c);
        std::map<unsigned, std::vector<long>> got;
        for (auto& p : r.indexes_) {
            Index ix = p.first;
            ix.open();
            Lengths v;
            ix.entries(v);
            sym_assert(v.v.size() == 1, "an index holds what was put in it");
            bool foreign = ix.location().uri().path().dirName().baseName() != eckit::PathName(r.directory()).baseName();
            sym_assert(foreign == !p.second.empty() && (!foreign || p.second == mkKey({{"ver", "0001"}})), "a mounted database's fields go by the key of this one");
            auto& g = got[ix.key().get("typ") == "fc"];
            if (foreign)
                once(g, v.v[0]);
            else
                g.push_back(v.v[0]);
        }
        for (auto& w : want)
            sym_assert(got[w.first] == w.second, "the indexes that were added and not masked, newest first");
        for (auto& g : got)
            sym_assert(want.count(g.first) || g.second.empty(), "no other indexes");
        for (auto& p : r.indexes_) {
            Index ix = p.first;
            if (!ix.key().get("typ").empty() && p.second.empty())
                continue;
            Field f;
            Key datum = mkKey({{"par", "167"}, {"stp", "0"}});
            ix.open();
            sym_assert(ix.get(datum, p.second, f), "a mounted field can be looked up");
            sym_assert(f.location().remapKey() == p.second, "the location of a mounted field has the keywords to replace");
        }
        // as a user sees it
        FDB fdb(c);
        auto it = fdb.list(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", "0001"}})), true);
        ListElement e;
        std::map<unsigned, long> newest;
        while (it.next(e))
            sym_assert(newest.emplace(e.combinedKey().get("typ") == "fc", (long long)e.location().length()).second, "each field once");
        unsigned n = 0;
        for (auto& w : want)
            if (!w.second.empty()) {
                ++n;
                sym_assert(newest.count(w.first) && newest[w.first] == w.second[0], "the newest of each field is listed");
            }
        sym_assert(newest.size() == n, "nothing else is listed");
    }
    void close() {
        writer.reset();
        if (sub < 0)
            return;
        // the newest of each index of the sub-table, as indexes of their own
        std::map<unsigned, long> all;
        for (auto& s : recs[sub].sub)
            all[s.first] = s.second;
        recs[sub].masked = true;
        for (auto& a : all)
            recs.push_back({Rec::Field, a.first, a.second});
        sub = -1;
    }
};
static void history(unsigned ops, bool overlays, bool rewriting) {
    Toc t;
    t.mounted[1] = 101;
    t.mounted[2] = 102;
    if (overlays)
        for (unsigned db = 1; db < 3; ++db) {
            FDB f(t.c);
            t.put(f, db, 0, t.mounted[db]);
        }
    {
        FDB f(t.c);
        t.put(f, 0, 0, t.next);
        t.recs.push_back({Rec::Field, 0, t.next++});
    }
    std::map<std::string, std::string> others;
    for (auto& s : snapshot(t.dir))
        if (s.first.find("od:0001") == std::string::npos)
            others.insert(s);
    for (unsigned i = 0; i < ops; ++i) {
        unsigned op = sym_choice("op", 8);
        if (op == 0)
            break;
        else if (op == 1) {
            unsigned ix = sym_choice("ix", 2);
            FDB f(t.c);
            t.put(f, 0, ix, t.next);
            t.recs.push_back({Rec::Field, ix, t.next++});
        }
        else if (op == 2) {
            unsigned ix = sym_choice("ix", 2);
            if (!t.writer)
                t.writer.reset(new FDB(subConfig(t.c)));
            t.put(*t.writer, 0, ix, t.next);
            if (t.sub < 0) {
                t.sub = t.recs.size();
                t.recs.push_back({Rec::Sub});
            }
            t.recs[t.sub].sub.emplace_back(ix, t.next++);
        }
        else if (op == 3) {
            sym_assume(!!t.writer);
            t.close();
        }
        else if (op == 4) {  // mask one of the visible indexes
            TocCatalogueReader r(dbKey(0), t.c);
            sym_assume(!t.sub || !t.mounts());
            std::vector<Rec*> own;
            for (auto& x : t.recs)
                if (x.kind == Rec::Field && !x.masked)
                    own.push_back(&x);
            sym_assume(!own.empty());
            Rec* which = own[sym_choice("which", own.size())];
            bool found = false;
            for (auto& p : r.indexes_) {
                Index ix = p.first;
                ix.open();
                Lengths v;
                ix.entries(v);
                if (v.v.at(0) == which->length) {
                    r.maskIndexEntries({ix});
                    found = true;
                }
            }
            sym_assert(found, "a visible index");
            which->masked = true;
        }
        else if (op == 5) {
            sym_assume(!t.writer);
            TocCatalogueWriter w(dbKey(0), t.c);
            w.hideContents();
            for (auto& x : t.recs)
                x.masked = true;
        }
        else if (op == 6) {
            if (overlays) {
                unsigned db = 1 + sym_choice("db", 2);
                bool was = t.mounts(db);
                TocCatalogueWriter w(dbKey(0), t.c);
                TocCatalogueReader other(dbKey(db), t.c);
                bool unmount = sym_choice("unmount", 2);
                bool refused = throws([&] { w.overlayDB(other, {"ver"}, unmount); });
                sym_assert(refused == (unmount && !was), "only what is mounted can be unmounted");
                if (!refused && unmount)
                    for (auto& x : t.recs)
                        x.masked |= x.kind == Rec::Mount && x.db == db;
                if (!unmount)
                    t.recs.push_back({Rec::Mount, 0, 0, db});
            }
            else {
                sym_assume(rewriting && !t.writer);
                std::map<unsigned, std::vector<long>> v = t.visible();
                {
                    TocCatalogueReader r(dbKey(0), t.c);
                    TocCatalogueWriter w(eckit::URI("toc", eckit::PathName(r.directory())), t.c);
                    w.reconsolidate();
                }
                for (auto& x : t.recs)
                    x.masked = true;
                for (auto& x : v)
                    if (!x.second.empty())
                        t.recs.push_back({Rec::Field, x.first, x.second[0]});
            }
        }
        else if (op == 7) {
            sym_assume(!t.writer);
            bool any = t.mounts();
            FDB f(t.c);
            bool failed = throws([&] {
                auto it = f.purge(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", "0001"}})), true, false);
                PurgeElement e;
                while (it.next(e))
                    ;
            });
            sym_assert(!failed || any, "a purge succeeds unless another database is mounted");
            if (!failed) {
                std::map<unsigned, bool> seen;
                for (auto x = t.recs.rbegin(); x != t.recs.rend(); ++x)
                    if (!x->masked && x->kind == Rec::Field) {
                        x->masked |= seen[x->ix];
                        seen[x->ix] = true;
                    }
            }
            sym_assume(!any);  // what is removed if there are overlays is not defined
        }
        t.check();
    }
    t.close();
    t.check();
    for (auto& s : snapshot(t.dir))
        if (s.first.find("od:0001") == std::string::npos)
            sym_assert(others.count(s.first) && others[s.first] == s.second, "no other database is touched");
}
SYM_CASE(history, "3 (thorough 4) operations on a database with a field: archive another in one of 2 indexes, the same with a sub-table, close the sub-table, mask an index, mask everything, rewrite (reconsolidate), purge: the indexes that are visible, in order, and what is listed, after each") {
    history(deep() ? 4 : 3, false, true);
}
SYM_CASE(overlays, "the same without rewriting and with mounting one of two other databases, or unmounting it") {
    history(deep() ? 4 : 3, true, false);
}

SYM_CASE(wiping, "a database with a field that has another one mounted, or had: what the other holds is still visible, hidden or wiped; the first one is wiped, in part or completely") {
    Toc t;
    FDB f(t.c);
    t.put(f, 0, 0, 1);
    t.put(f, 1, 0, 2);
    {
        TocCatalogueWriter w(dbKey(0), t.c);
        TocCatalogueReader other(dbKey(1), t.c);
        w.overlayDB(other, {"ver"}, false);
        if (sym_choice("unmounted", 2))
            w.overlayDB(other, {"ver"}, true);
    }
    auto wipe = [&](const FDBToolRequest& rq) {
        auto it = f.wipe(rq, true, false, false);
        WipeElement e;
        while (it.next(e))
            ;
    };
    unsigned there = sym_choice("there", 3);
    if (there == 1) {
        TocCatalogueWriter w(dbKey(1), t.c);
        w.hideContents();
    }
    else if (there == 2)
        wipe(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", "0002"}})));
    std::map<std::string, std::string> others;
    for (auto& s : snapshot(t.dir))
        if (s.first.find("od:0001") == std::string::npos)
            others.insert(s);
    auto rq = FDBToolRequest(sym_choice("part", 2) ? mkRequest({{"cls", "od"}, {"ver", "0001"}, {"typ", "an"}}) : mkRequest({{"cls", "od"}, {"ver", "0001"}}));
    throws([&] { wipe(rq); });
    unsigned n = 0;
    for (auto& s : snapshot(t.dir))
        if (s.first.find("od:0001") == std::string::npos) {
            ++n;
            sym_assert(others.count(s.first) && others[s.first] == s.second, "no other database is touched");
        }
    sym_assert(n == others.size(), "nothing of another database is removed");
}
