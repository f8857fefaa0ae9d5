#include "local.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
using namespace fdb5;
void sym_setup() { localSetup(); }
static const F fields[] = {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}};
static std::string fileOf(const std::string& uri) {
    std::string p = uri.substr(uri.find('/'));
    return p.substr(0, p.find(".data") + 5);
}
static void run(unsigned steps, unsigned nf, bool subtoc, bool after, bool aux = false) {
    std::string d = scratch();
    Config base = localConfig(d);
    Config cfg = subtoc ? Config(base, eckit::YAMLConfiguration(std::string("useSubToc: true"))) : base;
    std::map<unsigned, std::string> last;
    std::unique_ptr<FDB> fdb(new FDB(cfg));
    for (unsigned k = 0; k < steps; ++k) {
        unsigned f = sym_choice("field", nf);
        if (k) {
            unsigned s = sym_choice("session", 3);
            if (s)
                fdb->flush();
            if (s == 2)
                fdb.reset(new FDB(cfg));
        }
        std::string b = "data" + std::to_string(k) + std::string(3 * k, 'x');
        fdb->archive(mkKey(fieldOf(fields[f].db, fields[f].ix, fields[f].d)), b.data(), b.size());
        last[f] = b;
    }
    fdb->flush();
    fdb.reset();
    bool doit = sym_choice("keep", 2) == 0;
    unsigned what = after ? sym_choice("request", 5) : 0;  // first database, both, below the database, first or both with wiping of the first locked
    if (what >= 3) {
        FDB c(cfg);
        auto it = c.control(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", "0001"}})), ControlAction::Disable, ControlIdentifiers(ControlIdentifier::Wipe));
        ControlElement e;
        while (it.next(e))
            ;
    }
    FDB rd0(cfg);
    auto ddB = listAll(rd0, FDBToolRequest({}, true), true, true), uriB = listAll(rd0, FDBToolRequest({}, true), true, false), allB = listAll(rd0, FDBToolRequest({}, true), false, false);
    std::multimap<std::string, std::string> want;
    for (auto& l : last)
        want.emplace(textOf(fieldOf(fields[l.first].db, fields[l.first].ix, fields[l.first].d)), l.second);
    sym_assert(ddB == want, "before the purge each field is listed with its last bytes");
    // auxiliary files beside data files
    const std::string auxExt = ".gribjump";
    if (aux) {
        unsigned m = 0, mask = sym_choice("auxiliary files", 7) + 1;
        std::set<std::string> datas;
        for (auto& u : allB)
            datas.insert(fileOf(u.second));
        for (auto& p : datas)
            if (mask >> m++ & 1)
                writeFile(p + auxExt, "aux");
    }
    auto before = snapshot(d);
    KV kv{{"cls", "od"}, {"ver", "0001"}};
    if (what == 1 || what == 4)
        kv.erase("ver");
    if (what == 2)
        kv["typ"] = "an";
    bool threw;
    bool any0 = fs::exists(d + "/root/od:0001");
    {
        FDB p(cfg);
        threw = throws([&] {
            auto it = p.purge(FDBToolRequest(mkRequest(kv, "purge")), doit, false);
            PurgeElement e;
            while (it.next(e))
                ;
        });
    }
    if (what == 2)
        sym_assert(threw == any0, "a purge below the database is refused");
    else
        sym_assert(!threw, "the purge succeeds");
    auto snap = snapshot(d);
    bool acted = doit && what < 2, acted1 = doit && (what == 1 || what == 4);
    if (!acted && !acted1)
        sym_assert(snap == before, "without doit, or where not allowed, nothing changes");
    FDB rd(cfg);
    auto ddA = listAll(rd, FDBToolRequest({}, true), true, true), uriA = listAll(rd, FDBToolRequest({}, true), true, false), allA = listAll(rd, FDBToolRequest({}, true), false, false);
    sym_assert(ddA == want, "after the purge each field is listed with its last bytes");
    sym_assert(uriA == uriB, "at the same place");
    for (unsigned f = 0; f < nf; ++f) {
        std::string got;
        bool t = throws([&] { got = readAll(rd.retrieve(mkRequest(fieldOf(fields[f].db, fields[f].ix, fields[f].d)))); });
        sym_assert(last.count(f) ? !t && got == last[f] : (t || got.empty()), "retrieve is unchanged");
    }
    std::set<std::string> live, inDb;
    for (auto& u : uriB)
        live.insert(fileOf(u.second));
    for (auto& s : before) {
        bool in = (acted && s.first.find("od:0001") != std::string::npos) || (acted1 && s.first.find("od:0002") != std::string::npos);
        bool data = s.first.size() > 5 && s.first.compare(s.first.size() - 5, 5, ".data") == 0;
        bool index = s.first.size() > 6 && s.first.compare(s.first.size() - 6, 6, ".index") == 0;
        auto a = snap.find(s.first);
        bool isAux = s.first.size() > auxExt.size() && s.first.compare(s.first.size() - auxExt.size(), auxExt.size(), auxExt) == 0;
        if (isAux)
            sym_assert((a != snap.end()) == (!in || live.count(d + s.first.substr(0, s.first.size() - auxExt.size()))), "an auxiliary file is removed if and only if its data file is");
        else if (data)
            sym_assert((a != snap.end()) == (!in || live.count(d + s.first)), "a data file is removed if and only if the purge acts on its database and no field needs it");
        else if (!index && !(in && s.first.find("/toc.") != std::string::npos))
            sym_assert(a != snap.end(), "tables and directories remain");
        if (data && a != snap.end())
            sym_assert(a->second == s.second, "data files are not changed");
    }
    for (auto& s : snap)
        sym_assert(before.count(s.first), "nothing new");
    // what is still listed in full was listed before and can be read
    for (auto& e : allA) {
        bool found = false;
        auto r = allB.equal_range(e.first);
        for (auto i = r.first; i != r.second; ++i)
            found = found || i->second == e.second;
        sym_assert(found, "a full list shows nothing new");
    }
    if (after) {
        FDB w(cfg);
        w.archive(mkKey(fieldOf(0, 0, 0)), "again", 5);
        w.flush();
        FDB rd2(cfg);
        sym_assert(readAll(rd2.retrieve(mkRequest(fieldOf(0, 0, 0)))) == "again", "archiving goes on after the purge");
        for (unsigned f = 1; f < nf; ++f)
            if (last.count(f))
                sym_assert(readAll(rd2.retrieve(mkRequest(fieldOf(fields[f].db, fields[f].ix, fields[f].d)))) == last[f], "other fields are unchanged");
    }
}
SYM_CASE(purge, "every sequence of 4 (thorough 5) fields out of 3 (2 indexes, 2 data), each in the same session, after a flush or in a new session; with and without doit") { run(deep() ? 5 : 4, 3, false, false); }
SYM_CASE(purge_subtoc, "as purge with sub-TOCs, 3 (thorough 4) fields") { run(deep() ? 4 : 3, 3, true, false); }
SYM_CASE(requests, "2 (thorough 3) fields out of 4 in 2 databases; purge of one, both, below the database, with wiping locked; then archive again") { run(deep() ? 3 : 2, 4, false, true); }
SYM_CASE(auxiliary, "3 fields out of 2 in one database; auxiliary files beside any subset of (up to 3) data files") { run(3, 2, false, false, true); }
