#include "local.h"
#include "fdb5/api/helpers/ControlIterator.h"
using namespace fdb5;
void sym_setup() { localSetup(); }
static const F fields[] = {{0, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 0}};
enum Rq { DB0, DB0_IX0, DB0_BOTH, DB0_IX0_PAR, DB0_NOIX, ALLDB, ALLDB_IX1, DB1, RQS };
static KV rqOf(unsigned r) {
    KV k{{"cls", "od"}};
    if (r == DB1)
        k["ver"] = "0002";
    else if (r != ALLDB && r != ALLDB_IX1)
        k["ver"] = "0001";
    if (r == DB0_IX0 || r == DB0_IX0_PAR)
        k["typ"] = "an";
    if (r == ALLDB_IX1)
        k["typ"] = "fc";
    if (r == DB0_NOIX)
        k["typ"] = "zz";
    if (r == DB0_IX0_PAR)
        k["par"] = "167";
    return k;
}
static bool selected(unsigned r, const F& f) {
    switch (r) {
        case DB0: case DB0_BOTH: return f.db == 0;
        case DB0_IX0: return f.db == 0 && f.ix == 0;
        case ALLDB: return true;
        case ALLDB_IX1: return f.ix == 1;
        case DB1: return f.db == 1;
        default: return false;  // below the index level, or matching no index
    }
}
struct Entry {
    unsigned f;
    std::string bytes, uri;
};
static void run(unsigned steps, bool subtoc, bool twice) {
    std::string d = scratch();
    Config base = localConfig(d);
    Config cfg = subtoc ? Config(base, eckit::YAMLConfiguration(std::string("useSubToc: true"))) : base;
    std::map<unsigned, std::string> last;
    {
        std::unique_ptr<FDB> fdb(new FDB(cfg));
        for (unsigned k = 0; k < steps; ++k) {
            unsigned f = sym_choice("field", 4);
            if (k && sym_choice("session", 2)) {
                fdb->flush();
                fdb.reset(new FDB(cfg));
            }
            std::string b = "data" + std::to_string(k) + std::string(3 * k, 'x');
            KV kv = fieldOf(fields[f].db, fields[f].ix, fields[f].d);
            fdb->archive(mkKey(kv), b.data(), b.size());
            last[f] = b;
        }
        fdb->flush();
    }
    std::multimap<std::string, std::string> fullBefore, uriBefore;
    {
        FDB rd(cfg);
        fullBefore = listAll(rd, FDBToolRequest({}, true), false, true);
        uriBefore = listAll(rd, FDBToolRequest({}, true), false, false);
    }
    std::string dbdir[2] = {d + "/root/od:0001", d + "/root/od:0002"};
    unsigned rounds = twice ? 2 : 1;
    std::map<std::string, std::string> files;  // unknown or auxiliary files placed
    unsigned plant = sym_choice("extra file", deep() || !(subtoc || twice) ? 4 : twice ? 1 : 2);
    std::string aux, unk;
    if (plant == 1)
        unk = dbdir[0] + "/notes.txt";
    if (plant == 2)
        unk = dbdir[0] + "/an:sfc.20200101.000000.host.999.data";
    if (plant == 3) {
        bool any = false;
        for (auto& u : uriBefore)
            if (u.second.find("od:0001") != std::string::npos) {
                std::string p = u.second.substr(u.second.find('/'));
                aux = p.substr(0, p.find('?')).substr(0, p.find(".data") + 5) + ".gribjump";
                any = true;
                break;
            }
        if (!any)
            sym_end_path();
    }
    if (!unk.empty() && !fs::exists(dbdir[0]))
        sym_end_path();
    if (!unk.empty())
        writeFile(unk, "?");
    if (!aux.empty())
        writeFile(aux, "aux");
    for (unsigned round = 0; round < rounds; ++round) {
        unsigned r = sym_choice("request", RQS);
        bool doit = sym_choice("doit", 2), unsafe = doit && sym_choice("unsafe", 2);
        if (!fs::exists(unk))
            unk.clear();
        auto before = snapshot(d);
        // what has to be gone
        bool full[2] = {true, true}, exists[2] = {false, false};
        for (auto& l : last) {
            exists[fields[l.first].db] = true;
            if (!selected(r, fields[l.first]))
                full[fields[l.first].db] = false;
        }
        bool touched[2] = {r != DB1 && exists[0], (r == DB1 || r == ALLDB || r == ALLDB_IX1) && exists[1]};
        bool refuse = doit && !unsafe && !unk.empty() && touched[0] && full[0] && fs::exists(unk);
        std::set<std::string> named;
        bool threw;
        {
            FDB fdb(cfg);
            KV kv = rqOf(r);
            metkit::mars::MarsRequest mr = mkRequest(kv, "wipe");
            if (r == DB0_BOTH) {
                std::vector<std::string> both{"an", "fc"};
                mr.values("typ", both);
            }
            threw = throws([&] {
                auto it = fdb.wipe(FDBToolRequest(mr, false), doit, false, unsafe);
                WipeElement e;
                while (it.next(e))
                    if (e.type() != WipeElementType::CATALOGUE_SAFE && e.type() != WipeElementType::STORE_SAFE && e.type() != WipeElementType::UNKNOWN)
                        for (auto& u : e.uris())
                            named.insert(u.path().asString());
            });
        }
        sym_assert(threw == refuse, "a wipe is refused exactly if told to remove a whole database that contains an unknown file");
        auto after = snapshot(d);
        if (!doit)
            sym_assert(before == after, "without doit nothing changes");
        for (auto& n : named) {
            bool in0 = n.compare(0, dbdir[0].size(), dbdir[0]) == 0, in1 = n.compare(0, dbdir[1].size(), dbdir[1]) == 0;
            sym_assert((in0 && touched[0]) || (in1 && touched[1]), "only files of the selected databases are marked for deletion");
            sym_assert(n != unk, "an unknown file is not reported as one of the database");
        }
        bool gone1 = touched[1] && full[1];
        if (refuse && r == ALLDB) {
            sym_reach("one database refused, another selected");
            gone1 = !fs::exists(dbdir[1]);  // wiped before or after the refusal
        }
        FDB rd(cfg);
        auto dd = listAll(rd, FDBToolRequest({}, true), true, true);
        auto all = listAll(rd, FDBToolRequest({}, true), false, true);
        std::multimap<std::string, std::string> wantAll, wantDd;
        std::set<std::string> keepData, dropData;
        auto goneField = [&](unsigned f) {
            if (!doit || !selected(r, fields[f]))
                return false;
            return fields[f].db == 0 ? !refuse : (full[1] ? gone1 : (refuse && r == ALLDB ? false : true));
        };
        for (unsigned f = 0; f < 4; ++f) {
            std::string k = textOf(fieldOf(fields[f].db, fields[f].ix, fields[f].d));
            bool gone = goneField(f);
            auto rg = fullBefore.equal_range(k);
            auto ru = uriBefore.equal_range(k);
            if (!gone) {
                for (auto i = rg.first; i != rg.second; ++i)
                    wantAll.insert(*i);
                if (last.count(f))
                    wantDd.emplace(k, last[f]);
            }
            for (auto i = ru.first; i != ru.second; ++i) {
                std::string p = i->second.substr(i->second.find('/'));
                p = p.substr(0, p.find(".data") + 5);
                (gone ? dropData : keepData).insert(p);
            }
        }
        sym_assert(dd == wantDd, "exactly the fields not selected remain, with their bytes");
        sym_assert(all == wantAll, "exactly the entries not selected remain");
        for (auto& p : keepData)
            sym_assert(fs::exists(p), "data of remaining fields remains");
        for (auto& p : dropData)
            sym_assert(keepData.count(p) || !fs::exists(p), "data of wiped indexes is removed");
        for (unsigned b = 0; b < 2; ++b) {
            bool whole = doit && touched[b] && full[b] && (b == 0 ? !refuse : gone1);
            if (whole)
                sym_assert(!fs::exists(dbdir[b]), "a database wiped as a whole is gone");
            else if (exists[b])
                for (auto& s : before) {
                    // files other than data and index are kept, those of untouched databases unchanged
                    std::string p = d + s.first;
                    if (p.compare(0, dbdir[b].size(), dbdir[b]))
                        continue;
                    auto a = after.find(s.first);
                    if (!doit || !touched[b] || (refuse && b == 0))
                        sym_assert(a != after.end() && a->second == s.second, "a database not wiped keeps its files");
                    else if (p.find(".data") == std::string::npos && p.find(".index") == std::string::npos)
                        sym_assert(a != after.end(), "a database wiped in part keeps its tables and unknown files");
                }
        }
        if (doit && touched[0] && full[0] && !unk.empty())
            sym_assert(fs::exists(unk) == !unsafe, "an unknown file is only removed when told so");
        for (unsigned f = 0; f < 4; ++f) {
            KV kv = fieldOf(fields[f].db, fields[f].ix, fields[f].d);
            std::string got;
            bool t = throws([&] { got = readAll(rd.retrieve(mkRequest(kv))); });
            if (last.count(f) && !goneField(f))
                sym_assert(!t && got == last[f], "remaining fields are retrieved");
            else
                sym_assert(t || got.empty(), "wiped fields are not found");
        }
        for (unsigned f = 0; f < 4; ++f)
            if (goneField(f)) {
                std::string k = textOf(fieldOf(fields[f].db, fields[f].ix, fields[f].d));
                last.erase(f);
                fullBefore.erase(k);
                uriBefore.erase(k);
            }
        // and the database takes fields again
        std::string again = "again" + std::to_string(round);
        {
            FDB w(cfg);
            w.archive(mkKey(fieldOf(0, 0, 0)), again.data(), again.size());
            w.archive(mkKey(fieldOf(1, 0, 0)), again.data(), again.size());
            w.flush();
        }
        FDB rd2(cfg);
        for (unsigned b = 0; b < 2; ++b)
            sym_assert(readAll(rd2.retrieve(mkRequest(fieldOf(b, 0, 0)))) == again, "fields archived after the wipe are retrieved");
        last[0] = last[3] = again;
        fullBefore = listAll(rd2, FDBToolRequest({}, true), false, true);
        uriBefore = listAll(rd2, FDBToolRequest({}, true), false, false);
    }
}
SYM_CASE(wipe, "every sequence of 2 (thorough 3) fields out of 4 (2 databases, 2 indexes, 2 data), each in the same or a new session; no, an unknown, an unknown data or an auxiliary file in the first database; 8 requests (database, index, all indexes, below index, no such index, all databases); doit, unsafe-wipe-all; then archive again") {
    run(deep() ? 3 : 2, false, false);
}
SYM_CASE(wipe_subtoc, "as wipe with sub-TOCs (quick: without unknown data and auxiliary files)") { run(deep() ? 3 : 2, true, false); }
SYM_CASE(wipe_twice, "1 field (thorough 2), then two wipes with any request and options, archiving in between (quick: without extra files)") { run(deep() ? 2 : 1, false, true); }
SYM_CASE(locked, "2 databases, wiping locked on none, either or both; wipe of one or both, with and without doit") {
    std::string d = scratch();
    Config cfg = localConfig(d);
    {
        FDB w(cfg);
        for (unsigned b = 0; b < 2; ++b)
            w.archive(mkKey(fieldOf(b, 0, 0)), b ? "BBB" : "AAA", 3);
        w.flush();
    }
    unsigned lock = sym_choice("locked", 4), rq = sym_choice("request", 3);
    bool doit = sym_choice("doit", 2);
    for (unsigned b = 0; b < 2; ++b)
        if (lock >> b & 1) {
            FDB c(cfg);
            auto it = c.control(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", b ? "0002" : "0001"}})), ControlAction::Disable, ControlIdentifiers(ControlIdentifier::Wipe));
            ControlElement e;
            while (it.next(e))
                ;
        }
    auto before = snapshot(d);
    KV kv{{"cls", "od"}};
    if (rq < 2)
        kv["ver"] = rq ? "0002" : "0001";
    bool t = throws([&] {
        FDB w(cfg);
        auto it = w.wipe(FDBToolRequest(mkRequest(kv, "wipe")), doit, false, false);
        WipeElement e;
        while (it.next(e))
            ;
    });
    FDB rd(cfg);
    sym_assert(t == ((rq == 2 ? lock : lock & (1 << rq)) != 0), "a wipe is refused exactly if a database it selects is locked");
    for (unsigned b = 0; b < 2; ++b) {
        bool gone = doit && (rq == 2 || rq == b) && !(lock >> b & 1);
        if (t && gone)
            gone = !fs::exists(d + "/root/od:000" + std::to_string(b + 1));  // wiped before or after the refusal
        std::string got;
        bool none = throws([&] { got = readAll(rd.retrieve(mkRequest(fieldOf(b, 0, 0)))); });
        sym_assert(gone ? none || got.empty() : !none && got == (b ? "BBB" : "AAA"), "databases not selected or locked are not wiped");
        sym_assert(fs::exists(d + "/root/od:000" + std::to_string(b + 1)) == !gone, "databases not selected or locked are not removed");
    }
    if (!doit)
        sym_assert(snapshot(d) == before, "without doit nothing changes");
}
