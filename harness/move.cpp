// Moving a database to another root: what fdb-move does with the elements FDB::move gives it, step by step
#include "local.h"
#include "fdb5/api/helpers/MoveIterator.h"
using namespace fdb5;
static Config moveConfig(const std::string& d, bool named, bool subtoc) {
    writeFile(d + "/schema", plainSchema);
    for (const char* r : {"/root", "/second", "/kept", "/other"})
        mkdir((d + r).c_str(), 0777);
    std::string y = "type: local\nengine: toc\nschema: " + d + "/schema\n";
    if (named) {
        mkdir((d + "/etc").c_str(), 0777);
        mkdir((d + "/etc/fdb").c_str(), 0777);
        writeFile(d + "/etc/fdb/dbnames", "cls,ver db-{ver}-{cls}\n");
        y += "fdb_home: " + d + "\n";
    }
    if (subtoc)
        y += "useSubToc: true\n";
    y += "spaces:\n- handler: Default\n  regex: \"od:.*\"\n  roots:\n  - path: " + d + "/root\n  - path: " + d +
         "/second\n    writable: true\n  - path: " + d + "/kept\n    wipe: false\n- handler: Default\n  regex: \"rd:.*\"\n  roots:\n  - path: " + d + "/other\n";
    return Config(eckit::YAMLConfiguration(y));
}
void sym_setup() {
    localSetup();
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm2";
    mkdir(d.c_str(), 0777);
    Config c = moveConfig(d, false, false);
    FDB fdb(c);
    fdb.archive(mkKey(fieldOf(0, 0, 0)), "abc", 3);
    fdb.flush();
    auto it = fdb.move(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", "0001"}}, "move")), eckit::URI(d + "/second"));
    MoveElement e;
    while (it.next(e))
        ;
}
static const F fields[] = {{0, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 0}};
typedef std::map<unsigned, std::string> Content;
static void check(const Config& cfg, const Content& want, const char* when) {
    FDB rd(cfg);
    std::multimap<std::string, std::string> l = listAll(rd, FDBToolRequest({}, true), true, true), w;
    for (auto& f : want)
        w.emplace(textOf(fieldOf(fields[f.first].db, fields[f.first].ix, fields[f.first].d)), f.second);
    sym_note(when);
    sym_assert(l == w, "the listing shows each field once, with the bytes archived last");
    for (unsigned f = 0; f < 4; ++f) {
        auto i = want.find(f);
        std::string got = readAll(rd.retrieve(mkRequest(fieldOf(fields[f].db, fields[f].ix, fields[f].d))));
        sym_assert(got == (i == want.end() ? std::string() : i->second), "retrieving gives the bytes archived last");
    }
}
SYM_CASE(move, "2..3 (thorough: 4) archives of 4 fields of 2 databases in one or more sessions, with sub-tables or not, databases named by their key or by a rule, an auxiliary file or not; one is moved with its files copied in either order, or kept; "
               "at any step a reader and an archive of one more field of it, then the rest of the steps") {
    std::string d = scratch();
    bool named = sym_choice("named", 2), subtoc = sym_choice("subtoc", 2);
    Config cfg = moveConfig(d, named, subtoc);
    Content want;
    unsigned n = 2 + sym_choice("archives", deep() ? 3 : 2);
    {
        std::unique_ptr<FDB> fdb(new FDB(cfg));
        for (unsigned k = 0; k < n; ++k) {
            unsigned f = k ? sym_choice("field", 4) : 0;
            if (k && sym_choice("session", 2)) {
                fdb->flush();
                if (k == 1)
                    fdb.reset(new FDB(cfg));
            }
            std::string b = "data" + std::to_string(k) + std::string(3 * k, 'x');
            fdb->archive(mkKey(fieldOf(fields[f].db, fields[f].ix, fields[f].d)), b.data(), b.size());
            want[f] = b;
        }
        fdb->flush();
    }
    std::string name[2] = {named ? "db-0001-od" : "od:0001", named ? "db-0002-od" : "od:0002"};
    std::string src = d + "/root/" + name[0], dst = d + "/second/" + name[0];
    sym_assert(fs::exists(src + "/toc") && !fs::exists(dst), "the database is in the first root");
    std::string aux;
    if (sym_choice("auxiliary", 2))
        for (auto& e : fs::directory_iterator(src))
            if (e.path().extension() == ".data" && aux.empty()) {
                aux = e.path().filename().string() + ".gribjump";
                writeFile(src + "/" + aux, "aux");
            }
    auto before = snapshot(src);
    FDB mover(cfg);
    auto it = mover.move(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", "0001"}}, "move")), eckit::URI(d + "/second"));
    std::vector<MoveElement> files;
    MoveElement toc, e;
    bool sync = false;
    while (!sync && it.next(e)) {
        if (e.sync()) {
            toc = e;
            sync = true;
        }
        else
            files.push_back(e);
    }
    sym_assert(sync, "the table of contents comes last");
    // as fdb-move: copies by any number of threads, then the table; then what is copied goes
    bool rev = sym_choice("reversed", 2), keep = sym_choice("keep", 2);
    std::vector<std::function<void()>> steps;
    for (unsigned i = 0; i < files.size(); ++i)
        steps.push_back([&, i] { files[rev ? files.size() - 1 - i : i].execute(); });
    steps.push_back([&] { toc.execute(); });
    unsigned copied = steps.size();
    if (!keep) {
        steps.push_back([&] { toc.cleanup(); });
        for (auto& f : files)
            steps.push_back([&] { f.cleanup(); });
        steps.push_back([&] {
            MoveElement l;
            while (it.next(l))
                l.cleanup();
        });
    }
    // every step of copying is like the ones around it: the first, the last, and those around the table
    std::vector<unsigned> stops = {0, 1, copied - 1, copied};
    if (!keep) {
        stops.push_back(copied + 1);
        stops.push_back(copied + 2);
        stops.push_back((unsigned)steps.size() - 1);
    }
    stops.push_back((unsigned)steps.size());
    unsigned stop = stops[sym_choice("stop", (unsigned)stops.size())], k = 0;
    for (; k < stop; ++k)
        steps[k]();
    check(cfg, want, k < copied ? "while copying" : k == copied ? "copied" : "while removing");
    // one more field of the database
    // (not replacing one while both copies are complete: the old one precedes)
    bool refused = k == copied && want.count(2);
    if (!refused) try {
        FDB w(cfg);
        w.archive(mkKey(fieldOf(0, 0, 1)), "late", 4);
        w.flush();
    }
    catch (eckit::Exception&) {
        refused = true;
    }
    if (!refused) {
        want[2] = "late";
        check(cfg, want, "archived meanwhile");
    }
    // (once the table is copied it goes to the new place)
    sym_assert(refused || k >= copied, "nothing is archived to a database while it is copied");
    for (; k < steps.size(); ++k)
        steps[k]();
    check(cfg, want, "moved");
    if (keep) {
        auto kept = snapshot(src), there = snapshot(dst);
        for (auto& f : before)
            sym_assert(kept[f.first] == f.second && (!refused || there[f.first] == f.second), "both copies are complete");
    }
    else {
        sym_assert(!fs::exists(src), "nothing is left behind");
        if (refused) {
            auto there = snapshot(dst);
            sym_assert(there == before, "the new place has all files of the database as they were");
        }
        // and can be written again
        FDB w(cfg);
        w.archive(mkKey(fieldOf(0, 1, 0)), "again", 5);
        w.flush();
        want[1] = "again";
        check(cfg, want, "archived again");
        sym_assert(!fs::exists(src), "the database stays at its new place");
    }
    if (!aux.empty())
        sym_reach("auxiliary");
    sym_reach(keep ? "kept" : refused ? "refused" : "late");
}
SYM_CASE(refuse, "destinations: none of the roots, a root of other databases, one that cannot be wiped, the same, one where it exists already, the second, written in 4 schemes; a request of one or no database, or of part of one") {
    std::string d = scratch();
    Config cfg = moveConfig(d, false, false);
    Content want{{0, "zero"}, {3, "three"}};
    {
        FDB fdb(cfg);
        for (auto& f : want)
            fdb.archive(mkKey(fieldOf(fields[f.first].db, fields[f.first].ix, fields[f.first].d)), f.second.data(), f.second.size());
        fdb.flush();
    }
    static const char* const DEST[] = {"/nowhere", "/other", "/kept", "/root", "/second", "/second/"};
    unsigned where = sym_choice("destination", 6);
    bool exists = sym_choice("exists", 2);
    if (exists)
        fs::create_directory(d + "/second/od:0001");
    static const char* const SCHEME[] = {"", "file:", "toc:", "http:"};
    unsigned scheme = sym_choice("scheme", 4);
    unsigned rq = sym_choice("request", 3);
    KV kv{{"cls", "od"}, {"ver", rq == 1 ? "0003" : "0001"}};
    if (rq == 2)
        kv["typ"] = "an";
    auto before = snapshot(d);
    unsigned n = 0;
    bool threw = false;
    try {
        FDB mover(cfg);
        auto it = mover.move(FDBToolRequest(mkRequest(kv, "move")), eckit::URI(std::string(SCHEME[scheme]) + d + DEST[where]));
        MoveElement e;
        while (it.next(e))
            ++n;
    }
    catch (eckit::Exception&) {
        threw = true;
    }
    bool ok = rq == 0 && where >= 4 && !exists && scheme < 3;
    sym_assert((n > 0) == ok, "there is something to move exactly if it can be moved");
    sym_assert(threw == (rq == 0 && !ok), "what cannot be moved there is reported");
    if (!ok) {
        auto after = snapshot(d);
        // the source may stay locked
        for (auto i = after.begin(); i != after.end();)
            i = i->first.size() > 5 && (i->first.find(".lock") != std::string::npos || i->first.find("duplicates.allow") != std::string::npos) ? after.erase(i) : std::next(i);
        sym_assert(before == after, "nothing is created or removed");
    }
    check(cfg, want, "after");
    sym_reach(ok ? "accepted" : "not accepted");
}
