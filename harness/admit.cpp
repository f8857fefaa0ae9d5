// What is admitted to the archive, through the whole of it: several attempts with one FDB, some of which are refused.
#include "local.h"
using namespace fdb5;
void sym_setup() { localSetup(); }
static const char* const schemas[] = {
    "ver: Expver; stp: Integer;\n[ cls, ver [ typ, lev [ par, stp ]]]\n",
    "ver: Expver; stp: Integer;\n[ cls=od, ver [ typ=an/fc, lev? [ par=!x, stp?7 ]]]\n",
    "ver: Expver; stp: Integer;\n[ cls, ver=0001/0002 [ typ, lev=a/c [ par, stp ] ]\n  [ typ, stp, lev=b [ par ]]]\n",
};
// two values and another spelling of the first, how it is stored, and whether it is refused
struct Spelling {
    const char *a, *b, *odd, *stored;
    bool refused;
};
static const std::map<std::string, Spelling> spellings = {{"ver", {"0001", "0002", "1", "1", true}}, {"lev", {"a", "b", "A", "a", false}}, {"stp", {"1", "2", "01", "01", false}}};
static void run(unsigned attempts, bool stepEach) {
    unsigned which = sym_choice("schema", 3);
    std::string dir = scratch();
    Config cfg = localConfig(dir, schemas[which]);
    std::map<std::string, std::string> want;
    std::set<std::string> blurred;  // written under a value in another spelling and then refused
    bool refusals = false;
    {
        FDB fdb(cfg);
        for (unsigned i = 0; i < attempts; ++i) {
            KV kv = {{"cls", "od"}, {"typ", "an"}, {"par", "t"}};
            bool ok = true, spelled = true;
            KV full = kv;
            auto take = [&](const char* kw, bool may) {
                // 0, 1: the values; 2: the first in another spelling; 3: none
                const Spelling& s = spellings.at(kw);
                unsigned c = sym_choice(kw, 4);
                if (c < 2)
                    full[kw] = kv[kw] = c ? s.b : s.a;
                else if (c == 2) {
                    kv[kw] = s.odd;
                    full[kw] = s.stored;
                    spelled &= !s.refused;
                    // (and written; it is the user who is told) of the values of a list only the spelling in the schema fits
                    ok &= which != 2 || !s.refused;
                }
                else
                    ok &= may;
            };
            take("ver", false);
            take("lev", which == 1);
            if (stepEach)
                take("stp", which == 1);
            else
                kv["stp"] = full["stp"] = "1";
            switch (sym_choice("more", which == 1 && i + 1 == attempts ? 5 : 2)) {
                case 1: kv["extra"] = "1"; ok = false; break;
                case 2: kv["cls"] = "rd"; ok = false; break;
                case 3: kv["typ"] = "pf"; ok = false; break;
                case 4: kv["par"] = "x"; ok = false; break;
            }
            std::string data(2 + i, char('a' + i));
            bool refused = throws([&] { fdb.archive(mkKey(kv), data.data(), data.size()); });
            sym_assert(refused == !(ok && spelled), "a field is refused exactly when its key does not fit the schema");
            refusals |= refused;
            if (which == 1) {  // optional: stored without
                full.emplace("lev", "");
                full.emplace("stp", "");
            }
            std::string t = textOf(full);
            if (!refused)
                want[t] = data;
            else if (ok)
                blurred.insert(t);
        }
        fdb.flush();
    }
    FDB fdb(cfg);
    std::map<std::string, std::string> seen;
    auto it = fdb.list(FDBToolRequest({}, true), true);
    ListElement e;
    while (it.next(e)) {
        KV kv = {{"lev", ""}, {"stp", ""}};
        if (which != 1)
            kv.clear();
        for (auto& i : e.combinedKey())
            kv[i.first] = i.second;
        sym_assert(seen.emplace(textOf(kv), readAll(e.location().dataHandle())).second, "once");
    }
    for (auto& w : want) {
        sym_assert(seen.count(w.first), "a field that was accepted is there under its key");
        sym_assert(blurred.count(w.first) || seen[w.first] == w.second, "with its data");
        seen.erase(w.first);
    }
    for (auto& s : seen)
        sym_assert(blurred.count(s.first), "a field that was refused is not there");
    if (refusals && !want.empty())
        sym_reach("both");
}
SYM_CASE(admitted, "3 schemas with typed, restricted, optional and default keywords; 2 attempts (thorough 3, the search cut at the time limit) to archive fields whose database and index keywords are one of two values, one in another spelling or missing, with or without a superfluous keyword or a value that is excluded") { run(deep() ? 3 : 2, false); }
SYM_CASE(datum, "the same with 1 (thorough 2) attempts and a datum keyword of the same kind") { run(deep() ? 2 : 1, true); }
