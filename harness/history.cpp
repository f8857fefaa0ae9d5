#include "local.h"
#include "fdb5/api/helpers/StatsIterator.h"
using namespace fdb5;
void sym_setup() { localSetup(); }
// the fields used: two databases, two indexes, two data
static const F fields[] = {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}};
struct Model {
    std::map<std::string, std::string> last;            // newest bytes per field
    std::multimap<std::string, std::string> all;        // everything archived
    std::map<std::string, std::string> pending;
    std::vector<std::pair<std::string, std::string>> pendingAll;
    unsigned n = 0;
    size_t listed = 0;  // without sub-tables: each field once per flush it was archived before
    std::string next() {
        std::string s = "data" + std::to_string(n) + std::string(n * 7, 'a' + n);
        ++n;
        return s;
    }
};
static void check(const Config& cfg, const Model& m, unsigned nf, bool count) {
    FDB rd(cfg);
    auto dd = listAll(rd, FDBToolRequest({}, true), true, true);
    std::multimap<std::string, std::string> want(m.last.begin(), m.last.end());
    sym_assert(dd == want, "a deduplicated list shows each flushed field once, with the bytes last archived");
    auto full = listAll(rd, FDBToolRequest({}, true), false, true);
    for (auto& e : full) {
        bool found = false;
        auto r = m.all.equal_range(e.first);
        for (auto i = r.first; i != r.second; ++i)
            found = found || i->second == e.second;
        sym_assert(found, "a full list shows only what was archived");
    }
    if (count)
        sym_assert(full.size() == m.listed, "a full list shows each flushed version once");
    for (unsigned i = 0; i < nf; ++i) {
        KV kv = fieldOf(fields[i].db, fields[i].ix, fields[i].d);
        auto it = m.last.find(textOf(kv));
        std::string got;
        bool t = throws([&] { got = readAll(rd.retrieve(mkRequest(kv))); });
        if (it == m.last.end())
            sym_assert(t || got.empty(), "a field never archived is not found");
        else
            sym_assert(!t && got == it->second, "retrieve gives the bytes last archived");
        auto in = rd.inspect(mkRequest(kv));
        ListElement e;
        unsigned n = 0;
        while (in.next(e)) {
            ++n;
            sym_assert(it != m.last.end() && readAll(e.location().dataHandle()) == it->second, "inspect points to the bytes last archived");
        }
        sym_assert(n == (it == m.last.end() ? 0 : 1), "inspect finds a field once");
    }
}
static void run(unsigned steps, unsigned nf, bool subtocs, bool midcheck) {
    std::string d = scratch();
    Config cfg = subtocs ? Config(localConfig(d), eckit::YAMLConfiguration(std::string("useSubToc: true"))) : localConfig(d);
    Model m;
    std::unique_ptr<FDB> fdb(new FDB(cfg));
    auto flushed = [&] {
        std::set<std::string> keys;
        for (auto& p : m.pendingAll) {
            m.all.insert(p);
            m.last[p.first] = p.second;
            keys.insert(p.first);
        }
        m.listed += keys.size();
        m.pendingAll.clear();
    };
    for (unsigned k = 0; k < steps; ++k) {
        unsigned op = sym_choice("op", nf + 2);
        if (op < nf) {
            KV kv = fieldOf(fields[op].db, fields[op].ix, fields[op].d);
            std::string b = m.next();
            fdb->archive(mkKey(kv), b.data(), b.size());
            m.pendingAll.push_back({textOf(kv), b});
        }
        else {
            fdb->flush();
            flushed();
            if (op == nf + 1) {
                sym_reach("another session");
                fdb.reset();
                fdb.reset(new FDB(cfg));
            }
            if (midcheck)
                check(cfg, m, nf, !subtocs);
        }
    }
    fdb->flush();
    flushed();
    check(cfg, m, nf, !subtocs);
}
SYM_CASE(sequences, "every sequence of 4 (thorough 5) operations out of: archive one of 4 fields (2 databases, 2 indexes, 2 data) with new bytes, flush, flush and start a new session; then flush and read by another FDB object") {
    run(deep() ? 5 : 4, 4, false, false);
}
SYM_CASE(sequences_subtoc, "as sequences with sub-TOCs: 3 (thorough 5) operations") { run(deep() ? 5 : 3, 4, true, false); }
SYM_CASE(flush_points, "3 (thorough 4) operations, everything read back after every flush") { run(deep() ? 4 : 3, 4, false, true); }
SYM_CASE(two_writers, "2 sessions writing the same and different fields alternately with sub-TOCs or not, each flushing 1..2 times, in any order") {
    std::string d = scratch();
    bool sub = sym_choice("subtoc", 2);
    Config base = localConfig(d);
    Config cfg = sub ? Config(base, eckit::YAMLConfiguration(std::string("useSubToc: true"))) : base;
    Model m;
    FDB a(cfg), b(cfg);
    FDB* w[2] = {&a, &b};
    std::vector<std::pair<std::string, std::string>> pend[2];
    for (unsigned k = 0; k < (deep() ? 4u : 3u); ++k) {
        unsigned who = sym_choice("writer", 2), what = sym_choice("field", 2);
        KV kv = fieldOf(0, what, 0);
        std::string bts = m.next();
        w[who]->archive(mkKey(kv), bts.data(), bts.size());
        pend[who].push_back({textOf(kv), bts});
        if (sym_choice("flush", 2)) {
            w[who]->flush();
            for (auto& p : pend[who]) {
                m.all.insert(p);
                m.last[p.first] = p.second;
            }
            pend[who].clear();
        }
    }
    for (unsigned i = 0; i < 2; ++i) {
        w[i]->flush();
        for (auto& p : pend[i])
            m.all.insert(p);
    }
    FDB rd(cfg);
    // without an order between the sessions each field must be one of those archived, and be there
    auto dd = listAll(rd, FDBToolRequest({}, true), true, true);
    std::map<std::string, std::string> keys(m.all.begin(), m.all.end());
    sym_assert(dd.size() == keys.size(), "every field of both sessions is listed once");
    for (auto& e : dd) {
        bool found = false;
        auto r = m.all.equal_range(e.first);
        for (auto i = r.first; i != r.second; ++i)
            found = found || i->second == e.second;
        sym_assert(found, "with bytes archived under that key");
    }
    for (unsigned i = 0; i < 2; ++i) {
        KV kv = fieldOf(0, i, 0);
        auto it = dd.find(textOf(kv));
        if (it != dd.end())
            sym_assert(readAll(rd.retrieve(mkRequest(kv))) == it->second, "retrieve agrees with the list");
    }
}
