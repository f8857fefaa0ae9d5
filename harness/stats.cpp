// Statistics: sums are exact, survive a stream, and are the totals of what is stored.
#include "local.h"
#include <set>
#include "eckit/log/Timer.h"
#include "fdb5/api/FDBStats.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/database/DbStats.h"
#include "fdb5/database/IndexStats.h"
#include "fdb5/toc/TocStats.h"
using namespace fdb5;
void sym_setup() {
    localSetup();
    FDBStats s;
    eckit::Timer t;
    s.addArchive(1, t);
    s.addRetrieve(1, t);
    s.addFlush(t);
}
typedef unsigned long long ull;
struct D {
    ull v[10];
};
static D anyD(bool small) {
    D d;
    for (int i = 0; i < 10; ++i) {
        d.v[i] = sym_any<ull>("db", 1);
        if (small && (i < 2 || i > 6))
            sym_assume(d.v[i] < (1ull << 31));
    }
    return d;
}
static TocDbStats* mk(const D& d) {
    auto* t = new TocDbStats();
    t->dbCount_ = d.v[0];
    t->tocRecordsCount_ = d.v[1];
    t->tocFileSize_ = d.v[2];
    t->schemaFileSize_ = d.v[3];
    t->ownedFilesSize_ = d.v[4];
    t->adoptedFilesSize_ = d.v[5];
    t->indexFilesSize_ = d.v[6];
    t->ownedFilesCount_ = d.v[7];
    t->adoptedFilesCount_ = d.v[8];
    t->indexFilesCount_ = d.v[9];
    return t;
}
static bool is(const DbStatsContent& c, const D& d) {
    auto& t = dynamic_cast<const TocDbStats&>(c);
    return (t.dbCount_ == d.v[0]) & (t.tocRecordsCount_ == d.v[1]) & (t.tocFileSize_ == d.v[2]) & (t.schemaFileSize_ == d.v[3]) & (t.ownedFilesSize_ == d.v[4]) & (t.adoptedFilesSize_ == d.v[5]) & (t.indexFilesSize_ == d.v[6]) &
           (t.ownedFilesCount_ == d.v[7]) & (t.adoptedFilesCount_ == d.v[8]) & (t.indexFilesCount_ == d.v[9]);
}
static D operator+(const D& a, const D& b) {
    D r;
    for (int i = 0; i < 10; ++i)
        r.v[i] = a.v[i] + b.v[i];
    return r;
}
SYM_CASE(databases, "database statistics with ten arbitrary 64-bit counters each, summed in either order and through copies") {
    D a = anyD(false), b = anyD(false), c = anyD(false);
    DbStats x(mk(a)), y(mk(b)), z(mk(c));
    DbStats total(new TocDbStats());
    switch (sym_choice("order", 3)) {
        case 0:
            total += x;
            total += y;
            total.add(z);
            break;
        case 1:
            total.add(z);
            total += y;
            total += x;
            break;
        default:
            y += z;
            total += x;
            total += y;
            b = b + c;
            c = D{};
    }
    sym_assert(is(*total.content_, a + (b + c)), "every counter is the sum");
    sym_assert(is(*x.content_, a) && is(*y.content_, b), "what is added is not changed");
    DbStats copy(x);
    copy = total;
    sym_assert(is(*copy.content_, a + (b + c)), "copy");
    sym_reach("sum");
}
static TocIndexStats* mkI(ull f, ull d, ull fs, ull ds) {
    auto* t = new TocIndexStats();
    t->fieldsCount_ = f;
    t->duplicatesCount_ = d;
    t->fieldsSize_ = fs;
    t->duplicatesSize_ = ds;
    return t;
}
SYM_CASE(indexes, "index statistics with four arbitrary 64-bit counters each: sums, counting of further fields") {
    ull a[4], b[4], n[4];
    for (int i = 0; i < 4; ++i) {
        a[i] = sym_any<ull>("a", 1);
        b[i] = sym_any<ull>("b", 2);
        n[i] = sym_any<ull>("n", 3);
    }
    IndexStats x(mkI(a[0], a[1], a[2], a[3])), y(mkI(b[0], b[1], b[2], b[3]));
    if (sym_bool("add"))
        x.add(y);
    else
        x += y;
    sym_assert((x.addFieldsCount(n[0]) == a[0] + b[0] + n[0]) & (x.addDuplicatesCount(n[1]) == a[1] + b[1] + n[1]) & (x.addFieldsSize(n[2]) == a[2] + b[2] + n[2]) & (x.addDuplicatesSize(n[3]) == a[3] + b[3] + n[3]), "counting");
    sym_assert((x.fieldsCount() == a[0] + b[0] + n[0]) & (x.duplicatesCount() == a[1] + b[1] + n[1]) & (x.fieldsSize() == a[2] + b[2] + n[2]) & (x.duplicatesSize() == a[3] + b[3] + n[3]), "every counter is the sum");
    sym_assert((y.fieldsCount() == b[0]) & (y.duplicatesCount() == b[1]) & (y.fieldsSize() == b[2]) & (y.duplicatesSize() == b[3]), "what is added is not changed");
    sym_reach("sum");
}
SYM_CASE(stream, "statistics of an index and a database sent over a stream; sizes of 64 bits, counts below 2^31") {
    D a = anyD(true);
    ull f = sym_any<ull>("f", 1), d = sym_any<ull>("d", 1), fs = sym_any<ull>("fs", 1), ds = sym_any<ull>("ds", 1);
    sym_assume((f < (1ull << 31)) & (d < (1ull << 31)));
    StatsElement e(IndexStats(mkI(f, d, fs, ds)), DbStats(mk(a)));
    eckit::Buffer b(4096);
    eckit::MemoryStream s(b);
    e.encode(s);
    eckit::MemoryStream r(b.data(), s.position());
    StatsElement g(r);
    sym_assert(r.position() == s.position(), "consumed");
    sym_assert(is(*g.dbStatistics.content_, a), "database counters");
    sym_assert((g.indexStatistics.fieldsCount() == f) & (g.indexStatistics.duplicatesCount() == d) & (g.indexStatistics.fieldsSize() == fs) & (g.indexStatistics.duplicatesSize() == ds), "index counters");
    sym_reach("sent");
}
SYM_CASE(data, "statistics of data files: two sets of up to 3 files with arbitrary 64-bit usage") {
    TocDataStats a, b;
    const char* names[] = {"/a", "/b", "/c"};
    std::map<std::string, size_t> want;
    std::set<std::string> all, act;
    for (auto* s : {&a, &b})
        for (auto n : names) {
            unsigned k = sym_choice("file", 3);  // not there, there, active
            if (!k)
                continue;
            s->allDataFiles_.insert(n);
            all.insert(n);
            if (k == 2) {
                s->activeDataFiles_.insert(n);
                act.insert(n);
            }
            size_t u = sym_any<size_t>("usage", 1);
            s->dataUsage_[n] = u;
            want[n] += u;
        }
    a.add(b);
    sym_assert(a.allDataFiles_.size() == all.size() && a.activeDataFiles_.size() == act.size() && a.dataUsage_.size() == want.size(), "the files of both, once");
    for (auto& n : all)
        sym_assert(a.allDataFiles_.count(n) == 1, "all files");
    for (auto& n : act)
        sym_assert(a.activeDataFiles_.count(n) == 1, "active files");
    for (auto& kv : want)
        sym_assert(a.dataUsage_[kv.first] == kv.second, "usage is the sum");
    sym_reach("sum");
}
SYM_CASE(counters, "archive, retrieve and flush counters: arbitrary 64-bit totals summed; two (deep: three) calls with sizes of 0, 1, 9 or 2^33 bytes and 1 to 3 fields") {
    FDBStats a, b;
    size_t FDBStats::*m[] = {&FDBStats::numArchive_, &FDBStats::numLocation_, &FDBStats::numFlush_, &FDBStats::numRetrieve_, &FDBStats::bytesArchive_, &FDBStats::bytesRetrieve_, &FDBStats::sumBytesArchiveSquared_, &FDBStats::sumBytesRetrieveSquared_};
    size_t va[8], vb[8];
    if (sym_bool("sum")) {
        for (int i = 0; i < 8; ++i) {
            a.*m[i] = va[i] = sym_any<size_t>("a", 1);
            b.*m[i] = vb[i] = sym_any<size_t>("b", 1);
        }
        a.elapsedArchive_ = 1;
        b.elapsedArchive_ = 2;
        a.elapsedRetrieve_ = b.elapsedFlush_ = 4;
        FDBStats c(a);
        c += b;
        bool ok = true, kept = true;
        for (int i = 0; i < 8; ++i) {
            ok &= c.*m[i] == va[i] + vb[i];
            kept &= (a.*m[i] == va[i]) & (b.*m[i] == vb[i]);
        }
        sym_assert(ok, "every counter is the sum");
        sym_assert(kept, "what is added is not changed");
        sym_assert(c.elapsedArchive_ == 3 && c.elapsedRetrieve_ == 4 && c.elapsedFlush_ == 4, "times are the sums");
        sym_assert((c.numArchive() == va[0] + vb[0]) & (c.numLocation() == va[1] + vb[1]) & (c.numFlush() == va[2] + vb[2]), "reported");
        sym_reach("sum");
        return;
    }
    eckit::Timer t;
    t.start();
    t.stop();
    static const size_t sizes[] = {0, 1, 9, 1ull << 33};
    size_t na = 0, nr = 0, nf = 0, nl = 0, ba = 0, br = 0;
    for (int i = 0; i < (deep() ? 3 : 2); ++i) {
        unsigned op = sym_choice("op", 4);
        size_t len = op < 2 ? sizes[sym_choice("size", 4)] : 0;
        unsigned n = op == 0 || op == 3 ? 1 + sym_choice("fields", 3) : 1;
        if (op == 0) {
            a.addArchive(len, t, n);
            na += n;
            ba += len;
        }
        if (op == 1) {
            a.addRetrieve(len, t);
            nr++;
            br += len;
        }
        if (op == 2) {
            a.addFlush(t);
            nf++;
        }
        if (op == 3) {
            a.addLocation(n);
            nl += n;
        }
    }
    sym_assert(a.numArchive() == na && a.numFlush() == nf && a.numLocation() == nl && a.numRetrieve_ == nr && a.bytesArchive_ == ba && a.bytesRetrieve_ == br, "totals of the calls");
}
// a stored database
static const F fields[] = {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}};
static void stored(unsigned steps, unsigned nf, bool subtoc) {
    std::string d = scratch();
    Config base = localConfig(d);
    Config cfg = subtoc ? Config(base, eckit::YAMLConfiguration(std::string("useSubToc: true"))) : base;
    struct W {
        std::map<std::string, std::vector<size_t>> written;  // field -> lengths, by database
    } db[2];
    size_t nArch = 0, nFlush = 0, bytes = 0;
    std::unique_ptr<FDB> fdb(new FDB(cfg));
    bool dirty = false;
    std::map<unsigned, size_t> pending;
    auto flushed = [&] {
        for (auto& p : pending)
            db[fields[p.first].db].written[std::to_string(p.first)].push_back(p.second);
        pending.clear();
        nFlush += dirty;
        dirty = false;
    };
    for (unsigned k = 0; k < steps; ++k) {
        unsigned op = sym_choice("op", nf + 2);
        if (op < nf) {
            std::string b(1 + 5 * k, 'a' + k);
            fdb->archive(mkKey(fieldOf(fields[op].db, fields[op].ix, fields[op].d)), b.data(), b.size());
            pending[op] = b.size();
            dirty = true;
            nArch++;
            bytes += b.size();
        }
        else {
            fdb->flush();
            flushed();
            sym_assert(fdb->stats().numFlush() == nFlush, "flushes that had something to do are counted");
            if (op == nf + 1) {
                fdb.reset(new FDB(cfg));
                nArch = nFlush = bytes = 0;
            }
        }
        FDBStats s = fdb->stats();
        sym_assert(s.numArchive() == nArch && s.bytesArchive_ == bytes, "archived fields and bytes are counted");
    }
    fdb->flush();
    flushed();
    fdb.reset();
    FDB rd(cfg);
    auto it = rd.stats(FDBToolRequest({}, true));
    StatsElement e{IndexStats(), DbStats()};
    unsigned n = 0;
    size_t gotF = 0, gotD = 0, gotFS = 0, gotDS = 0;
    DbStats total(new TocDbStats());
    while (it.next(e)) {
        ++n;
        gotF += e.indexStatistics.fieldsCount();
        gotD += e.indexStatistics.duplicatesCount();
        gotFS += e.indexStatistics.fieldsSize();
        gotDS += e.indexStatistics.duplicatesSize();
        total += e.dbStatistics;
    }
    // what is stored: every file of the databases, and the fields of every index as a full listing gives them
    size_t wantF = 0, wantFS = 0, wantDb = 0, live = 0, liveBytes = 0;
    for (auto& w : db) {
        wantDb += !w.written.empty();
        for (auto& f : w.written) {
            live++;
            liveBytes += f.second.back();
        }
    }
    std::set<std::string> data, index;
    size_t dataBytes = 0, indexBytes = 0, tocBytes = 0, mainBytes = 0, schemaBytes = 0, dirs = 0;
    for (auto& f : fs::recursive_directory_iterator(d + "/root")) {
        std::string p = f.path().string();
        if (f.is_directory()) {
            ++dirs;
            continue;
        }
        size_t sz = f.file_size();
        auto ends = [&](const char* x) { return p.size() > strlen(x) && p.compare(p.size() - strlen(x), std::string::npos, x) == 0; };
        if (ends(".data") && sz) {
            data.insert(p);
            dataBytes += sz;
        }
        else if (ends(".index")) {
            index.insert(p);
            indexBytes += sz;
        }
        else if (ends("/schema"))
            schemaBytes += sz;
        else if (f.path().filename().string().substr(0, 3) == "toc")
            tocBytes += sz, mainBytes += f.path().filename() == "toc" ? sz : 0;
    }
    auto full = listAll(rd, FDBToolRequest({}, true), false, true);
    for (auto& kv : full) {
        wantF++;
        wantFS += kv.second.size();
    }
    auto& t = dynamic_cast<TocDbStats&>(*total.content_);
    sym_assert(n == wantDb && t.dbCount_ == wantDb, "one element per database");
    sym_assert(gotF == wantF && gotFS == wantFS, "fields and their bytes are those listed");
    sym_assert(gotF - gotD == live && gotFS - gotDS == liveBytes, "fields that are not duplicates are the live ones");
    if (wantDb == dirs) {
        sym_assert(t.schemaFileSize_ == schemaBytes, "size of the schemas");
        // sub-TOCs and indexes that are no longer in use stay on disk without being counted
        sym_assert(subtoc ? t.tocFileSize_ >= mainBytes && t.tocFileSize_ <= tocBytes : t.tocFileSize_ == tocBytes, "size of the tables of contents");
        sym_assert(subtoc ? t.indexFilesCount_ <= index.size() && t.indexFilesCount_ >= wantDb && t.indexFilesSize_ <= indexBytes : t.indexFilesCount_ == index.size() && t.indexFilesSize_ == indexBytes, "index files");
        sym_assert(t.ownedFilesCount_ == data.size() && t.ownedFilesSize_ == dataBytes, "data files");
        sym_assert(t.adoptedFilesCount_ == 0 && t.adoptedFilesSize_ == 0, "no adopted files");
        sym_reach("sizes");
    }
    if (gotD)
        sym_reach("duplicates");
}
SYM_CASE(database, "4 (deep: 5) steps, each archiving one of 4 fields (2 databases), flushing, or starting another session; the statistics of all databases against the files stored and what was archived") { stored(deep() ? 5 : 4, 4, false); }
SYM_CASE(database_subtoc, "the same with sub-TOCs, 3 fields") { stored(deep() ? 5 : 4, 3, true); }
