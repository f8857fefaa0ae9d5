// The records of a table of contents: written and read back through a file of which any prefix is on disk.
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include "local.h"
#include "fdb5/toc/TocHandler.h"
#include "fdb5/toc/TocRecord.h"
using namespace fdb5;

// One file, held in memory. What is there is its first `onDisk` bytes.
static unsigned char content[8192];
static size_t written, onDisk, readAt;
static int theFd = -1;
extern "C" {
ssize_t write(int fd, const void* p, size_t n) {
    if (fd != theFd)
        return syscall(SYS_write, fd, p, n);
    memcpy(content + written, p, n);
    written += n;
    return n;
}
ssize_t read(int fd, void* p, size_t n) {
    if (fd != theFd)
        return syscall(SYS_read, fd, p, n);
    size_t left = onDisk > readAt ? onDisk - readAt : 0;
    if (n > left) {  // n.b. which bytes is of no interest, as they are not a record
        readAt = onDisk;
        return left;
    }
    memcpy(p, content + readAt, n);
    readAt += n;
    return n;
}
}
void sym_setup() {
    setenv("FDB_CACHE_TOCS_ON_READ", "0", 1);
    localSetup();
    throws([] { throw eckit::UserError("x"); });
}
SYM_CASE(records, "up to 3 records of any tag with any 8 bytes at the beginning and the end of a payload of up to 2 blocks, of which any prefix is read back") {
    std::string dir = scratch();
    Config c = localConfig(dir);
    {
        FDB f(c);
        f.archive(mkKey(fieldOf(0, 0, 0)), "abc", 3);
        f.flush();
    }
    TocHandler w(eckit::PathName(dir + "/root/od:0001"), c);
    w.openForAppend();
    theFd = w.fd_;
    written = readAt = 0;
    const size_t H = sizeof(TocRecord::Header), B = TocHandler::recordRoundSize();
    unsigned n = 1 + sym_choice("records", deep() ? 3 : 2);
    std::vector<size_t> starts, sizes;
    std::vector<std::unique_ptr<TocRecord>> recs;
    for (unsigned i = 0; i < n; ++i) {
        const size_t lengths[] = {0, 5, B - H - 1, B - H, B - H + 1, 2 * B - H};
        size_t len = lengths[sym_choice("length", 6)];
        unsigned char tag = sym_any<unsigned char>("tag");
        recs.emplace_back(new TocRecord(w.serialisationVersion().used(), TocRecord::TOC_INDEX));
        TocRecord& r = *recs.back();
        r.header_.tag_ = tag;
        memset(r.payload_, 'p', 2 * B);
        for (size_t k = 0; k < len && k < 4; ++k)
            r.payload_[k] = sym_any<unsigned char>("first");
        for (size_t k = 0; len > 8 && k < 4; ++k)
            r.payload_[len - 4 + k] = sym_any<unsigned char>("last");
        starts.push_back(written);
        sizes.push_back(len);
        w.append(r, len);
        sym_assert(written % B == 0 && written >= starts.back() + H + len && written < starts.back() + H + len + B, "a record takes another number of blocks");
        sym_assert(r.header_.size_ == written - starts.back(), "a record does not say how long it is");
    }
    w.dirty_ = false;
    starts.push_back(written);
    onDisk = sym_range<unsigned>("on disk", 0, 2 * B * 3);
    sym_assume(onDisk <= written);
    std::unique_ptr<TocRecord> r(new TocRecord(w.serialisationVersion().used()));
    for (unsigned i = 0; i <= n; ++i) {
        bool got = false;
        if (throws([&] { got = w.readNext(*r, false); })) {
            sym_assert(i < n && onDisk > starts[i] && onDisk < starts[i + 1], "a record that is there cannot be read");
            sym_reach("torn");
            break;
        }
        if (!got) {
            sym_assert(onDisk == starts[i], "what is there is not reported");
            sym_reach("end");
            break;
        }
        sym_assert(i < n && onDisk >= starts[i + 1], "a record that is not there in full is read");
        sym_assert(memcmp(&r->header_, &recs[i]->header_, H) == 0, "the header differs");
        sym_assert(memcmp(r->payload_, recs[i]->payload_, sizes[i]) == 0, "the payload differs");
        for (size_t k = sizes[i]; k < starts[i + 1] - starts[i] - H; ++k)
            sym_assert(r->payload_[k] == 0, "the rest of the last block is not blank");
        sym_reach("read");
    }
    theFd = -1;
    sym_end_path();
}
SYM_CASE(uncached, "any archive and flush of up to 3 (thorough: 5) steps of 2 writers with or without sub-tables, read by a process that does not keep tables in memory") {
    std::string dir = scratch();
    bool sub = sym_bool("sub tables");
    Config base = localConfig(dir);
    Config c = sub ? Config(base, eckit::YAMLConfiguration(std::string("useSubToc: true"))) : base;
    std::unique_ptr<FDB> f[2] = {std::unique_ptr<FDB>(new FDB(c)), std::unique_ptr<FDB>(new FDB(c))};
    std::map<std::string, std::string> want, pending[2];
    std::map<std::string, KV> keys;
    unsigned n = deep() ? 5 : 3;
    for (unsigned i = 0; i < n; ++i) {
        unsigned w = sym_choice("writer", 2), x = sym_choice("field", 2);
        KV k = fieldOf(0, x, 0);
        std::string data = "data" + std::to_string(i) + textOf(k);
        f[w]->archive(mkKey(k), data.data(), data.size());
        pending[w][textOf(k)] = data;
        keys[textOf(k)] = k;
        if (sym_bool("flush")) {
            f[w]->flush();
            for (auto& p : pending[w])
                want[p.first] = p.second;
            pending[w].clear();
        }
    }
    // With sub tables the newest of one writer comes before that of another, so that only those of one writer are compared
    FDB r(c);
    std::multimap<std::string, std::string> got;
    sym_assert(!throws([&] { got = listAll(r, FDBToolRequest({}, true), true, true); }), "the table of contents cannot be read");
    std::map<std::string, std::string> all(got.begin(), got.end());
    sym_assert(got.size() == want.size() && all.size() == want.size(), "fields are missing or there are more than there should be");
    for (auto& p : want) {
        sym_assert(all.count(p.first), "a flushed field is missing");
        if (!sub) {
            sym_assert(all[p.first] == p.second, "a field is not the one flushed last");
            std::string back;
            sym_assert(!throws([&] { back = readAll(r.retrieve(mkRequest(keys[p.first]))); }), "a flushed field cannot be retrieved");
            sym_assert(back == p.second, "what is retrieved is not what was flushed last");
        }
    }
    sym_reach(sub ? "sub" : "plain");
    sym_end_path();
}
