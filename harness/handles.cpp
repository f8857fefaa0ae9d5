#include "local.h"
#include "fdb5/api/helpers/APIIterator.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/io/FDBFileHandle.h"
#include "fdb5/io/FieldHandle.h"
#include "fdb5/io/HandleGatherer.h"
#include "fdb5/toc/TocFieldLocation.h"
using namespace fdb5;
void sym_setup() {
    localSetup();
    throws([] { throw eckit::UserError("x"); });
}
// a field's data: one that can be read again from any position, or one that delivers each byte once (a connection)
enum Failure { None, Short, Error, Throws, CannotOpen };
struct Part : eckit::DataHandle {
    std::string data;
    bool once;
    long chunk;
    Failure failure;
    long failAt;
    bool open = false;
    long pos = 0;
    Part(const std::string& d, bool o, long c, Failure f, long fa) : data(d), once(o), chunk(c), failure(f), failAt(fa) {}
    void print(std::ostream& s) const override { s << "Part"; }
    eckit::Length openForRead() override {
        if (failure == CannotOpen)
            throw eckit::CantOpenFile("part");
        sym_assert(!open || once, "a part is not opened twice");
        open = true;
        if (!once)
            pos = 0;
        return data.size();
    }
    long read(void* b, long n) override {
        sym_assert(open, "a part is open when it is read");
        if (failure != None && pos >= failAt) {
            if (failure == Throws)
                throw eckit::ReadError("part");
            return failure == Short ? 0 : -1;
        }
        long end = failure != None ? failAt : (long)data.size();
        n = std::min({n, chunk, end - pos});
        memcpy(b, data.data() + pos, n);
        pos += n;
        return n;
    }
    void close() override {
        sym_assert(open || once, "a part is open when it is closed");
        open = false;
    }
    void rewind() override { seek(0); }
    bool canSeek() const override { return !once; }
    eckit::Offset position() override { return pos; }
    eckit::Offset seek(const eckit::Offset& o) override {
        sym_assert(!once && open, "only open parts that can be are moved in");
        pos = (long long)o;
        return o;
    }
    eckit::Length size() override { return data.size(); }
    eckit::Length estimate() override { return data.size(); }
};
struct PartLocation : FieldLocation {
    Part p;
    static int alive;
    PartLocation(const Part& q) : FieldLocation(eckit::URI("file", eckit::PathName("/f")), eckit::Offset(0), eckit::Length(q.data.size()), Key()), p(q.data, q.once, q.chunk, q.failure, q.failAt) {}
    eckit::DataHandle* dataHandle() const override { return new Part(p.data, p.once, p.chunk, p.failure, p.failAt); }
    std::shared_ptr<const FieldLocation> make_shared() const override { return std::make_shared<PartLocation>(p); }
    void visit(FieldLocationVisitor&) const override {}
};
struct Source : APIIteratorBase<ListElement> {
    std::vector<ListElement> v;
    size_t at = 0;
    bool next(ListElement& e) override {
        if (at == v.size())
            return false;
        e = v[at++];
        return true;
    }
    void add(std::shared_ptr<const FieldLocation> l) {
        Key db, ix, da;
        db.set("cls", "od");
        ix.set("typ", "an");
        da.set("par", std::to_string(v.size()));
        v.push_back(ListElement(db, ix, da, std::move(l), 0));
    }
};
static std::unique_ptr<FieldHandle> handleOf(Source* s) {
    ListIterator it{APIIterator<ListElement>(s)};
    return std::unique_ptr<FieldHandle>(new FieldHandle(it));
}
static std::string bytes(unsigned part, unsigned n) {
    std::string s;
    for (unsigned i = 0; i < n; ++i)
        s += char('A' + part * 8 + i);
    return s;
}
struct Model {
    std::string all;
    std::vector<long> starts;  // of the parts, and the end
    bool once = false;
    long pos = 0;
    long partStart(long p) const {  // the last, or the end, that is at or before p
        long r = 0;
        for (size_t i = 0; i < starts.size(); ++i)
            if (starts[i] <= p)
                r = starts[i];
        return r;
    }
};
static void readSome(FieldHandle& h, Model& m, long n) {
    char b[64];
    memset(b, '#', sizeof b);
    long got = h.read(b, n);
    long want = std::min(n, (long)m.all.size() - m.pos);
    sym_assert(got == want, "read delivers as many bytes as are asked for and left");
    sym_assert(std::string(b, got) == m.all.substr(m.pos, got), "read delivers the bytes at the position");
    sym_assert(b[got] == '#', "and writes no further");
    m.pos += got;
}
SYM_CASE(parts, "1..3 fields of 1..2 (thorough 3) bytes, each of which can be read again or only once, delivered 1 (or all) bytes at a time; 0..3 operations (1 with 3 fields; thorough 3; read 1 or 3 bytes (thorough 1..3), seek anywhere, rewind, skip) and then reading the rest or closing: as if the concatenation were read; a refused movement leaves the position; closed and opened again") {
    unsigned n = 1 + sym_choice("parts", 3), big = deep() ? 3 : 2;
    auto* src = new Source;
    Model m;
    long chunk = deep() && sym_choice("chunk", 2) ? 99 : 1;
    for (unsigned i = 0; i < n; ++i) {
        std::string d = bytes(i, 1 + sym_choice("length", big));
        bool once = sym_choice("once", 2);
        m.starts.push_back(m.all.size());
        m.all += d;
        m.once |= once;
        src->add(std::make_shared<PartLocation>(Part(d, once, chunk, None, 0)));
    }
    m.starts.push_back(m.all.size());
    auto h = handleOf(src);
    long total = m.all.size();
    sym_assert((long long)h->size() == total && (long long)h->estimate() == total, "size");
    sym_assert((long long)h->openForRead() == total, "size when opened");
    bool rest = true;
    for (unsigned i = 0; i < (deep() || n < 3 ? 3 : 1); ++i) {
        unsigned op = sym_choice("op", 5);
        if (op == 0) {
            rest = false;
            break;
        }
        bool refused = false;
        if (op == 1)
            readSome(*h, m, deep() ? 1 + sym_choice("n", 3) : sym_choice("n", 2) ? 3 : 1);
        else {
            long to = op == 2 ? sym_choice("to", total + 1) : op == 3 ? 0 : m.pos + (long)sym_choice("by", total - m.pos + 1);
            refused = throws([&] {
                if (op == 2)
                    sym_assert((long long)h->seek(eckit::Offset(to)) == to, "seek tells the position");
                else if (op == 3)
                    h->rewind();
                else
                    h->skip(eckit::Length(to - m.pos));
            });
            if (refused)
                sym_assert(m.once && to < m.partStart(m.pos), "only moving back to an earlier field is refused, if a field can only be read once");
            else
                m.pos = to;
        }
        sym_assert((long long)h->position() == m.pos, "position");
    }
    if (rest) {
        readSome(*h, m, 20);
        sym_assert(m.pos == total && (long long)h->position() == total, "to the end");
        readSome(*h, m, 2);
    }
    h->close();
    if (!m.once) {
        sym_assert((long long)h->openForRead() == total, "opened again");
        m.pos = 0;
        sym_assert((long long)h->position() == 0, "position at the beginning");
        readSome(*h, m, 20);
        sym_reach("again");
    }
}
SYM_CASE(failing, "3 fields of 1..2 bytes, one of which (read again or once) is too short, fails with an error code, with an exception or when opened, reading 1..6 bytes at a time: what is delivered is the beginning, and the failure is reported") {
    auto* src = new Source;
    std::string all;
    unsigned bad = sym_choice("bad", 3);
    Failure f = Failure(1 + sym_choice("failure", 4));
    size_t good = 0;
    for (unsigned i = 0; i < 3; ++i) {
        std::string d = bytes(i, 1 + sym_choice("length", 2));
        long at = i == bad ? sym_choice("at", d.size()) : 0;
        if (i == bad)
            good = all.size() + (f == CannotOpen ? 0 : at);
        all += d;
        src->add(std::make_shared<PartLocation>(Part(d, sym_choice("once", 2), 99, i == bad ? f : None, at)));
    }
    auto h = handleOf(src);
    long n = 1 + sym_choice("n", 6);
    std::string got;
    bool failed = throws([&] {
        h->openForRead();
        char b[8];
        for (;;) {
            long r = h->read(b, n);
            if (r <= 0)
                break;
            got += std::string(b, r);
            sym_assert(got.size() <= all.size(), "no more than there is");
        }
    });
    sym_assert(failed, "a field that cannot be read is not left out");
    sym_assert(got.size() <= good && got == all.substr(0, got.size()), "the beginning is delivered");
    sym_assert(got.size() + n > good || f == CannotOpen || got.size() + 2 * n > good, "what could be read is");
}
SYM_CASE(files, "2 files of 3 fields (1..3 bytes), 1..3 (thorough 4) of them asked for in any order, the same one more than once too (unless sorted), by the handle that reads in order (one that can seek, or one that merges) and the one that sorts; one file possibly cut off anywhere: every field asked for once, or an error") {
    auto dir = scratch();
    std::string f[2];
    std::vector<std::string> data[2];
    for (unsigned i = 0; i < 2; ++i)
        for (unsigned k = 0; k < 3; ++k) {
            data[i].push_back(std::string(1 + (i + k) % 3, char('a' + i * 3 + k)));
            f[i] += data[i].back();
        }
    unsigned cut = sym_choice("cut", f[0].size() + 1);
    writeFile(dir + "/0", f[0].substr(0, cut));
    writeFile(dir + "/1", f[1]);
    unsigned n = 1 + sym_choice("fields", deep() ? 4 : 3);
    unsigned how = sym_choice("how", 3);
    auto* src = new Source;
    std::string want;
    bool beyond = false;
    std::vector<std::pair<int, int>> asked;
    std::vector<int> files;
    HandleGatherer g(how == 2);
    for (unsigned i = 0; i < n; ++i) {
        unsigned w = sym_choice("field", 6), a = w / 3, k = w % 3;
        unsigned off = 0;
        for (unsigned j = 0; j < k; ++j)
            off += data[a][j].size();
        want += data[a][k];
        if (a == 0)
            beyond |= off + data[a][k].size() > cut;
        if (how == 2)  // sorting keeps one of the same
            for (auto& x : asked)
                sym_assume(!(x.first == (int)a && x.second == (int)k));
        asked.emplace_back(a, k);
        if (std::find(files.begin(), files.end(), a) == files.end())
            files.push_back(a);
        auto l = std::make_shared<TocFieldLocation>(eckit::PathName(dir + "/" + char('0' + a)), eckit::Offset(off), eckit::Length(data[a][k].size()), Key());
        if (how == 0)
            src->add(l);
        else
            g.add(l->dataHandle());
    }
    if (how == 2) {
        want.clear();
        for (int a : files)
            for (unsigned k = 0; k < 3; ++k)
                for (auto& x : asked)
                    if (x.first == a && x.second == (int)k)
                        want += data[a][k];
    }
    std::unique_ptr<eckit::DataHandle> h;
    if (how == 0)
        h = handleOf(src);
    else {
        delete src;
        h.reset(g.dataHandle());
    }
    std::string got;
    long r = 0;
    long step = 1 + sym_choice("step", 3);
    bool failed = throws([&] {
        sym_assert((long long)h->openForRead() == (long long)want.size(), "size");
        char b[8];
        while ((r = h->read(b, step)) > 0)
            got += std::string(b, r);
        h->close();
    });
    if (failed || r < 0)
        sym_assert(beyond, "whole files can be read");
    else
        sym_assert(!beyond && got == want, "the fields, in the order asked for (or sorted within their file)");
}
SYM_CASE(append, "a file of 0..2 bytes opened for appending by a writer with a buffer of 1..4 bytes: 3 (thorough 4) operations (write 1..5 bytes, flush, close and open again): every write is where the position said, what was flushed or closed is in the file") {
    auto dir = scratch();
    std::string path = dir + "/data", all = std::string(sym_choice("before", 3), '.');
    if (!all.empty() || sym_choice("exists", 2))
        writeFile(path, all);
    FDBFileHandle h(path, 1 + sym_choice("buffer", 4));
    auto content = [&] {
        std::ifstream in(path);
        return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    };
    h.openForAppend(0);
    size_t safe = all.size();
    for (unsigned i = 0; i < (deep() ? 4 : 3); ++i) {
        unsigned op = sym_choice("op", 3);
        if (op == 0) {
            sym_assert((long long)h.position() == (long long)all.size(), "position before a write");
            std::string d = bytes(i, 1 + sym_choice("n", 5));
            sym_assert(h.write(d.data(), d.size()) == (long)d.size(), "all is written");
            all += d;
        }
        else {
            if (op == 1)
                h.flush();
            else {
                h.close();
                h.openForAppend(0);
            }
            safe = all.size();
        }
        std::string c = content();
        sym_assert(c.size() >= safe && c == all.substr(0, c.size()), "what is in the file is a beginning that holds what was flushed");
    }
    h.close();
    sym_assert(content() == all, "all is in the file when closed");
}
