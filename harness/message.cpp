// Streams of messages archived by MessageArchiver, and the tools that copy fields from one FDB to another
#include "local.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/message/Decoder.h"
#include "eckit/message/Message.h"
#include "eckit/message/MessageContent.h"
#include "eckit/message/Splitter.h"
#include "eckit/option/CmdArgs.h"
#include "eckit/option/SimpleOption.h"
#include "eckit/option/VectorOption.h"
#include "fdb5/api/FDBFactory.h"
#include "fdb5/api/helpers/APIIterator.h"
#include "fdb5/message/MessageArchiver.h"

// ---- the tools without their command line: a base class that keeps what the command line would have said
#define fdb5_tools_FDBVisitTool_H
#define fdb5_FDBTool_H
#define fdb5_tools_FDBTool_H
namespace fdb5 {
class FDBTool {
public:
    FDBTool(int, char**) {}
    virtual ~FDBTool() {}
    virtual void usage(const std::string&) const {}
    virtual void init(const eckit::option::CmdArgs&) {}
    virtual void finish(const eckit::option::CmdArgs&) {}
    virtual void execute(const eckit::option::CmdArgs&) = 0;
    virtual int numberOfPositionalArguments() const { return -1; }
    virtual int minimumPositionalArguments() const { return -1; }
    int start() { return 0; }
    std::vector<eckit::option::Option*> options_;
    bool needsConfig_{true};
};
class FDBToolException : public eckit::Exception {
public:
    FDBToolException(const std::string& w) : Exception(w) {}
};
namespace tools {
class FDBVisitTool : public FDBTool {
public:
    FDBVisitTool(int c, char** v, std::string = std::string()) : FDBTool(c, v) {}
    bool fail() const { return true; }
    std::vector<FDBToolRequest> requests(const std::string& = "retrieve") const { return rqs; }
    std::vector<FDBToolRequest> rqs;
};
}  // namespace tools
}  // namespace fdb5
using namespace eckit::option;
#define main fdb_reindex_main
#include "fdb5/tools/fdb-reindex.cc"
#undef main
#define main fdb_copy_main
#include "fdb5/tools/fdb-copy.cc"
#undef main

// ---- messages of the test: "TE", number of keywords, for each its number, the length of the value and the value; length and payload
static const char* const words[] = {"class", "expver", "type", "levtype", "param", "step"};
static const unsigned NW = 6;
static std::string pack(const KV& kv, const std::string& payload) {
    std::string s = "TE";
    s += (char)kv.size();
    for (unsigned w = 0; w < NW; ++w) {
        auto i = kv.find(words[w]);
        if (i != kv.end()) {
            s += (char)w;
            s += (char)i->second.size();
            s += i->second;
        }
    }
    s += (char)payload.size();
    return s + payload;
}
struct TestContent : eckit::message::MessageContent {
    KV kv;
    std::string payload, raw;
    TestContent(const KV& k, const std::string& p) : kv(k), payload(p), raw(pack(k, p)) {}
    operator bool() const override { return true; }
    size_t length() const override { return raw.size(); }
    const void* data() const override { return raw.data(); }
    std::string getString(const std::string& k) const override { return kv.count(k) ? kv.at(k) : ""; }
    void transform(const eckit::OrderedStringDict& m) override {
        for (auto& i : m)
            kv[i.first] = i.second;
        raw = pack(kv, payload);
    }
    void print(std::ostream& s) const override { s << "TestContent"; }
};
struct TestSplitter : eckit::message::Splitter {
    using Splitter::Splitter;
    unsigned char byte() {
        unsigned char c = 0;
        if (handle_.read(&c, 1) != 1)
            throw eckit::ShortFile("message");
        return c;
    }
    std::string bytes(unsigned n) {
        std::string s;
        while (n--)
            s += (char)byte();
        return s;
    }
    eckit::message::Message next() override {
        unsigned char c;
        if (handle_.read(&c, 1) != 1)
            return eckit::message::Message();
        byte();
        KV kv;
        for (unsigned n = byte(); n; --n) {
            unsigned w = byte();
            unsigned l = byte();
            kv[words[w]] = bytes(l);
        }
        unsigned l = byte();
        return eckit::message::Message(new TestContent(kv, bytes(l)));
    }
    void print(std::ostream& s) const override { s << "TestSplitter"; }
};
struct TestSplitterBuilder : eckit::message::SplitterBuilderBase {
    eckit::message::Splitter* make(eckit::PeekHandle& h) const override { return new TestSplitter(h); }
    bool match(eckit::PeekHandle& h) const override { return h.peek(0) == 'T' && h.peek(1) == 'E'; }
};
struct TestDecoder : eckit::message::MessageDecoder {
    void getMetadata(const eckit::message::Message& m, eckit::message::MetadataGatherer& g, const eckit::message::GetMetadataOptions&) const override {
        for (unsigned w = 0; w < NW; ++w) {
            std::string v = m.getString(words[w]);
            if (!v.empty())
                g.setValue(words[w], v);
        }
    }
    eckit::Buffer decode(const eckit::message::Message&) const override { return eckit::Buffer(1); }
    bool match(const eckit::message::Message& m) const override { return m.length() > 2 && std::memcmp(m.data(), "TE", 2) == 0; }
    void print(std::ostream& s) const override { s << "TestDecoder"; }
};
// ---- an FDB that records
struct Call {
    KV key;
    std::string data;
};
static std::vector<Call> calls;
static unsigned failAt, flushes;
struct Recorder : fdb5::FDBBase {
    Recorder(const fdb5::Config& c, const std::string& n) : FDBBase(c, n) {}
    void archive(const fdb5::Key& k, const void* d, size_t n) override {
        if (calls.size() == failAt)
            throw eckit::UserError("refused");
        Call c;
        for (auto& kv : k)
            c.key[kv.first] = kv.second;
        c.data.assign((const char*)d, n);
        calls.push_back(c);
    }
    void flush() override { ++flushes; }
    fdb5::ListIterator inspect(const metkit::mars::MarsRequest&) override { NOTIMP; }
    fdb5::ListIterator list(const fdb5::FDBToolRequest&, int) override { NOTIMP; }
    fdb5::DumpIterator dump(const fdb5::FDBToolRequest&, bool) override { NOTIMP; }
    fdb5::StatusIterator status(const fdb5::FDBToolRequest&) override { NOTIMP; }
    fdb5::WipeStateIterator wipe(const fdb5::FDBToolRequest&, bool, bool, bool) override { NOTIMP; }
    fdb5::PurgeIterator purge(const fdb5::FDBToolRequest&, bool, bool) override { NOTIMP; }
    fdb5::StatsIterator stats(const fdb5::FDBToolRequest&) override { NOTIMP; }
    fdb5::ControlIterator control(const fdb5::FDBToolRequest&, fdb5::ControlAction, fdb5::ControlIdentifiers) override { NOTIMP; }
    fdb5::AxesIterator axesIterator(const fdb5::FDBToolRequest&, int) override { NOTIMP; }
    fdb5::MoveIterator move(const fdb5::FDBToolRequest&, const eckit::URI&) override { NOTIMP; }
    void print(std::ostream& s) const override { s << "Recorder"; }
};
static fdb5::FDBBuilder<Recorder> recorderBuilder("recorder");

static KV msgKey(unsigned db, unsigned type, unsigned param, const std::string& step = "0") {
    return {{"class", "od"}, {"expver", db ? "0002" : "0001"}, {"type", type ? "fc" : "an"}, {"levtype", "sfc"}, {"param", param ? "168" : "167"}, {"step", step}};
}
static const char* const schemas[] = {"[ class, expver [ type, levtype [ param, step ]]]\n", "[ class, levtype [ param, type [ expver, step ]]]\n"};
static std::string configFile(const std::string& d, const std::string& name, unsigned schema, bool subtoc = false) {
    std::string r = d + "/" + name;
    mkdir(r.c_str(), 0777);
    mkdir((r + "/root").c_str(), 0777);
    writeFile(r + "/schema", schemas[schema]);
    writeFile(r + "/config.yaml", "type: local\nengine: toc\nschema: " + r + "/schema\nspaces:\n- handler: Default\n  roots:\n  - path: " + r + "/root\n");
    return r + "/config.yaml";
}
static void usage(const std::string&) {}
static void runReindex(const std::string& from, const std::string& to, const std::vector<fdb5::FDBToolRequest>& rqs) {
    fdb5::tools::FDBReindex t(0, nullptr);
    t.rqs = rqs;
    CmdArgs args(&usage, t.options_);
    args.set("source-config", from);
    args.set("sink-config", to);
    fdb5::FDBTool& b = t;
    b.init(args);
    b.execute(args);
    b.finish(args);
}
static void runCopy(const std::string& from, const std::string& to, const std::vector<fdb5::FDBToolRequest>& rqs, const std::string& modifiers, bool sort) {
    fdb5::tools::FDBCopy t(0, nullptr);
    t.rqs = rqs;
    CmdArgs args(&usage, t.options_);
    args.set("source", from);
    args.set("target", to);
    args.set("from-list", true);
    if (!modifiers.empty())
        args.set("modifiers", modifiers);
    if (sort)
        args.set("sort", true);
    fdb5::FDBTool& b = t;
    b.init(args);
    b.execute(args);
    b.finish(args);
}
void sym_setup() {
    localSetup();
    static TestSplitterBuilder sb;
    static TestDecoder db;
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm3";
    mkdir(d.c_str(), 0777);
    std::string c1 = configFile(d, "a", 0), c2 = configFile(d, "b", 1), c3 = configFile(d, "c", 1);
    fdb5::FDB fdb(fdb5::Config::make(c1));
    std::string m = pack(msgKey(0, 0, 0), "x");
    fdb.archive(mkKey(msgKey(0, 0, 0)), m.data(), m.size());
    fdb.flush();
    std::vector<fdb5::FDBToolRequest> all{fdb5::FDBToolRequest({}, true)};
    runReindex(c1, c2, all);
    runCopy(c1, c3, {fdb5::FDBToolRequest(mkRequest({{"class", "od"}, {"expver", "0001"}}, "list"), false)}, "expver=0007", false);
    fdb5::MessageArchiver a(fdb5::Key(), false, false, fdb5::Config(eckit::YAMLConfiguration(std::string("type: recorder\n"))));
    a.setFilters("param=167/168,type=an", "step=3");
    failAt = ~0u;
    eckit::MemoryHandle h(m.data(), m.size());
    a.archive(h);
    calls.clear();
}
// ---------------------------------------------------------------- MessageArchiver
struct Filter {
    const char* text;
    std::vector<std::map<std::string, std::set<std::string>>> any;
};
static bool selects(const Filter& f, const KV& k) {
    for (auto& w : f.any[0])
        if (!k.count(w.first) || !w.second.count(k.at(w.first)))
            return false;
    return true;
}
static const std::vector<Filter> filters = {{"", {}}, {"param=167", {{{"param", {"167"}}}}}, {"type=an,param=168", {{{"type", {"an"}}, {"param", {"168"}}}}}, {"class=od,step=0/6", {{{"class", {"od"}}, {"step", {"0", "6"}}}}}, {"type=tf", {{{"type", {"tf"}}}}}};
struct OneByOne : eckit::MemoryHandle {  // counts what is taken from it
    using MemoryHandle::MemoryHandle;
    long taken = 0;
    long read(void* p, long n) override {
        long r = MemoryHandle::read(p, n);
        taken += r > 0 ? r : 0;
        return r;
    }
};
SYM_CASE(archive, "a stream of 1..3 messages of 2 types, 2 parameters and 2 steps; no or any of 4 filters to include and to exclude; no or any of 2 required keys; no or any of 2 sets of modifiers; any of the archive calls may fail, with the rest of the stream consumed or not") {
    unsigned n = 1 + sym_choice("messages", deep() ? 3 : 2);
    std::vector<KV> keys;
    static std::string stream;
    stream.clear();
    std::vector<std::string> pl;
    for (unsigned i = 0; i < n; ++i) {
        unsigned b = sym_choice("message", 8);
        keys.push_back(msgKey(0, b & 1, b >> 1 & 1, b >> 2 ? "3" : "0"));
        pl.push_back("payload" + std::to_string(i));
        stream += pack(keys[i], pl[i]);
    }
    const Filter &inc = filters[sym_choice("include", 5)], &exc = filters[sym_choice("exclude", 5)];
    KV need;
    switch (sym_choice("required", 3)) {
        case 1: need = {{"type", "an"}}; break;
        case 2: need = {{"class", "od"}, {"step", "0"}}; break;
    }
    KV mod;
    switch (sym_choice("modifiers", 3)) {
        case 1: mod = {{"expver", "0009"}}; break;
        case 2: mod = {{"type", "fc"}, {"param", "9"}}; break;
    }
    failAt = sym_choice("failing", n + 1);
    bool complete = failAt < n && sym_choice("complete", 2);
    calls.clear();
    static fdb5::Config cfg;
    cfg = fdb5::Config(eckit::YAMLConfiguration(std::string("type: recorder\n")));
    static OneByOne* src;
    src = new OneByOne(stream.data(), stream.size());
    long total = -1;
    bool threw;
    {
        fdb5::MessageArchiver a(mkKey(need), complete, false, cfg);
        a.setFilters(inc.text, exc.text);
        if (!mod.empty())
            a.setModifiers(mkKey(mod));
        threw = throws([&] { total = a.archive(*src); });
    }
    // what should have happened
    std::vector<Call> want;
    bool err = false;
    long sum = 0;
    for (unsigned i = 0; i < n && !err; ++i) {
        for (auto& w : need)
            if (!keys[i].count(w.first) || keys[i][w.first] != w.second)
                err = true;
        if (err)
            break;
        if (*inc.text && !selects(inc, keys[i]))
            continue;
        if (*exc.text && selects(exc, keys[i]))
            continue;
        if (want.size() == failAt) {
            err = true;
            break;
        }
        Call c;
        c.key = keys[i];
        for (auto& m : mod)
            c.key[m.first] = m.second;
        c.data = pack(c.key, pl[i]);
        sum += c.data.size();
        want.push_back(c);
    }
    sym_assert(threw == err, "archiving fails exactly if a message is not of the required key or the FDB refuses one");
    sym_assert(err || total == sum, "the length returned is that of what was archived");
    sym_assert(calls.size() == want.size(), "each message that the filters let through is archived once");
    for (size_t i = 0; i < want.size(); ++i)
        sym_assert(calls[i].key == want[i].key && calls[i].data == want[i].data, "in the order of the stream, as modified, under the key of what is archived");
    if (!err || complete)
        sym_assert(src->taken == (long)stream.size(), "the stream is consumed to its end");
    if (err)
        sym_reach("failed");
    if (want.size() < n && !err)
        sym_reach("filtered");
}
// ---------------------------------------------------------------- the tools
static std::string listKey(const KV& kv) { return textOf(kv); }
typedef std::map<unsigned, std::string> Fields;  // field (bit 0 database, 1 type, 2 param) -> bytes
static KV keyOf(unsigned f) { return msgKey(f & 1, f >> 1 & 1, f >> 2 & 1); }
static std::multimap<std::string, std::string> asList(const Fields& c) {
    std::multimap<std::string, std::string> m;
    for (auto& i : c)
        m.emplace(listKey(keyOf(i.first)), i.second);
    return m;
}
static void fill(const std::string& config, unsigned n, unsigned nf, Fields& c, const char* tag) {
    std::unique_ptr<fdb5::FDB> fdb(new fdb5::FDB(fdb5::Config::make(config)));
    for (unsigned k = 0; k < n; ++k) {
        unsigned f = sym_choice("field", nf);
        if (k)
            switch (sym_choice("session", 3)) {
                case 2: fdb->flush(); fdb.reset(new fdb5::FDB(fdb5::Config::make(config))); break;
                case 1: fdb->flush();
            }
        std::string b = pack(keyOf(f), tag + std::to_string(k) + std::string(3 * k, 'x'));
        fdb->archive(mkKey(keyOf(f)), b.data(), b.size());
        c[f] = b;
    }
    fdb->flush();
}
static std::vector<fdb5::FDBToolRequest> requestsFor(unsigned r) {
    std::vector<fdb5::FDBToolRequest> v;
    auto add = [&](const KV& kv) { v.push_back(fdb5::FDBToolRequest(mkRequest(kv, "list"), false)); };
    switch (r) {
        case 0: v.push_back(fdb5::FDBToolRequest({}, true)); break;
        case 1: add({{"class", "od"}, {"expver", "0001"}}); break;
        case 2: add({{"class", "od"}, {"type", "an"}}); add({{"class", "od"}, {"expver", "0001"}}); break;
        case 3: add({{"class", "od"}, {"expver", "0001"}, {"param", "168"}}); break;
    }
    return v;
}
static bool chosen(unsigned r, unsigned f) {
    bool db0 = !(f & 1), an = !(f & 2), p168 = f & 4;
    return r == 0 || (r == 1 && db0) || (r == 2 && (db0 || an)) || (r == 3 && db0 && p168);
}
static void checkSink(const std::string& config, const Fields& want, unsigned nf) {
    fdb5::FDB rd(fdb5::Config::make(config));
    sym_assert(listAll(rd, fdb5::FDBToolRequest({}, true), true, true) == asList(want), "the target lists exactly its own and the selected fields, with their last bytes");
    for (unsigned f = 0; f < nf; ++f) {
        std::string got;
        bool t = throws([&] { got = readAll(rd.retrieve(mkRequest(keyOf(f)))); });
        sym_assert(want.count(f) ? !t && got == want.at(f) : t || got.empty(), "and retrieves them");
    }
}
SYM_CASE(reindex, "2 (thorough 3) archives of 8 fields (4 in the second half of it) in the source in one or more sessions, none or one in the sink before; sink of the same or another schema; all, one database, two overlapping requests or one parameter; then one more archive in the source and again") {
    std::string d = scratch();
    unsigned schema = sym_choice("schema", 2);
    std::string from = configFile(d, "source", 0), to = configFile(d, "sink", schema);
    Fields src, own;
    const unsigned nf = 8;
    unsigned r = sym_choice("requests", 4);
    if (sym_choice("before", 2)) {
        fdb5::FDB fdb(fdb5::Config::make(to));
        std::string b = "own";
        fdb.archive(mkKey(keyOf(0)), b.data(), b.size());
        fdb.flush();
        own[0] = b;
    }
    fill(from, deep() ? 3 : 2, nf, src, "data");
    for (unsigned round = 0; round < 2; ++round) {
        auto before = snapshot(d + "/source");
        auto data = [&] {
            std::map<std::string, std::string> m;
            for (auto& s : snapshot(d + "/sink"))
                if (s.first.size() > 5 && s.first.compare(s.first.size() - 5, 5, ".data") == 0)
                    m.insert(s);
            return m;
        };
        auto sinkData = data();
        bool threw = throws([&] { runReindex(from, to, requestsFor(r)); });
        sym_assert(!threw, "reindexing succeeds");
        sym_assert(snapshot(d + "/source") == before, "the source is unchanged");
        sym_assert(data() == sinkData, "no data is copied");
        for (auto& f : src)
            if (chosen(r, f.first))
                own[f.first] = f.second;
        checkSink(to, own, nf);
        if (!round)
            fill(from, 1, nf, src, "more");
    }
}
SYM_CASE(copy, "2 (thorough 3) archives of 8 fields in the source in one or more sessions, none or one in the target before; target of the same or another schema; all, one database, two overlapping requests or one parameter; with another experiment or not, sorted or not") {
    std::string d = scratch();
    unsigned schema = sym_choice("schema", 2);
    std::string from = configFile(d, "source", 0), to = configFile(d, "sink", schema);
    Fields src, own;
    const unsigned nf = 8;
    unsigned r = sym_choice("requests", 4);
    bool mod = r != 0 && r != 2 && sym_choice("modified", 2), sort = sym_choice("sorted", 2);
    if (sym_choice("before", 2)) {
        fdb5::FDB fdb(fdb5::Config::make(to));
        std::string b = "own";
        fdb.archive(mkKey(keyOf(0)), b.data(), b.size());
        fdb.flush();
        own[0] = b;
    }
    fill(from, deep() ? 3 : 2, nf, src, "data");
    auto before = snapshot(d + "/source");
    bool any = false;
    for (auto& f : src)
        if (chosen(r, f.first)) {
            any = true;
            if (!mod)
                own[f.first] = f.second;
            else {
                KV k = keyOf(f.first);
                KV m = keyOf(f.first | 1);
                std::string b = f.second;
                size_t at = pack(k, "").size() - 1;
                own[f.first | 1] = pack(m, b.substr(at + 1));
            }
        }
    bool threw = throws([&] { runCopy(from, to, requestsFor(r), mod ? "expver=0002" : "", sort); });
    if (!any)
        sym_reach("nothing to copy");
    else
        sym_assert(!threw, "copying succeeds");
    sym_assert(snapshot(d + "/source") == before, "the source is unchanged");
    checkSink(to, own, nf);
}
