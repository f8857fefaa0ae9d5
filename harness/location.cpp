#include "local.h"
#include "eckit/net/Endpoint.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "fdb5/database/Field.h"
#include "fdb5/database/UriStore.h"
#include "fdb5/remote/RemoteFieldLocation.h"
#include "fdb5/toc/FieldRef.h"
#include "fdb5/toc/TocFieldLocation.h"
using namespace fdb5;
using fdb5::remote::RemoteFieldLocation;
void sym_setup() {
    harnessInit();
    eckit::URI u("file", eckit::PathName("/x/y"));
    u.asRawString();
}
static const char* const fileNames[] = {"/r/d/an:sfc.1.data", "/r/d/fc:sfc.2.data", "/r/e/an:sfc.1.data", "/r/d/f", "/r/an:sfc.1.data", "/r/d/d/f"};
static std::shared_ptr<const FieldLocation> loc(const std::string& p, long long off, long long len) {
    return std::make_shared<TocFieldLocation>(eckit::PathName(p), eckit::Offset(off), eckit::Length(len), Key());
}
SYM_CASE(refs, "3 (thorough 4) fields in any of 4 files inside and outside the index directory, any offsets and lengths of 63 bits; through index references and the encoded file table") {
    unsigned n = deep() ? 4 : 3;
    UriStore store(eckit::PathName("/r/d"));
    std::vector<unsigned> file(n);
    std::vector<long long> off(n), len(n);
    std::vector<FieldRef> refs;
    std::vector<FieldRefReduced> red;
    for (unsigned i = 0; i < n; ++i) {
        file[i] = sym_choice("file", 4);
        off[i] = sym_any<long long>("offset", i * 100);
        len[i] = sym_any<long long>("length", 7 + i);
        sym_assume(off[i] >= 0 && len[i] >= 0);
        Field f(loc(fileNames[file[i]], off[i], len[i]), 0);
        refs.emplace_back(store, f);
        red.emplace_back(refs.back());
    }
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j)
            sym_assert((refs[i].uriId() == refs[j].uriId()) == (file[i] == file[j]), "files and numbers correspond one to one");
    sym_assert(store.paths().size() == std::set<unsigned>(file.begin(), file.end()).size(), "the table has exactly the files inserted");
    eckit::Buffer b(4096);
    eckit::MemoryStream out(b);
    store.encode(out);
    out.rewind();
    UriStore back(eckit::PathName("/r/d"), out);
    sym_assert(throws([&] { back.insert(eckit::URI("file", eckit::PathName("/n"))); }), "a table that was read is not written to");
    for (unsigned i = 0; i < n; ++i)
        for (unsigned k = 0; k < 3; ++k) {
            FieldRef r = k == 1 ? FieldRef(red[i]) : refs[i];
            TocFieldLocation l(k == 2 ? store : back, r);
            sym_assert(l.uri().path().asString() == fileNames[file[i]] && l.uri().scheme() == "file", "the reference resolves to the file");
            sym_assert((long long)l.offset() == off[i] && (long long)l.length() == len[i], "and to the same bytes");
            sym_assert(l.remapKey().empty(), "without a key to remap");
        }
}
static const char* const words[] = {"an", "file", "unix", "fdb", "toc", "daos", "fam", "http", "mars", "0001", "a.b", "data"};
SYM_CASE(names, "data files whose names start with any of 12 words or 2 characters found in values, in the index directory, below or beside it") {
    unsigned w = sym_choice("word", 13);
    std::string first = w < 12 ? words[w] : symStr("chars", 2, 2, [](unsigned char c) { return (unsigned(c - 'a') < 3u) | (unsigned(c - '0') < 2u) | (c == '-') | (c == '_') | (c == '.'); });
    std::string dir = sym_choice("dir", 3) == 0 ? "/r/d" : sym_bool("below") ? "/r/d/e" : "/r/od:0001";
    std::string p = dir + "/" + first + ":sfc.20200101.000000.host.123.data";
    UriStore store(eckit::PathName("/r/d"));
    auto other = store.insert(eckit::URI("file", eckit::PathName("/r/d/x.data")));
    auto id = store.insert(eckit::URI("file", eckit::PathName(p)));
    sym_assert(id != other && store.insert(eckit::URI("file", eckit::PathName(p))) == id, "one number per file");
    eckit::Buffer b(4096);
    eckit::MemoryStream out(b);
    store.encode(out);
    out.rewind();
    UriStore back(eckit::PathName("/r/d"), out);
    sym_assert(back.get(id).path().asString() == p, "the number resolves to the file it was given to");
    sym_assert(back.get(other).path().asString() == "/r/d/x.data", "and so does the other");
    sym_assert(back.paths().size() == 2, "nothing else");
    TocFieldLocation l(eckit::PathName(p), eckit::Offset(5), eckit::Length(6), Key());
    TocFieldLocation r(eckit::URI(l.fullUri().asRawString()));
    sym_assert(r.uri().path().asString() == p && (long long)r.offset() == 5 && (long long)r.length() == 6, "through a URI as text");
}
// stored sizes: around the places where a narrower type would wrap
static long long wide(const char* name) {
    static const long long base[] = {0, 0x7ffffffell, 0xfffffffell, (1ll << 53) - 2, 0x7ffffffffffffff0ll};
    return base[sym_choice(name, 5)] + sym_choice("plus", 4);
}
static Key remap() {
    Key k;
    unsigned n = sym_choice("remap", 3);
    if (n > 0)
        k.set("expver", "000" + std::to_string(1 + sym_choice("v", 2)));
    if (n > 1)
        k.set("class", "rd");
    return k;
}
SYM_CASE(streams, "file and remote locations (also of a server in front) with any offset and length of 63 bits and 0..2 keys to remap; streamed and reanimated") {
    unsigned kind = sym_choice("kind", 3);
    long long off = sym_any<long long>("offset", 3), len = sym_any<long long>("length", 5);
    sym_assume(off >= 0 && len > 0);
    Key k = remap();
    TocFieldLocation t(eckit::PathName(fileNames[sym_choice("file", 3)]), eckit::Offset(off), eckit::Length(len), k);
    std::unique_ptr<FieldLocation> l;
    eckit::net::Endpoint ep("host", 7654);
    if (kind == 0)
        l.reset(new TocFieldLocation(t));
    if (kind == 1)
        l.reset(new RemoteFieldLocation(ep, t));
    if (kind == 2)
        l.reset(new RemoteFieldLocation(eckit::net::Endpoint("other", 1234), RemoteFieldLocation(ep, t)));
    eckit::Buffer b(4096);
    eckit::MemoryStream out(b);
    out << *l;
    out.rewind();
    std::unique_ptr<FieldLocation> r(eckit::Reanimator<FieldLocation>::reanimate(out));
    sym_assert(typeid(*r) == typeid(*l), "same kind");
    sym_assert(r->uri().asRawString() == l->uri().asRawString(), "same URI");
    sym_assert((long long)r->offset() == off && (long long)r->length() == len, "same bytes");
    sym_assert(r->remapKey() == k && l->remapKey() == k, "same keys to remap");
    auto s = r->make_shared();
    sym_assert(s->uri() == l->uri() && (long long)s->offset() == off && (long long)s->length() == len && s->remapKey() == k, "a copy is the same");
}
SYM_CASE(uris, "file and remote locations, offsets and lengths around 0, 2^31, 2^32, 2^53 and 2^63 (4 values each; enumerated, one of the two at a time), 0..2 keys to remap; as URI text and back") {
    long long off = 5, len = 7;
    (sym_choice("which", 2) ? off : len) = wide("value");
    Key k = remap();
    std::string p = fileNames[sym_choice("file", 2)];
    TocFieldLocation t(eckit::PathName(p), eckit::Offset(off), eckit::Length(len), k);
    eckit::URI u = t.fullUri();
    sym_assert(t.uri().asRawString() == eckit::URI("file", eckit::PathName(p)).asRawString(), "the location's own URI is not changed");
    std::unique_ptr<FieldLocation> r(FieldLocationFactory::instance().build("file", u));
    eckit::URI v(u.asRawString());
    std::unique_ptr<FieldLocation> q(FieldLocationFactory::instance().build(v.scheme(), v));
    for (FieldLocation* l : {r.get(), q.get()}) {
        sym_assert(l->uri().path().asString() == p, "same file");
        sym_assert((long long)l->offset() == off && (long long)l->length() == len, "same bytes");
        sym_assert(l->remapKey() == k, "same keys to remap");
    }
}
SYM_CASE(remote, "a location sent by a server and by a server in front of it, 3 files, any offset and length: it resolves to the location the last server knows") {
    long long off = sym_any<long long>("offset", 3), len = sym_any<long long>("length", 5);
    sym_assume(off >= 0 && len > 0);
    unsigned file = sym_choice("file", 3), port = 1000 + sym_choice("port", 2);
    std::unique_ptr<FieldLocation> in(new TocFieldLocation(eckit::PathName(fileNames[file]), eckit::Offset(off), eckit::Length(len), Key()));
    eckit::net::Endpoint e1("server", 7000 + port), e2("front", 9000);
    RemoteFieldLocation a(e1, *in);
    sym_assert(a.uri().scheme() == "fdb" && a.host() == "server:" + std::to_string(7000 + port), "the client asks the server that has it");
    RemoteFieldLocation f(e2, a);
    sym_assert(f.host() == "front:9000", "or the one in front");
    for (const RemoteFieldLocation* l : {&a, &f})
        for (unsigned text = 0; text < 2; ++text) {
            eckit::URI r = RemoteFieldLocation::internalURI(text ? eckit::URI(l->uri().asRawString()) : l->uri());
            sym_assert(r.scheme() == "file", "kind of store");
            sym_assert(r.name() == in->uri().name(), "name in the store");
            sym_assert(r.hostport() == in->uri().hostport(), "host of the store");
            sym_assert(r.query("internalScheme").empty() && r.query("internalHost").empty(), "nothing of the way is left");
            sym_assert((long long)l->offset() == off && (long long)l->length() == len, "same bytes");
        }
}
