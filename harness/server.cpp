// Servers: what clients send to a store or a catalogue server is stored, indexed and answered, whenever the server's threads run
#include <bits/atomic_futex.h>
#include "local.h"
#include "eckit/net/Endpoint.h"
#include "eckit/net/TCPSocket.h"
#include "eckit/runtime/SessionID.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/remote/Messages.h"
#include "fdb5/remote/RemoteConfiguration.h"
#include "fdb5/remote/server/CatalogueHandler.h"
#include "fdb5/remote/server/StoreHandler.h"
#include "fdb5/toc/TocFieldLocation.h"
using namespace fdb5;
using namespace fdb5::remote;
using eckit::Buffer;
using eckit::MemoryStream;

struct Reply {
    Message m;
    bool control;
    uint32_t client, request;
    std::string payload;
};
// ---- the threads of the server: they run where the harness lets them
struct Thread {
    void* (*fn)(void*);
    void* arg;
};
static std::vector<Thread>* later;
static bool deferring = false;
static ServerConnection* server = nullptr;
extern "C" void sym_run_thread(void* (*fn)(void*), void* arg);
extern "C" int sym_defer_thread(void* (*fn)(void*), void* arg) {
    if (!deferring)
        return 0;
    if (!later)
        later = new std::vector<Thread>();
    later->push_back({fn, arg});
    return 1;
}
// the archiving thread takes what is queued
static bool archiveStep() {
    if (!server || server->archiveQueue_.empty())
        return false;
    bool closed = server->archiveQueue_.closed_;
    server->archiveQueue_.closed_ = true;
    try {
        server->archiveThreadLoop();
    }
    catch (std::exception& e) {
        sym_note(e.what());
    }
    server->archiveQueue_.closed_ = closed;
    return true;
}
static bool ending() {
    if (!later || later->empty())
        return false;
    Thread t = later->front();
    later->erase(later->begin());
    sym_run_thread(t.fn, t.arg);
    return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool timed, chrono::seconds, chrono::nanoseconds) {
    if (timed)
        return false;
    if (!archiveStep() && !(server && server->archiveQueue_.closed_ && ending()))
        sym_fail("the server waits for ever");
    return true;
}
// ---- the connection
struct Wire {
    std::string in, out;
    size_t at = 0;
    std::function<std::string()> next;
};
static Wire* wire;
namespace eckit::net {
long TCPSocket::write(const void* buf, long length) const {
    wire->out.append((const char*)buf, length);
    return length;
}
long TCPSocket::read(void* buf, long length) const {
    if (wire->at == wire->in.size()) {
        wire->in = wire->next();
        wire->at = 0;
    }
    long n = std::min<long>(length, wire->in.size() - wire->at);
    memcpy(buf, wire->in.data() + wire->at, n);
    wire->at += n;
    return n;
}
}  // namespace eckit::net
static std::string msg(Message m, bool control, uint32_t client, uint32_t request, const std::string& payload = "") {
    MessageHeader h(m, control, client, request, payload.size());
    std::string s((const char*)&h, sizeof h);
    s += payload;
    s.append((const char*)&MessageHeader::EndMarker, sizeof(MessageHeader::EndMarker));
    return s;
}
// the replies since the last call
static std::vector<Reply> replies() {
    std::vector<Reply> r;
    size_t i = 0;
    while (i < wire->out.size()) {
        MessageHeader h;
        sym_assert(wire->out.size() - i >= sizeof h, "whole messages are sent");
        memcpy((void*)&h, wire->out.data() + i, sizeof h);
        i += sizeof h;
        sym_assert(h.marker == MessageHeader::StartMarker && wire->out.size() - i >= h.payloadSize + sizeof(MessageHeader::EndMarker), "whole messages are sent");
        r.push_back({h.message, h.control(), h.clientID(), h.requestID, wire->out.substr(i, h.payloadSize)});
        i += h.payloadSize + sizeof(MessageHeader::EndMarker);
    }
    wire->out.clear();
    return r;
}
static std::string startup() {
    Buffer b(4096);
    MemoryStream s(b);
    s << eckit::SessionID() << eckit::net::Endpoint("localhost", 7000) << LibFdb5::instance().remoteProtocolVersion().used();
    s << RemoteConfiguration(eckit::YAMLConfiguration(std::string("supportedConnections: [1]")));
    return msg(Message::Startup, true, 0, 0, std::string((const char*)b.data(), s.position()));
}
template <typename F>
static std::string payload(F f) {
    Buffer b(65536);
    MemoryStream s(b);
    f(s);
    return std::string((const char*)b.data(), s.position());
}
static Key part(const KV& kv, std::initializer_list<const char*> kws) {
    Key k;
    for (auto w : kws)
        k.push(w, kv.at(w));
    return k;
}
static Key dbOf(const KV& k) { return part(k, {"cls", "ver"}); }
static Key ixOf(const KV& k) { return part(k, {"typ", "lev"}); }
static Key datumOf(const KV& k) { return part(k, {"par", "stp"}); }
void sym_setup() {
    wire = new Wire();
    localSetup();
    startup();
    throws([] { throw eckit::UserError("x"); });
    throws([] { throw eckit::SeriousBug("x"); });
}
struct Blob {
    unsigned client, ix;
    std::string data;
    std::unique_ptr<FieldLocation> loc;
    bool flushed = false;
};
SYM_CASE(store, "2 clients (databases) send 3 (thorough 4) fields of 1..2 symbolic bytes (quick: one of them, and the second index for the first field only) to a store, alone or two (quick: the first two) in a message, flush and read them back (and a file that is not there); the archiving and reading threads run between any two messages (quick: the reading thread after each or at the end)") {
    std::string dir = scratch();
    Config cfg = localConfig(dir);
    eckit::net::TCPSocket socket;
    unsigned n = deep() ? 4 : 3;
    std::vector<Blob> blobs(n);
    unsigned step = 0, sent = 0, flushing = 0, reading = 0, request = 100;
    std::map<uint32_t, unsigned> blobOf, readOf;  // request -> blob
    std::map<uint32_t, unsigned> flushOf;
    std::map<uint32_t, int> answered;
    std::map<uint32_t, std::string> data;
    std::set<uint32_t> completed, failed;
    uint32_t missing = 0;
    unsigned first = sym_choice("first", 2);
    unsigned eager = 0;
    sym_assume(deep() || first);
    StoreHandler* h = new StoreHandler(socket, cfg);
    server = h;
    deferring = true;
    auto take = [&] {
        for (auto& r : replies()) {
            if (r.m == Message::Store) {
                sym_assert(blobOf.count(r.request), "a location answers a field that was sent");
                // fields of one message share the request: in order
                unsigned b = blobOf[r.request];
                while (b < n && blobs[b].loc)
                    ++b;
                sym_assert(b < sent && r.control && r.client == blobs[b].client, "a location goes to the client that sent the field");
                MemoryStream s(r.payload.data(), r.payload.size());
                blobs[b].loc.reset(eckit::Reanimator<FieldLocation>::reanimate(s));
                sym_assert((long long)blobs[b].loc->length() == (long long)blobs[b].data.size(), "the location has the length of the field");
            }
            else if (r.m == Message::Blob) {
                sym_assert(readOf.count(r.request) && !completed.count(r.request) && !r.control, "data answers a read");
                data[r.request] += r.payload;
            }
            else if (r.m == Message::Complete)
                sym_assert((readOf.count(r.request) && completed.insert(r.request).second), "a read is complete once");
            else if (r.m == Message::Error) {
                sym_assert(r.request == missing && missing, "only the file that is not there fails");
                sym_assert(failed.insert(r.request).second && !r.payload.empty(), "it fails once, with a text");
            }
            else if (r.m == Message::Received) {
                sym_assert(++answered[r.request] == 1, "each request is acknowledged once");
                if (flushOf.count(r.request))
                    for (auto& b : blobs)
                        if (b.client == flushOf[r.request]) {
                            sym_assert(b.loc && readAll(b.loc->dataHandle()) == b.data, "what was sent before the flush is in its file when the flush is acknowledged");
                            b.flushed = true;
                        }
            }
        }
    };
    auto readStep = [&] {
        bool closed = h->readLocationQueue_.closed_;
        h->readLocationQueue_.closed_ = true;
        h->readLocationThreadLoop();
        h->readLocationQueue_.closed_ = closed;
    };
    wire->next = [&]() -> std::string {
        take();
        if (step == 0) {
            step = 1;
            return startup();
        }
        if (step == 1 || step == 2) {
            unsigned client = first ? 3 - step : step;
            return msg(Message::Store, true, client, 10 + step++);
        }
        if (step == 3) {
            if (sent && sym_choice("archiving", 2))
                archiveStep();
            take();
            if (sent < n) {
                auto one = [&](unsigned client) {
                    Blob& b = blobs[sent++];
                    b.client = client;
                    b.ix = deep() || sent == 1 ? sym_choice("ix", 2) : 0;
                    b.data = deep() ? sym_string("data", 1 + sym_choice("length", 2), anyChar) : sent == 2 ? sym_string("data", 1, anyChar) : std::string(sent, 'a' + sent);
                    KV k = fieldOf(client - 1, b.ix, 0);
                    return payload([&](MemoryStream& s) { s << dbOf(k) << ixOf(k); }) + b.data;
                };
                unsigned client = 1 + (deep() || sent ? sym_choice("client", 2) : 0);
                uint32_t rq = ++request;
                blobOf[rq] = sent;
                if (sent + 1 < n && (deep() || !sent) && sym_choice("two", 2)) {
                    std::string a = msg(Message::Blob, false, client, rq, one(client));
                    return msg(Message::MultiBlob, false, client, rq, a + msg(Message::Blob, false, client, rq, one(client)));
                }
                return msg(Message::Blob, false, client, rq, one(client));
            }
            step = 4;
        }
        if (step == 4) {
            // a client flushes when it has all its locations
            archiveStep();
            take();
            for (auto& b : blobs)
                sym_assert(!!b.loc, "each field sent is answered by its location");
            if (flushing < 2) {
                unsigned client = ++flushing;
                size_t count = 0;
                for (auto& b : blobs)
                    count += b.client == client;
                if (!count)
                    return wire->next();
                flushOf[++request] = client;
                return msg(Message::Flush, true, client, request, payload([&](MemoryStream& s) { s << count; }));
            }
            step = 5;
        }
        if (step == 5) {
            for (auto& b : blobs)
                sym_assert(b.flushed, "the flush is acknowledged");
            if (reading && (deep() || reading == 1))
                eager = sym_choice("reading", 2);
            if (eager)
                readStep();
            take();
            if (reading < n) {
                Blob& b = blobs[reading];
                readOf[++request] = reading++;
                return msg(Message::Read, true, 1 + reading % 2, request, payload([&](MemoryStream& s) { s << *b.loc; }));
            }
            if (reading == n) {
                ++reading;
                missing = ++request;
                TocFieldLocation l(eckit::URI("file", eckit::PathName(dir + "/root/nothing.data")), 0, 3, Key());
                return msg(Message::Read, true, 1, request, payload([&](MemoryStream& s) { s << l; }));
            }
            readStep();
            take();
            step = 6;
        }
        if (step++ < 8)
            return msg(Message::Stop, true, step - 6, 0);
        return msg(Message::Exit, true, 0, 0);
    };
    h->handle();
    take();
    for (auto& r : readOf)
        sym_assert(completed.count(r.first) && data[r.first] == blobs[r.second].data && answered[r.first] == 1, "what is read from the store is what was sent");
    sym_assert(failed.size() == 1, "a read that fails is answered by an error");
    sym_assert(answered[11] == 1 && answered[12] == 1, "each client's start is acknowledged");
    delete h;
}
static std::multiset<std::string> elements(const std::vector<Reply>& rs, uint32_t rq, bool& complete, bool& error) {
    std::multiset<std::string> r;
    complete = error = false;
    for (auto& x : rs)
        if (x.request == rq) {
            if (x.m == Message::Blob) {
                MemoryStream s(x.payload.data(), x.payload.size());
                ListElement e(s);
                std::string k;
                for (auto& kv : e.combinedKey())
                    k += kv.first + "=" + kv.second + ",";
                if (e.hasLocation())
                    k += e.location().fullUri().asRawString();
                r.insert(k);
                sym_assert(!complete && !x.control, "all elements come before the end");
            }
            complete |= x.m == Message::Complete;
            error |= x.m == Message::Error;
        }
    return r;
}
SYM_CASE(catalogue, "2 clients (databases) send the locations of 3 (thorough 4) fields (2 indexes, 2 data, quick: the second data for one of the fields only) to a catalogue, flushing after any of them; the archiving thread runs between any two messages or when a flush waits; then lists of depth 1..3 and inspects of any of the fields") {
    std::string dir = scratch();
    Config cfg = localConfig(dir);
    eckit::net::TCPSocket socket;
    unsigned n = deep() ? 4 : 3, step = 0, sent = 0;
    uint32_t request = 100;
    unsigned first = sym_choice("first", 2);  // (and threads are deferred from here on)
    sym_assume(deep() || first);
    // the database a server serves is that of its configuration
    setenv("FDB_CONFIG", ("type: local\nengine: toc\nschema: " + dir + "/schema\nspaces:\n- handler: Default\n  roots:\n  - path: " + dir + "/root\n").c_str(), 1);
    CatalogueHandler* h = new CatalogueHandler(socket, cfg);
    server = h;
    deferring = true;
    std::map<std::string, std::string> pending[3], visible;  // key -> uri
    size_t count[3] = {0, 0, 0};
    std::map<uint32_t, unsigned> flushOf;
    std::map<uint32_t, int> answered;
    unsigned asking = 0;
    std::vector<Reply> all;
    std::vector<KV> asked;
    auto uris = [&](const FDBToolRequest& rq, int depth) {
        std::multiset<std::string> r;
        for (auto& v : visible) {
            std::string k = v.first;
            if (depth == 3)
                r.insert(k + v.second);
        }
        return r;
    };
    auto take = [&] {
        for (auto& r : replies()) {
            sym_assert(r.m != Message::Error, "nothing fails");
            if (r.m == Message::Received) {
                sym_assert(++answered[r.request] == 1 && r.control, "each request is acknowledged once");
                if (flushOf.count(r.request)) {
                    unsigned c = flushOf[r.request];
                    for (auto& p : pending[c])
                        visible[p.first] = p.second;
                    pending[c].clear();
                    count[c] = 0;
                    bool was = deferring;
                    deferring = false;
                    FDB rd(cfg);
                    auto it = rd.list(FDBToolRequest({}, true), true);
                    ListElement e;
                    std::map<std::string, std::string> got;
                    while (it.next(e)) {
                        std::string k;
                        for (auto& kv : e.combinedKey())
                            k += kv.first + "=" + kv.second + ",";
                        got[k] = e.location().fullUri().asRawString();
                    }
                    for (auto& v : visible)
                        sym_assert(got.count(v.first) && got[v.first] == v.second, "what was sent before the flush is found, where it was stored, when the flush is acknowledged");
                    for (auto& g : got)
                        sym_assert(visible.count(g.first), "nothing else is found");
                    deferring = was;
                }
            }
            all.push_back(r);
        }
    };
    auto flush = [&](unsigned c) {
        flushOf[++request] = c;
        return msg(Message::Flush, true, c, request, payload([&](MemoryStream& s) { s << count[c]; }));
    };
    unsigned flushing = 0;
    wire->next = [&]() -> std::string {
        take();
        if (step == 0) {
            step = 1;
            return startup();
        }
        if (step == 1 || step == 2) {
            unsigned client = first ? 3 - step : step;
            ++step;
            KV k = fieldOf(client - 1, 0, 0);
            return msg(Message::Schema, true, client, ++request, payload([&](MemoryStream& s) { s << dbOf(k); }));
        }
        if (step == 3 || step == 4) {
            unsigned client = step++ - 2;
            return msg(Message::Archive, true, client, ++request);
        }
        if (step == 5) {
            if (sent && sym_choice("archiving", 2))
                archiveStep();
            take();
            if (flushing) {
                unsigned c = flushing;
                flushing = 0;
                return flush(c);
            }
            if (sent < n) {
                unsigned client = 1 + (deep() || sent ? sym_choice("client", 2) : 0);
                unsigned ix = sym_choice("ix", 2);
                KV k = fieldOf(client - 1, ix, deep() || sent == 1 ? sym_choice("datum", 2) : 0);
                TocFieldLocation l(eckit::URI("file", eckit::PathName(dir + "/root/od:000" + std::to_string(client) + "/x.data")), 10 * sent, 10, Key());
                ++sent;
                ++count[client];
                pending[client][textOf(k)] = l.fullUri().asRawString();
                if ((deep() || sent < n) && sym_choice("flush", 2))
                    flushing = client;
                return msg(Message::Blob, false, client, ++request, payload([&](MemoryStream& s) { s << ixOf(k) << datumOf(k) << l; }));
            }
            step = 6;
        }
        if (step == 6 || step == 7) {
            unsigned c = step++ - 5;
            return count[c] ? flush(c) : wire->next();
        }
        if (step == 8) {
            // what is asked afterwards
            step = 9;
            deferring = false;
            return msg(Message::Schema, true, 3, ++request);
        }
        if (step >= 9 && step < 12) {
            int depth = step++ - 8;
            return msg(Message::List, true, 3, ++request, payload([&](MemoryStream& s) { s << FDBToolRequest({}, true) << depth; }));
        }
        if (step == 12) {
            if (asking < 8) {
                KV k = fieldOf(asking & 1, (asking >> 1) & 1, asking >> 2);
                ++asking;
                asked.push_back(k);
                return msg(Message::Inspect, true, 3, ++request, payload([&](MemoryStream& s) { s << FDBToolRequest(mkRequest(k)); }));
            }
            step = 13;
        }
        if (step++ < 16)
            return msg(Message::Stop, true, step - 13, 0);
        return msg(Message::Exit, true, 0, 0);
    };
    h->handle();
    take();
    sym_assert(visible.size() > 0, "fields");
    uint32_t rq = request - asked.size() - 2;
    bool complete, error;
    std::set<std::string> dbs, ixs;
    std::multiset<std::string> fields;
    for (auto& v : visible)
        fields.insert(v.first + v.second);
    for (unsigned depth = 1; depth <= 3; ++depth) {
        auto got = elements(all, rq++, complete, error);
        sym_assert(complete && !error, "a list comes to its end");
        for (auto& v : visible) {
            dbs.insert(v.first.substr(v.first.find("ver="), 8));
            ixs.insert(v.first.substr(v.first.find("typ="), 6) + v.first.substr(v.first.find("ver="), 8));
        }
        if (depth == 1)
            sym_assert(got.size() == 2, "databases of the list, also without fields");
        else if (depth == 2)
            sym_assert(got.size() >= ixs.size(), "indexes of the list");
        else {
            for (auto& f : fields)
                sym_assert(got.count(f) == 1, "fields of the list");
        }
    }
    for (auto& k : asked) {
        auto got = elements(all, rq++, complete, error);
        auto v = visible.find(textOf(k));
        sym_assert(complete && !error && got.size() == (v != visible.end()) && (got.empty() || *got.begin() == v->first + v->second), "an inspect finds the field asked for");
    }
    delete h;
}
