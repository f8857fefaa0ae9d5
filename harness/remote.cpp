#include "common.h"
#include <cstddef>
#include <deque>
#include <map>
#include "eckit/net/TCPSocket.h"
#include "eckit/net/Endpoint.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/config/Config.h"
#include "fdb5/remote/Connection.h"
#include "fdb5/remote/Messages.h"
#include "fdb5/remote/client/Client.h"
#include "fdb5/remote/client/ClientConnection.h"
#include "fdb5/remote/client/ClientConnectionRouter.h"
#include "fdb5/remote/client/ReadLimiter.h"
#include "fdb5/remote/client/RemoteStore.h"
#include "fdb5/toc/TocFieldLocation.h"
#include "fdb5/remote/RemoteFieldLocation.h"
#include "fdb5/database/Field.h"
#include "fdb5/message/MessageDecoder.h"
using namespace fdb5;
using namespace fdb5::remote;
void sym_setup() {
    harnessInit();
    fdb5::LibFdb5::instance();
}

// ---- stand-ins for the network: what is read from and written to each socket
struct Wire {
    std::string in, out;
    size_t pos = 0;
    size_t cut = ~size_t(0);  // bytes accepted by write in total
};
static std::map<const eckit::net::TCPSocket*, Wire*>* wires;
static Wire& wire(const eckit::net::TCPSocket* s) {
    if (!wires)
        wires = new std::map<const eckit::net::TCPSocket*, Wire*>();
    auto& w = (*wires)[s];
    if (!w)
        w = new Wire();
    return *w;
}
namespace eckit::net {
long TCPSocket::write(const void* buf, long length) const {
    Wire& w = wire(this);
    size_t n = length;
    if (w.out.size() + n > w.cut)
        n = w.cut - w.out.size();
    w.out.append((const char*)buf, n);
    return n;
}
long TCPSocket::read(void* buf, long length) const {
    Wire& w = wire(this);
    size_t n = std::min<size_t>(length, w.in.size() - w.pos);
    if (n)
        memcpy(buf, w.in.data() + w.pos, n);
    w.pos += n;
    return n;
}
}  // namespace eckit::net
static std::shared_ptr<ClientConnection>* theConnection;
namespace fdb5::remote {
size_t random(size_t const) { return 0; }
ClientConnectionRouter& ClientConnectionRouter::instance() {
    static ClientConnectionRouter r;
    return r;
}
ClientConnectionRouter::~ClientConnectionRouter() {}
std::shared_ptr<ClientConnection> ClientConnectionRouter::connection(const eckit::Configuration&, const eckit::net::Endpoint&, const std::string&) { return *theConnection; }
std::shared_ptr<ClientConnection> ClientConnectionRouter::connection(const eckit::Configuration&, const std::vector<std::pair<eckit::net::Endpoint, std::string>>&) { return *theConnection; }
std::shared_ptr<ClientConnection> ClientConnectionRouter::refresh(const eckit::Configuration&, const std::shared_ptr<ClientConnection>& c) { return c; }
void ClientConnectionRouter::deregister(ClientConnection&) {}
}  // namespace fdb5::remote

struct Conn : Connection {
    eckit::net::TCPSocket c, d;
    Conn(bool single) { single_ = single; }
    const eckit::net::TCPSocket& controlSocket() const override { return c; }
    const eckit::net::TCPSocket& dataSocket() const override { return d; }
};
static const Message kinds[] = {Message::None, Message::Exit, Message::Startup, Message::Error, Message::Schema, Message::Flush, Message::List, Message::Axes, Message::Exists, Message::DoWipeURIs, Message::DoUnsafeFullWipe, Message::Received, Message::Complete, Message::Blob, Message::MultiBlob};

SYM_CASE(header, "every 31-bit client, 32-bit request and payload size, 16-bit message, both channels") {
    uint16_t m = sym_any<uint16_t>("message");
    bool control = sym_choice("control", 2);
    uint32_t client = sym_range<uint32_t>("client", 0, 0x7fffffff), req = sym_any<uint32_t>("request"), size = sym_any<uint32_t>("size");
    MessageHeader h((Message)m, control, client, req, size);
    char raw[sizeof(MessageHeader)];
    memcpy(raw, &h, sizeof h);
    MessageHeader r;
    memcpy(&r, raw, sizeof r);
    sym_assert((uint16_t)r.message == m, "message kind kept");
    sym_assert(r.control() == control, "channel kept");
    sym_assert(r.clientID() == client, "client kept");
    sym_assert(r.requestID == req && r.payloadSize == size, "request and size kept");
    sym_assert(memcmp(raw, "SFDB", 4) == 0, "starts with the marker");
    sym_assert(sizeof(MessageHeader) == 36, "header is 36 bytes");
}
// what one side writes the other side reads
SYM_CASE(exchange, "2 messages of <=2 payload parts of <=3 symbolic bytes on one or two channels, symbolic client and request, single or double connection") {
    bool single = sym_choice("single", 2);
    Conn w(single), r(single);
    struct M {
        Message m;
        bool control;
        uint32_t client, req;
        std::string body;
    };
    std::vector<M> ms;
    for (unsigned i = 0; i < 2; ++i) {
        M m;
        m.m = kinds[sym_choice("kind", 3) * 4 + 3];
        m.control = sym_choice("control", 2);
        m.client = sym_range<uint32_t>("client", 0, 0x7fffffff);
        m.req = sym_any<uint32_t>("request");
        unsigned n = sym_choice("parts", 3);
        Connection::PayloadList pl;
        std::vector<std::string> parts;
        for (unsigned j = 0; j < n; ++j)
            parts.push_back(symStr("payload", j == 0 ? 0 : 1, deep() ? 3 : 2, [](unsigned char) { return true; }));
        for (auto& p : parts) {
            pl.emplace_back(p.size(), p.data());
            m.body += p;
        }
        w.write(m.m, m.control, m.client, m.req, pl);
        ms.push_back(m);
    }
    wire(&r.c).in = wire(&w.c).out;
    wire(&r.d).in = wire(&w.d).out;
    for (auto& m : ms) {
        MessageHeader h;
        // both channels keep their own order
        eckit::Buffer b = m.control || single ? r.readControl(h) : r.readData(h);
        sym_assert(h.message == m.m && h.clientID() == m.client && h.requestID == m.req && h.control() == m.control, "same message, client, request and channel");
        sym_assert(h.payloadSize == m.body.size() && b.size() == m.body.size(), "same payload size");
        sym_assert(m.body.empty() || memcmp(b.data(), m.body.data(), m.body.size()) == 0, "same payload");
    }
    sym_assert(wire(&r.c).pos == wire(&r.c).in.size() && wire(&r.d).pos == wire(&r.d).in.size(), "everything consumed");
    sym_assert(r.valid() && w.valid(), "connections stay valid");
}
// a damaged or truncated message is an error
SYM_CASE(damaged, "1 message of 0..2 payload bytes: any byte of marker, version, end marker or channel bit replaced by any other, or truncated at any length") {
    Conn w(false), r(false);
    bool control = sym_choice("control", 2);
    std::string p = symStr("payload", 0, 2, [](unsigned char) { return true; });
    w.write(Message::Blob, control, 5, 6, p.empty() ? Connection::PayloadList{} : Connection::PayloadList{{p.size(), p.data()}});
    std::string raw = control ? wire(&w.c).out : wire(&w.d).out;
    unsigned what = sym_choice("damage", 3);
    if (what == 0) {
        unsigned at = sym_choice("at", 10);
        size_t pos = at < 6 ? at : raw.size() - 4 + (at - 6);
        unsigned char x = sym_any<unsigned char>("byte");
        sym_assume(x != (unsigned char)raw[pos]);
        raw[pos] = x;
    }
    else if (what == 1) {
        raw.resize(sym_choice("length", raw.size()));
        sym_reach("truncated");
    }
    else
        raw[8] ^= 1;
    wire(&r.c).in = wire(&r.d).in = raw;
    MessageHeader h;
    sym_assert(throws([&] { control ? r.readControl(h) : r.readData(h); }), "damaged message refused");
    if (what == 1)
        sym_assert(!r.valid(), "connection no longer valid after a short read");
}
SYM_CASE(shortwrite, "payload of 3 bytes, every number of bytes accepted by the socket") {
    Conn w(false);
    unsigned cut = sym_choice("cut", 43);
    wire(&w.c).cut = cut;
    bool t = throws([&] { w.write(Message::Blob, true, 1, 2, "abc", 3); });
    sym_assert(t && !w.valid(), "a write that is not complete is reported");
}
// ---- client side dispatch
struct FakeClient : Client {
    struct Got {
        Message m;
        uint32_t req;
        bool hasPayload;
        std::string body;
    };
    std::vector<Got> got;
    eckit::LocalConfiguration cfg;
    bool closed = false;
    FakeClient() : Client(eckit::LocalConfiguration(), eckit::net::Endpoint("server", 7000), "") {}
    const eckit::Configuration& clientConfig() const override { return cfg; }
    bool handle(Message m, uint32_t r) override {
        got.push_back({m, r, false, ""});
        return true;
    }
    bool handle(Message m, uint32_t r, eckit::Buffer&& p) override {
        got.push_back({m, r, true, std::string((const char*)p.data(), p.size())});
        return true;
    }
    void closeConnection() override { closed = true; }
};
static std::string encode(Message m, bool control, uint32_t client, uint32_t req, const std::string& body) {
    Conn w(false);
    wire(&w.c) = wire(&w.d) = Wire();  // the address may have been used before
    w.write(m, control, client, req, body.empty() ? Connection::PayloadList{} : Connection::PayloadList{{body.size(), body.data()}});
    return control ? wire(&w.c).out : wire(&w.d).out;
}
static ClientConnection& newConnection() {
    theConnection = new std::shared_ptr<ClientConnection>(new ClientConnection(eckit::net::Endpoint("server", 7000), ""));
    return **theConnection;
}
// responses reach the request they answer, errors keep their text, a lost connection fails what is pending
SYM_CASE(control_dispatch, "3 pending requests of 2 clients, up to 3 responses in any order (empty, payload of <=2 symbolic bytes, error with text), then the connection ends") {
    ClientConnection& cc = newConnection();
    FakeClient* cl[2] = {new FakeClient(), new FakeClient()};
    struct P {
        unsigned c;
        uint32_t id;
        std::future<eckit::Buffer> f;
        bool answered = false, err = false;
        std::string body;
    };
    std::vector<P> ps(3);
    for (unsigned i = 0; i < 3; ++i) {
        ps[i].c = i == 1 ? 1 : 0;
        ps[i].id = cc.generateRequestID();
        for (unsigned j = 0; j < i; ++j)
            sym_assert(ps[j].id != ps[i].id, "request identifiers are distinct");
        ps[i].f = cc.controlWrite(*cl[ps[i].c], Message::List, ps[i].id, false, {{2, "ab"}});
    }
    std::string sent;
    for (auto& p : ps)
        sent += encode(Message::List, true, cl[p.c]->id(), p.id, "ab");
    sym_assert(wire(&cc.controlClient_).out == sent, "requests sent as given");
    Wire& in = wire(&cc.controlClient_);
    unsigned n = sym_choice("responses", 4);
    std::vector<std::pair<unsigned, std::string>> unsol;
    for (unsigned k = 0; k < n; ++k) {
        unsigned i = sym_choice("which", 3);
        if (ps[i].answered)
            sym_end_path();
        ps[i].answered = true;
        unsigned t = sym_choice("type", 3);
        ps[i].err = t == 2;
        if (t)
            ps[i].body = t == 2 ? "trouble" + std::to_string(k) : symStr("body", 1, 2, [](unsigned char) { return true; });
        in.in += encode(t == 2 ? Message::Error : Message::Received, true, cl[ps[i].c]->id(), ps[i].id, ps[i].body);
    }
    unsigned unsolicited = sym_choice("unsolicited", 2);
    if (unsolicited)
        in.in += encode(Message::Blob, true, cl[1]->id(), 77, "xy");
    bool exit = sym_choice("exit", 2);
    if (exit)
        in.in += encode(Message::Exit, true, 0, 0, "");
    cc.listeningControlThreadLoop();
    for (auto& p : ps) {
        if (!p.answered && exit)
            continue;  // still pending
        sym_assert(p.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "no request waits for ever once answered or the connection is lost");
        std::string got, err;
        bool thrown = false;
        try {
            eckit::Buffer b = p.f.get();
            got.assign((const char*)b.data(), b.size());
        }
        catch (std::exception& e) {
            thrown = true;
            err = e.what();
        }
        if (!p.answered)
            sym_assert(thrown, "a request pending on a lost connection fails");
        else if (p.err)
            sym_assert(thrown && err.find(p.body) != std::string::npos, "a remote error is delivered with its text");
        else
            sym_assert(!thrown && got.size() == p.body.size() && memcmp(got.data(), p.body.data(), got.size()) == 0, "a response carries its payload");
    }
    sym_assert(cl[0]->got.empty() && cl[1]->got.size() == unsolicited, "other messages go to the client they name");
    if (unsolicited)
        sym_assert(cl[1]->got[0].req == 77 && cl[1]->got[0].body == "xy" && cl[1]->got[0].m == Message::Blob, "message handed over intact");
    if (n == 3 && !exit)
        sym_reach("all");
}
// on a single connection the worker threads of the server write while its main thread acknowledges the request
SYM_CASE(overtake, "single connection, 2 requests of 2 clients: 0..2 blobs then complete or an error sent by a worker thread, the acknowledgement anywhere among them; both requests interleaved") {
    ClientConnection& cc = newConnection();
    cc.single_ = true;
    FakeClient* cl[2] = {new FakeClient(), new FakeClient()};
    struct R {
        uint32_t id;
        std::future<eckit::Buffer> f;
        std::vector<std::string> msgs;            // encoded, in order
        std::vector<FakeClient::Got> exp;         // what the client is handed
        bool failed = false;
        std::string text;
    };
    std::vector<R> rs(2);
    for (unsigned i = 0; i < 2; ++i) {
        R& r = rs[i];
        r.id = cc.generateRequestID();
        r.f = cc.controlWrite(*cl[i], Message::List, r.id, false, {{2, "ab"}});
        unsigned n = sym_choice("blobs", i ? 2 : 3);
        bool error = sym_choice("error", 2);
        unsigned ack = sym_choice("ack", n + 2);
        for (unsigned k = 0; k <= n; ++k) {
            bool last = k == n;
            if (k == ack)
                r.msgs.push_back(encode(Message::Received, true, cl[i]->id(), r.id, ""));
            std::string body = last ? (error ? "trouble" + std::to_string(i) : "") : symStr("body", 1, 2, [](unsigned char) { return true; });
            Message m = last ? (error ? Message::Error : Message::Complete) : Message::Blob;
            r.msgs.push_back(encode(m, false, cl[i]->id(), r.id, body));
            if (last && error && ack == n + 1) {
                r.failed = true;  // the error answers the request
                r.text = body;
            }
            else
                r.exp.push_back({m, r.id, !body.empty(), body});
        }
        if (ack == n + 1)
            r.msgs.push_back(encode(Message::Received, true, cl[i]->id(), r.id, ""));
    }
    Wire& in = wire(&cc.controlClient_);
    size_t a = 0, b = 0;
    while (a < rs[0].msgs.size() || b < rs[1].msgs.size()) {
        bool second = a == rs[0].msgs.size() || (b < rs[1].msgs.size() && (deep() || b == 0) && sym_choice("order", 2));
        in.in += second ? rs[1].msgs[b++] : rs[0].msgs[a++];
    }
    in.in += encode(Message::Exit, true, 0, 0, "");
    cc.listeningControlThreadLoop();
    for (unsigned i = 0; i < 2; ++i) {
        R& r = rs[i];
        sym_assert(r.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the request was answered");
        bool thrown = false;
        std::string err;
        size_t size = 1;
        try {
            size = r.f.get().size();
        }
        catch (std::exception& e) {
            thrown = true;
            err = e.what();
        }
        sym_assert(thrown == r.failed && (thrown ? err.find(r.text) != std::string::npos : size == 0), "the request succeeds unless an error comes first");
        auto& got = cl[i]->got;
        sym_assert(got.size() == r.exp.size(), "all other messages are handed to the client");
        for (size_t k = 0; k < got.size(); ++k)
            sym_assert(got[k].m == r.exp[k].m && got[k].req == r.id && got[k].body == r.exp[k].body, "intact and in order");
    }
    sym_reach("answered");
}
// the thread writing the data runs as late as it can: the server must still read what a request announces before the
// request that waits for it (it reads nothing more from a connection while it waits)
static std::vector<std::pair<void* (*)(void*), void*>>* laterThreads;
static bool threadsLater = false;
extern "C" void sym_run_thread(void* (*fn)(void*), void* arg);
extern "C" int sym_defer_thread(void* (*fn)(void*), void* arg) {
    if (!threadsLater)
        return 0;
    if (!laterThreads)
        laterThreads = new std::vector<std::pair<void* (*)(void*), void*>>();
    laterThreads->push_back({fn, arg});
    return 1;
}
SYM_CASE(send_order, "2..4 sends of 2 clients, each a control message or a blob of 1..2 symbolic bytes in 1..2 parts, on a single or double connection; the thread writing data runs after all of them") {
    ClientConnection& cc = newConnection();
    cc.single_ = sym_choice("single", 2);
    FakeClient* cl[2] = {new FakeClient(), new FakeClient()};
    std::string control, data;
    unsigned n = 2 + sym_choice("sends", deep() ? 3 : 2);
    threadsLater = true;
    for (unsigned k = 0; k < n; ++k) {
        unsigned c = sym_choice("client", 2);
        uint32_t id = cc.generateRequestID();
        bool blob = sym_choice("blob", 2);
        std::string body = symStr("body", 1, 2, [](unsigned char) { return true; });
        if (blob) {
            Connection::PayloadList parts;
            if (body.size() == 2 && sym_choice("parts", 2)) {
                parts.emplace_back(1, body.data());
                parts.emplace_back(1, body.data() + 1);
            }
            else
                parts.emplace_back(body.size(), body.data());
            cc.dataWrite(*cl[c], Message::Blob, id, parts);
        }
        else
            cc.controlWrite(*cl[c], Message::Flush, id, false, {{body.size(), body.data()}});
        (blob && !cc.single_ ? data : control) += encode(blob ? Message::Blob : Message::Flush, !blob, cl[c]->id(), id, body);
        if (blob)
            body.assign(body.size(), '#');  // the caller's buffer is not needed any more
    }
    threadsLater = false;
    if (cc.dataWriteQueue_)
        cc.dataWriteQueue_->close();
    if (laterThreads)
        for (auto& t : *laterThreads)
            sym_run_thread(t.first, t.second);
    if (cc.single_)
        sym_assert(wire(&cc.controlClient_).out == control, "one connection carries all messages in the order they were sent");
    else
        sym_assert(wire(&cc.controlClient_).out == control, "control messages are sent in order");
    sym_assert(wire(&cc.dataClient_).out == data, "data is sent in order, complete");
    sym_reach("sent");
}
SYM_CASE(data_dispatch, "3 data messages for 2 clients in any order, with or without payload, then end of connection") {
    ClientConnection& cc = newConnection();
    FakeClient* cl[2] = {new FakeClient(), new FakeClient()};
    std::vector<FakeClient::Got> exp[2];
    Wire& in = wire(&cc.dataClient_);
    for (unsigned k = 0; k < 3; ++k) {
        unsigned c = sym_choice("client", 2);
        uint32_t req = sym_any<uint32_t>("request");
        std::string b = symStr("body", 0, 2, [](unsigned char) { return true; });
        in.in += encode(b.empty() ? Message::Complete : Message::Blob, false, cl[c]->id(), req, b);
        exp[c].push_back({b.empty() ? Message::Complete : Message::Blob, req, !b.empty(), b});
    }
    if (sym_choice("exit", 2))
        in.in += encode(Message::Exit, false, 0, 0, "");
    cc.listeningDataThreadLoop();
    for (unsigned c = 0; c < 2; ++c) {
        sym_assert(cl[c]->got.size() == exp[c].size(), "each client gets its messages");
        for (unsigned i = 0; i < exp[c].size(); ++i)
            sym_assert(cl[c]->got[i].m == exp[c][i].m && cl[c]->got[i].req == exp[c][i].req && cl[c]->got[i].hasPayload == exp[c][i].hasPayload && cl[c]->got[i].body == exp[c][i].body,
                       "messages are handed over intact and in order");
        sym_assert(cl[c]->closed, "clients are told that the connection ended");
    }
}
// remote fields are read back from the blobs of their own request
SYM_CASE(remote_read, "2 remote fields whose 1..2 blobs of <=3 symbolic bytes arrive interleaved; reads of 1..4 bytes; optionally ended by an error") {
    ClientConnection& cc = newConnection();
    RemoteStore* st = new RemoteStore(eckit::URI("fdb://server:7000"), Config());
    const char* rest = "pqrstu";
    struct F {
        std::string body;
        std::vector<std::string> blobs;
        std::unique_ptr<eckit::DataHandle> h;
    } f[2];
    Wire& in = wire(&cc.dataClient_);
    unsigned nb[2];
    for (unsigned i = 0; i < 2; ++i) {
        nb[i] = i == 0 ? 1 + sym_choice("blobs", 2) : 1;
        for (unsigned j = 0; j < nb[i]; ++j) {
            f[i].blobs.push_back(i == 0 ? symStr("blob", 1, 3, [](unsigned char) { return true; }) : std::string(rest, 2));
            f[i].body += f[i].blobs.back();
        }
    }
    bool fail = sym_choice("error", 2);
    ReadLimiter::init(1000);
    uint32_t ids[2];
    for (unsigned i = 0; i < 2; ++i) {
        // register the queue as dataHandle() does, without the blocking request
        ids[i] = cc.generateRequestID();
        st->messageQueues_.emplace(ids[i], std::make_shared<RemoteStore::MessageQueue>(320));
    }
    unsigned pos[2] = {0, 0};
    std::string text = "boom";
    for (unsigned k = 0; k < nb[0] + nb[1]; ++k) {
        unsigned i = pos[0] == nb[0] ? 1 : pos[1] == nb[1] ? 0 : sym_choice("next", 2);
        in.in += encode(Message::Blob, false, st->id(), ids[i], f[i].blobs[pos[i]++]);
        if (pos[i] == nb[i])
            in.in += encode(i == 0 && fail ? Message::Error : Message::Complete, false, st->id(), ids[i], i == 0 && fail ? text : "");
    }
    std::shared_ptr<RemoteStore::MessageQueue> q[2];
    for (unsigned i = 0; i < 2; ++i)
        q[i] = st->messageQueues_[ids[i]];
    in.in += encode(Message::Exit, false, 0, 0, "");
    cc.listeningDataThreadLoop();
    for (unsigned i = 0; i < 2; ++i) {
        std::string got;
        bool thrown = false;
        std::string err;
        try {
            RemoteStore::StoredMessage m = std::make_pair(Message{}, eckit::Buffer{0});
            for (unsigned guard = 0; guard < 5; ++guard) {
                sym_assert(q[i]->pop(m) != -1, "a field's queue ends with its completion");
                if (m.first == Message::Complete)
                    break;
                sym_assert(m.first == Message::Blob, "only data before the completion");
                got.append((const char*)m.second.data(), m.second.size());
            }
        }
        catch (std::exception& e) {
            thrown = true;
            err = e.what();
        }
        if (i == 0 && fail)
            sym_assert(thrown && err.find(text) != std::string::npos, "a failed read reports the error of the server");
        else
            sym_assert(!thrown && got == f[i].body, "the data of a field is what was sent for it");
    }
}
