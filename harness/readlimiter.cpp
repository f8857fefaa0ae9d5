#include "common.h"
#include <deque>
#include <map>
#include <set>
#include "fdb5/remote/client/ReadLimiter.h"
#include "fdb5/remote/client/RemoteStore.h"
#include "fdb5/toc/TocFieldLocation.h"
#include "eckit/serialisation/Reanimator.h"
using namespace fdb5;
using namespace fdb5::remote;
void sym_setup() { harnessInit(); }

struct Sent {
    uint32_t client, id;
    std::string payload;
};
static std::vector<Sent>* sent;
static bool failSend = false;
// the only call the limiter makes on its client
void Client::controlWriteCheckResponse(Message msg, uint32_t requestID, bool dataListener, const void* payload, uint32_t len) const {
    sym_assert(msg == Message::Read && dataListener, "a read request with data is sent");
    sent->push_back({id(), requestID, std::string((const char*)payload, len)});
}
static RemoteStore* fakeStore(uint32_t id) {
    char* p = (char*)calloc(1, sizeof(RemoteStore));
    RemoteStore* s = (RemoteStore*)p;
    ((Client*)s)->id_ = id;
    return s;
}
struct Model {
    struct R {
        uint32_t c, id;
        size_t size;
    };
    std::deque<R> pending;
    std::vector<R> active;
    size_t nsent = 0;
    size_t limit;
    // what the limiter sent since last time must be the head of the queue, in order
    void sync(unsigned maxSends) {
        unsigned k = 0;
        for (; nsent < sent->size(); ++nsent, ++k) {
            sym_assert(!pending.empty(), "only queued requests are sent, each once");
            const Sent& x = (*sent)[nsent];
            R r = pending.front();
            sym_assert(x.client == r.c && x.id == r.id, "requests are sent in the order they were queued");
            pending.pop_front();
            size_t used = 0;
            for (auto& a : active)
                used += a.size;
            sym_assert(used + r.size <= limit, "the outstanding results stay within the limit");
            active.push_back(r);
        }
        sym_assert(pending.empty() || !active.empty(), "a queued request waits only for outstanding ones");
    }
    size_t used() const {
        size_t u = 0;
        for (auto& a : active)
            u += a.size;
        return u;
    }
};
static ReadLimiter* mk(size_t limit) {
    static char mem[sizeof(ReadLimiter)];
    return new (mem) ReadLimiter(limit);
}
static void addReq(ReadLimiter& L, Model& m, RemoteStore* s, uint32_t id, size_t size) {
    TocFieldLocation loc(eckit::PathName("/data/f1"), eckit::Offset(16), eckit::Length(size), Key());
    bool over = size > m.limit;
    if (!over)
        m.pending.push_back({s->id(), id, size});
    bool t = throws([&] { L.add(s, id, loc, Key()); });
    sym_assert(t == over, "a request larger than the limit is refused, any other accepted");
}
static void finish(ReadLimiter& L, Model& m, uint32_t c, uint32_t id) {
    for (size_t i = 0; i < m.active.size(); ++i)
        if (m.active[i].c == c && m.active[i].id == id) {
            m.active.erase(m.active.begin() + i);
            break;
        }
    for (size_t i = 0; i < m.pending.size(); ++i)
        if (m.pending[i].c == c && m.pending[i].id == id) {
            m.pending.erase(m.pending.begin() + i);
            break;
        }
    sym_assert(!throws([&] { L.finishRequest(c, id); }), "finishing a request (sent or still queued) succeeds");
}
static void drain(ReadLimiter& L, Model& m) {
    for (unsigned guard = 0; !m.active.empty() && guard < 20; ++guard) {
        auto r = m.active.front();
        finish(L, m, r.c, r.id);
        m.sync(1);
    }
    sym_assert(m.pending.empty() && m.active.empty(), "every queued request has been sent once the earlier ones finished");
    sym_assert(L.memoryUsed_ == 0, "all reserved memory released");
}
// adds, finishes (of sent or queued requests), evictions and retries in any order
SYM_CASE(history, "3 requests (4 thorough) of symbolic sizes (multiples of 64 MiB up to 256 GiB) from 2 clients, symbolic limit; up to 3 (4) finish/evict/retry operations interleaved anywhere, then drained") {
    sent = new std::vector<Sent>();
    Model m;
    m.limit = (uint64_t)sym_range<uint16_t>("limit", 1, 4000) << 26;
    ReadLimiter& L = *mk(m.limit);
    RemoteStore* st[2] = {fakeStore(7), fakeStore(9)};
    const unsigned nadd = deep() ? 4 : 3, nop = deep() ? 4 : 3;
    unsigned adds = 0, ops = 0;
    std::vector<Model::R> all;
    bool dead[2] = {false, false};
    while (adds < nadd || ops < nop) {
        unsigned op = adds < nadd ? (ops < nop ? sym_choice("op", 5) : 0) : 1 + sym_choice("op", 4);
        if (op == 4)
            break;
        if (op == 0) {
            unsigned c = adds == 0 ? 0 : sym_choice("client", 2);
            size_t sz = (uint64_t)sym_range<uint16_t>("size", 0, 4001) << 26;
            sym_assume(sz <= m.limit);
            uint32_t id = 100 + adds;
            ++adds;
            size_t np = m.pending.size();
            addReq(L, m, st[c], id, sz);
            if (m.pending.size() > np)
                all.push_back(m.pending.back());
        }
        else if (op == 1) {
            ++ops;
            if (all.empty())
                sym_end_path();
            std::vector<unsigned> open;
            for (unsigned i = 0; i < all.size(); ++i)
                if (all[i].id)
                    open.push_back(i);
            if (open.empty())
                sym_end_path();
            unsigned k = open[sym_choice("which", open.size())];
            auto r = all[k];
            all[k].id = 0;
            bool queued = false;
            for (auto& p : m.pending)
                queued |= p.id == r.id;
            if (queued)
                sym_reach("finish-queued");
            finish(L, m, r.c, r.id);
        }
        else if (op == 2) {
            ++ops;
            unsigned c = sym_choice("evict", 2);
            if (m.pending.empty() && m.active.empty())
                sym_end_path();
            for (auto it = m.pending.begin(); it != m.pending.end();)
                it = it->c == st[c]->id() ? m.pending.erase(it) : it + 1;
            for (auto it = m.active.begin(); it != m.active.end();)
                it = it->c == st[c]->id() ? m.active.erase(it) : it + 1;
            for (auto& a : all)
                if (a.c == st[c]->id())
                    a.id = 0;
            L.evictClient(st[c]->id());
            sym_reach("evict");
        }
        else {
            ++ops;
            if (m.pending.empty())
                sym_end_path();
            size_t before = sent->size();
            bool head = !m.pending.empty() && m.used() + m.pending.front().size <= m.limit;
            bool r = L.tryNextRequest();
            sym_assert(r == head, "a request that fits is sent on request, one that does not is not");
            sym_assert(sent->size() - before == (r ? 1u : 0u), "one request sent per successful attempt");
        }
        m.sync(1);
        sym_assert(L.memoryUsed_ == m.used(), "reserved memory is the sum of the outstanding results");
    }
    drain(L, m);
    sym_reach("drained");
}
SYM_CASE(oversize, "1 outstanding request of 600 of 1000 bytes, then a request of one of 4 sizes around the limit") {
    sent = new std::vector<Sent>();
    Model m;
    m.limit = 1000;
    ReadLimiter& L = *mk(m.limit);
    RemoteStore* s = fakeStore(4);
    addReq(L, m, s, 1, 600);
    m.sync(1);
    static const size_t sz[] = {1000, 1001, 5000000000ull, 999};
    addReq(L, m, s, 2, sz[sym_choice("size", 4)]);
    m.sync(1);
    addReq(L, m, s, 3, 400);
    m.sync(1);
    drain(L, m);
}
// the payload of a request is the location and the remap key it was queued with
SYM_CASE(payload, "2 queued requests, symbolic offset, length, remap value") {
    sent = new std::vector<Sent>();
    ReadLimiter& L = *mk(1000);
    RemoteStore* s = fakeStore(3);
    struct In {
        uint64_t off, len;
        std::string rv;
    } in[2];
    for (unsigned i = 0; i < 2; ++i) {
        in[i].off = sym_range<uint64_t>("off", 0, 1ull << 62);
        in[i].len = sym_range<uint64_t>("len", 600, 1000);
        in[i].rv = symStr("remap", 0, 2, valueChar);
        Key remap;
        if (in[i].rv.size())
            remap.push("param", in[i].rv);
        TocFieldLocation loc(eckit::PathName("/data/f1"), eckit::Offset(in[i].off), eckit::Length(in[i].len), Key());
        L.add(s, 50 + i, loc, remap);
    }
    sym_assert(sent->size() == 1, "second request waits");
    L.finishRequest(3, 50);
    sym_assert(sent->size() == 2, "second request sent when the first finished");
    for (unsigned i = 0; i < 2; ++i) {
        eckit::MemoryStream ms((*sent)[i].payload.data(), (*sent)[i].payload.size());
        std::unique_ptr<FieldLocation> l(eckit::Reanimator<FieldLocation>::reanimate(ms));
        Key k(ms);
        sym_assert((uint64_t)(long long)l->offset() == in[i].off && (uint64_t)(long long)l->length() == in[i].len, "location sent");
        sym_assert(k.size() == (in[i].rv.empty() ? 0u : 1u) && (in[i].rv.empty() || k.get("param") == in[i].rv), "remap key sent");
        sym_assert(ms.position() == (*sent)[i].payload.size(), "nothing else sent");
    }
}
