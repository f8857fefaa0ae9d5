// What is sent to another process behaves there as it does here: schemas, rules, wipe plans; a store server acts only on plans that the catalogue signed.
#include "local.h"
#include "eckit/net/TCPSocket.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "fdb5/database/WipeState.h"
#include "fdb5/remote/Messages.h"
#include "fdb5/remote/RemoteFieldLocation.h"
#include "fdb5/remote/server/StoreHandler.h"
#include "fdb5/rules/ExcludeAll.h"
#include "fdb5/rules/MatchAlways.h"
#include "fdb5/rules/MatchAny.h"
#include "fdb5/rules/MatchHidden.h"
#include "fdb5/rules/MatchOptional.h"
#include "fdb5/rules/MatchValue.h"
#include "fdb5/rules/Predicate.h"
#include "fdb5/rules/Rule.h"
#include "fdb5/rules/Schema.h"
using namespace fdb5;
typedef std::set<eckit::URI> URIs;
void sym_setup() {
    setenv("FDB_WIPE_SECRET", "secret", 1);
    localSetup();
}
namespace eckit::net {
static std::string* out;
long TCPSocket::write(const void* buf, long length) const {
    if (!out)
        out = new std::string();
    out->append((const char*)buf, length);
    return length;
}
long TCPSocket::read(void*, long) const { return 0; }
}  // namespace eckit::net
static std::string& wireOut() {
    if (!eckit::net::out)
        eckit::net::out = new std::string();
    return *eckit::net::out;
}

// ---- rules
enum Kind { Always, Value, Any, NotAny, Opt, Hidden };
static bool word(unsigned char c) { return unsigned(c - 'a') < 26u; }
static std::unique_ptr<Predicate> mkPred(const char* kw, unsigned kind, const std::string& a, const std::string& b) {
    switch (kind) {
        case Always:
            return std::make_unique<Predicate>(kw, new MatchAlways());
        case Value:
            return std::make_unique<Predicate>(kw, new MatchValue(a));
        case Any:
            return std::make_unique<Predicate>(kw, new MatchAny({a, b}));
        case NotAny:
            return std::make_unique<Predicate>(kw, new ExcludeAll({a, b}));
        case Opt:
            return std::make_unique<Predicate>(kw, new MatchOptional(a));
        default:
            return std::make_unique<Predicate>(kw, new MatchHidden(a));
    }
}
static void samePredicates(const Rule& x, const Rule& y, const std::string& v) {
    sym_assert(x.predicates_.size() == y.predicates_.size(), "as many predicates");
    for (size_t i = 0; i < x.predicates_.size(); ++i) {
        auto &p = *x.predicates_[i], &q = *y.predicates_[i];
        sym_assert(p.keyword() == q.keyword() && p.optional() == q.optional(), "keyword");
        sym_assert(p.match(v) == q.match(v), "the same values match");
        if (p.optional()) {
            sym_assert(p.defaultValue() == q.defaultValue(), "default value");
        }
        Key k, none;
        k.push(p.keyword(), v);
        sym_assert(p.match(k) == q.match(k) && p.match(none) == q.match(none), "the same keys match");
    }
    sym_assert(x.line_ == y.line_, "line");
    for (auto kw : {"a", "b", "c", "d"})
        sym_assert(x.registry().lookupType(kw).type() == y.registry().lookupType(kw).type(), "types");
}
SYM_CASE(schema, "schemas of one or two database rules with up to two index rules, a predicate of each kind at each level, values of 0..2 symbolic letters, types at each level; values of 0..2 symbolic letters matched before and after") {
    unsigned n = deep() ? 2 : 1;
    std::string a = symStr("a", 0, n, word), b = symStr("b", 1, n, word), v = symStr("v", 0, n, word);
    Schema s;
    s.path_ = "/some/schema";
    unsigned types = sym_choice("types", 4), level = sym_choice("level", 3), kind = sym_choice("kind", 6), ndb = 1 + sym_choice("rules", 2), nix = sym_choice("indexes", 3);
    if (types == 3)
        s.registry_.addType("a", "Expver");
    auto preds = [&](unsigned l, const char* kw) {
        Rule::Predicates p;
        p.push_back(mkPred(kw, l == level ? kind : (unsigned)Always, a, b));
        if (l == level)
            p.push_back(mkPred("d", Opt, b, a));
        return p;
    };
    auto ty = [&](unsigned l) {
        eckit::StringDict t;
        if (types == l)
            t = {{"a", "Integer"}, {"d", "Time"}};
        return t;
    };
    for (unsigned d = 0; d < ndb; ++d) {
        RuleDatabase::Children ix;
        for (unsigned i = 0; i < nix; ++i) {
            auto pd = preds(2, "c"), pi = preds(1, "b");
            auto dat = std::make_unique<RuleDatum>(30 + i, pd, ty(2));
            ix.push_back(std::make_unique<RuleIndex>(20 + i, pi, ty(1), std::move(dat)));
        }
        auto p = preds(0, "a");
        s.rules_.push_back(std::make_unique<RuleDatabase>(10 + d, p, ty(0), ix));
    }
    s.check();
    eckit::Buffer buf(65536);
    eckit::MemoryStream w(buf);
    s.encode(w);
    eckit::MemoryStream r(buf.data(), w.position());
    Schema t(r);
    sym_assert(r.position() == w.position(), "consumed");
    sym_assert(t.path() == s.path() && t.rules_.size() == ndb, "rules");
    for (unsigned d = 0; d < ndb; ++d) {
        samePredicates(*s.rules_[d], *t.rules_[d], v);
        sym_assert(t.rules_[d]->rules().size() == nix, "index rules");
        for (unsigned i = 0; i < nix; ++i) {
            samePredicates(*s.rules_[d]->rules()[i], *t.rules_[d]->rules()[i], v);
            samePredicates(s.rules_[d]->rules()[i]->rule(), t.rules_[d]->rules()[i]->rule(), v);
            sym_assert(&t.rules_[d]->rules()[i]->rule().topRule() == t.rules_[d].get(), "parents");
        }
    }
    sym_reach("sent");
}
// ---- wipe plans
static eckit::URI uriNo(unsigned i, const char* where = "/fdb/od/") { return eckit::URI("file", eckit::PathName(std::string(where) + "f" + std::to_string(i) + ".data")); }
static const WipeElementType types[] = {WipeElementType::CATALOGUE, WipeElementType::CATALOGUE_INDEX, WipeElementType::STORE, WipeElementType::STORE_AUX, WipeElementType::CATALOGUE_CONTROL};
SYM_CASE(classes, "plans of up to 3 URIs each put in any of 9 ways (5 classes for deletion, safe before or after being marked, unrecognised, or not at all): what is marked, safe, counted and accepted as sane") {
    StoreWipeState st{eckit::URI("file", eckit::PathName("/fdb"))};
    unsigned how[3];
    size_t del = 0;
    bool insane = false;
    for (unsigned i = 0; i < 3; ++i) {
        how[i] = sym_choice("how", 9);
        eckit::URI u = uriNo(i);
        if (how[i] < 5) {
            st.markForDeletion(types[how[i]], u);
            ++del;
        }
        if (how[i] == 5) {
            st.markAsSafe({u});
            st.markForDeletion(WipeElementType::STORE, u);
        }
        if (how[i] == 6) {
            st.markForDeletion(WipeElementType::STORE, URIs{u});
            st.markAsSafe({u});
            insane = true;
            ++del;
        }
        if (how[i] == 7)
            st.insertUnrecognised(u);
    }
    sym_assert(st.countURIsToDelete() == del, "count");
    sym_assert(throws([&] { st.sanityCheck(); }) == insane, "a URI that is both safe and marked for deletion is refused");
    for (unsigned i = 0; i < 3; ++i) {
        sym_assert(st.isMarkedForDeletion(uriNo(i)) == (how[i] < 5 || how[i] == 6), "marked for deletion");
        sym_assert(st.isMarkedSafe(uriNo(i)) == (how[i] == 5 || how[i] == 6), "safe URIs stay safe");
        sym_assert(st.unrecognisedURIs().count(uriNo(i)) == (how[i] == 7), "unrecognised");
        if (how[i] < 5)
            sym_assert(st.deleteMap().at(types[how[i]]).count(uriNo(i)) == 1, "class");
    }
}
static bool sameState(const WipeState& a, const WipeState& b) { return a.deleteMap() == b.deleteMap() && a.safeURIs() == b.safeURIs() && a.unrecognisedURIs() == b.unrecognisedURIs(); }
SYM_CASE(plan, "catalogue wipe plans of 2 URIs in any of 8 ways (5 classes, safe, unrecognised, absent) and up to 2 stores with up to 2 included and 1 excluded URIs, database key values of one symbolic character, sent and received; stores must have been signed") {
    auto d = scratch();
    Config cfg = localConfig(d);
    Key db;
    db.push("cls", symStr("cls", 1, 1, word));
    db.push("ver", symStr("ver", 0, 1, word));
    CatalogueWipeState st(db, cfg);
    for (unsigned i = 0; i < 2; ++i) {
        unsigned how = sym_choice("how", 8);
        if (how < 5)
            st.markForDeletion(types[how], uriNo(i));
        if (how == 5)
            st.markAsSafe({uriNo(i)});
        if (how == 6)
            st.insertUnrecognised(uriNo(i));
    }
    st.setInfo(sym_bool("info") ? "some information" : "");
    unsigned stores = sym_choice("stores", 3);
    for (unsigned i = 0; i < stores; ++i) {
        const char* where = i ? "/other/od/" : "/fdb/od/";
        unsigned n = 1 + sym_choice("included", 2);
        for (unsigned k = 0; k < n; ++k)
            st.includeData(uriNo(10 + k, where));
        if (sym_bool("excluded"))
            st.excludeData(uriNo(20, where));
    }
    sym_assert(st.storeStates().size() == stores, "one state per store");
    eckit::Buffer buf(65536);
    {
        eckit::MemoryStream w(buf);
        sym_assert(throws([&] { w << st; }) == (stores > 0), "unsigned store states are not sent");
    }
    st.signStoreStates("secret");
    eckit::MemoryStream w(buf);
    w << st;
    eckit::MemoryStream r(buf.data(), w.position());
    CatalogueWipeState got(r, cfg);
    sym_assert(r.position() == w.position(), "consumed");
    sym_assert(sameState(got, st), "every URI keeps its class");
    sym_assert(got.dbKey() == db && got.info_ == st.info_, "key and information");
    sym_assert(got.storeStates().size() == stores, "stores");
    for (auto& kv : st.storeStates()) {
        auto it = got.storeStates().find(kv.first);
        sym_assert(it != got.storeStates().end(), "store");
        sym_assert(sameState(*it->second, *kv.second) && it->second->storeURI() == kv.second->storeURI(), "store state");
        sym_assert(it->second->signature().isSigned() && it->second->signature().validSignature(it->second->hash("secret")), "valid signature");
        sym_assert(!it->second->signature().validSignature(it->second->hash("other")), "only with the same secret");
        sym_assert(throws([&] { it->second->includeData(uriNo(1)); }) && throws([&] { it->second->excludeData(uriNo(1)); }), "signed states are not changed");
    }
    if (stores)
        sym_reach("stores");
}
SYM_CASE(signature, "two plans over 3 URIs, each included, excluded or absent, with one of two secrets: the signatures agree iff plans and secrets do") {
    unsigned a[4], b[4];
    StoreWipeState x{eckit::URI("file", eckit::PathName("/fdb"))}, y{eckit::URI("file", eckit::PathName("/fdb"))};
    bool same = true;
    for (unsigned i = 0; i < 3; ++i) {
        a[i] = sym_choice("a", 3);
        b[i] = sym_choice("b", 3);
        same &= a[i] == b[i];
        for (auto p : {std::make_pair(&x, a[i]), std::make_pair(&y, b[i])}) {
            if (p.second == 1)
                p.first->includeData(uriNo(i));
            if (p.second == 2)
                p.first->excludeData(uriNo(i));
        }
    }
    unsigned s = sym_choice("secret", 2);
    same &= !s;
    sym_assert((x.hash("one") == y.hash(s ? "two" : "one")) == same, "a signature stands for the URIs included, those excluded, and the secret");
}
SYM_CASE(fnv, "hash of two texts of up to 2 arbitrary characters (deep: 3) after a common prefix: equal iff the texts are") {
    auto any = [](unsigned char) { return true; };
    unsigned n = deep() ? 3 : 2;
    std::string a = symStr("a", 0, n, any), b = symStr("b", 0, n, any);
    bool same = a.size() == b.size();
    for (size_t i = 0; same && i < a.size(); ++i)
        same &= a[i] == b[i];
    sym_assert((Signature::fnv1a("/f" + a) == Signature::fnv1a("/f" + b)) == same, "hash");
}
// ---- the store server
struct Server {
    std::string dir;
    Config cfg;
    eckit::net::TCPSocket socket;
    std::unique_ptr<remote::StoreHandler> h;
    std::vector<eckit::URI> files;  // data files of the database
    Key db;
    Server() : dir(scratch()), cfg(localConfig(dir)) {
        for (unsigned i = 0; i < 3; ++i) {
            FDB f(cfg);
            f.archive(mkKey(fieldOf(0, i == 2, i == 1)), "some data", 9);
            f.flush();
        }
        FDB rd(cfg);
        auto it = rd.list(FDBToolRequest({}, true), true);
        ListElement e;
        while (it.next(e))
            files.push_back(e.location().uri());
        sym_assert(files.size() == 3, "three data files");
        db.push("cls", "od");
        db.push("ver", "0001");
        h = std::make_unique<remote::StoreHandler>(socket, cfg);
        h->single_ = true;
    }
    static eckit::URI remoteUri(const eckit::URI& u) {
        eckit::URI r("fdb", u, "host", 7000);
        r.query("internalScheme", u.scheme());
        return r;
    }
    eckit::URI storeUri() const { return remoteUri(eckit::URI("file", eckit::PathName(dir + "/root/od:0001"))); }
    bool there(unsigned i) const { return fs::exists(files[i].path().asString()); }
    bool finalise(const std::string& payload) {
        return !throws([&] { h->finaliseWipeState(1, 2, eckit::Buffer(payload.data(), payload.size())); });
    }
    bool act() {
        eckit::Buffer b(4096);
        eckit::MemoryStream s(b);
        s << db;
        return !throws([&] { h->doWipeURIs(1, 3, b); });
    }
    std::string payload(const StoreWipeState& st, bool doit) const {
        eckit::Buffer b(65536);
        eckit::MemoryStream s(b);
        s << db << st << false << doit;
        return std::string((const char*)b.data(), s.position());
    }
};
SYM_CASE(server, "plans for 3 data files, each included, excluded or absent, sent to a store server as signed, or with one file added, removed, excluded or no longer excluded after signing, signed with another secret, or with any other 64-bit signature; then told to go ahead") {
    Server s;
    StoreWipeState st(s.storeUri());
    unsigned how[3];
    unsigned inc = 0, exc = 0;
    for (unsigned i = 0; i < 3; ++i) {
        how[i] = sym_choice("how", 3);
        if (how[i] == 1)
            st.includeData(s.remoteUri(s.files[i])), ++inc;
        if (how[i] == 2)
            st.excludeData(s.remoteUri(s.files[i])), ++exc;
    }
    unsigned tamper = sym_choice("tamper", 7);
    st.sign(tamper == 5 ? "guess" : "secret");
    unsigned long long x = 0;
    unsigned t = 0;
    if (tamper && tamper < 5) {
        t = sym_choice("file", 3);
        eckit::URI u = s.remoteUri(s.files[t]);
        unsigned need[] = {0, 0, 1, 0, 2};
        if (how[t] != need[tamper])
            sym_end_path();
        if (tamper == 1)
            st.deleteURIs_[WipeElementType::STORE].insert(u);
        if (tamper == 2)
            st.deleteURIs_[WipeElementType::STORE].erase(u);
        if (tamper == 3)
            st.safeURIs_.insert(u);
        if (tamper == 4)
            st.safeURIs_.erase(u);
    }
    if (tamper == 6) {
        x = sym_any<unsigned long long>("signature", 1);
        sym_assume(x != 0);
    }
    bool doit = sym_choice("doit", 2);
    std::string p = s.payload(st, doit);
    if (tamper == 6) {
        st.signature_.sig_ = ~st.signature_.sig_;
        std::string q = s.payload(st, doit);
        unsigned k = 0;
        for (size_t i = 0; i < p.size(); ++i)
            if (p[i] != q[i])
                p[i] = char((unsigned char)p[i] ^ (unsigned char)(x >> (8 * k++)));
        sym_assert(k == 8, "the signature is sent");
    }
    wireOut().clear();
    bool ok = s.finalise(p);
    sym_assert(ok == (tamper == 0), "a plan is accepted iff it is the one that was signed");
    for (unsigned i = 0; i < 3; ++i)
        sym_assert(s.there(i), "nothing is deleted before the go-ahead");
    bool planned = ok && inc && doit;
    sym_assert(s.h->wipesInProgress_.size() == (planned ? 1 : 0), "only accepted plans that are to be carried out are kept");
    // the answer
    if (ok && inc) {
        auto& o = wireOut();
        sym_assert(o.size() > sizeof(remote::MessageHeader) + 4, "answered");
        eckit::MemoryStream r(o.data() + sizeof(remote::MessageHeader), o.size() - sizeof(remote::MessageHeader));
        URIs got[3];  // auxiliary, unrecognised, missing
        for (auto& g : got) {
            size_t n = 0;
            r >> n;
            for (; n; --n)
                g.insert(eckit::URI(r));
        }
        URIs &unknown = got[1], &missing = got[2];
        sym_assert(missing.empty(), "none is missing");
        unsigned stray = exc ? 0 : 3 - inc;
        for (unsigned i = 0; i < 3; ++i)
            sym_assert(unknown.count(eckit::URI("file", s.files[i].path())) == (exc == 0 && how[i] == 0), "files that the plan does not mention are unrecognised if it is for the whole database");
        sym_assert(stray == 0 || !unknown.empty(), "unrecognised");
    }
    bool did = s.act();
    sym_assert(did == planned, "no go-ahead without a plan");
    for (unsigned i = 0; i < 3; ++i)
        sym_assert(s.there(i) == !(planned && how[i] == 1), "exactly the files of the plan are deleted");
    if (planned)
        sym_reach("wiped");
}
SYM_CASE(replanned, "two plans for the same database one after the other on a connection, each over 3 data files (included or excluded), to be carried out or not; the go-ahead is for the last one") {
    Server s;
    unsigned how[2][3];
    bool doit[2];
    for (unsigned k = 0; k < 2; ++k) {
        StoreWipeState st(s.storeUri());
        unsigned inc = 0;
        for (unsigned i = 0; i < 3; ++i) {
            how[k][i] = sym_choice("included", 2);
            if (how[k][i])
                st.includeData(s.remoteUri(s.files[i])), ++inc;
            else
                st.excludeData(s.remoteUri(s.files[i]));
        }
        if (!inc)
            sym_end_path();
        st.sign("secret");
        doit[k] = sym_choice("doit", 2);
        sym_assert(s.finalise(s.payload(st, doit[k])), "accepted");
    }
    if (!doit[1])
        sym_end_path();
    sym_assert(s.act(), "carried out");
    for (unsigned i = 0; i < 3; ++i)
        sym_assert(s.there(i) == !how[1][i], "exactly the files of the last plan are deleted");
    sym_reach("wiped");
}
