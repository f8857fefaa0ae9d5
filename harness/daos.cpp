#include "common.h"
#include <sys/stat.h>
#include <unistd.h>
#include "eckit/filesystem/URI.h"
#include "fdb5/daos/DaosName.h"
#include "fdb5/daos/DaosOID.h"
#include "fdb5/daos/DaosSession.h"
#include "fdb5/daos/UUID.h"
using namespace fdb5;
void sym_setup() { harnessInit(); }
static const daos_otype_t types[3] = {DAOS_OT_KV_HASHED, DAOS_OT_ARRAY, DAOS_OT_ARRAY_BYTE};
// text of 64 bits as 16 hexadecimal digits
static std::string hex64(uint64_t v) {
    std::string s(16, '0');
    for (unsigned i = 0; i < 16; ++i) {
        unsigned n = v >> (60 - 4 * i) & 15;
        s[i] = (char)('0' + n + (n > 9) * ('a' - '0' - 10));
    }
    return s;
}
SYM_CASE(print, "every 128-bit object id") {
    uint64_t hi = sym_any<uint64_t>("hi"), lo = sym_any<uint64_t>("lo");
    DaosOID o(hi, lo);
    sym_assert(o.wasGenerated(), "complete");
    sym_assert(o.asDaosObjIdT().hi == hi && o.asDaosObjIdT().lo == lo, "keeps all bits");
    sym_assert((unsigned)o.otype() == (unsigned)(hi >> 56), "type bits");
    sym_assert((o.oclass() & 0xff) == (hi >> 48 & 0xff), "class bits");
}
SYM_CASE(parse, "32 characters, 4 (thorough 8) of them any, at either end of either half") {
    unsigned n = deep() ? 4 : 2;
    unsigned at = sym_choice("where", 2) ? 16 - n : 0;
    std::string t = "0b01123456789abcfedcba9876543210";
    t = t.substr(0, 32);
    while (t.size() < 32)
        t += '7';
    bool ok = true;
    for (unsigned h = 0; h < 2; ++h)
        for (unsigned i = 0; i < n; ++i) {
            unsigned char c = sym_any<unsigned char>("c", '0');
            t[h * 16 + at + i] = (char)c;
            bool x = (unsigned(c - '0') < 10u) | (unsigned((c | 32) - 'a') < 6u);
            ok = ok & x;
        }
    std::unique_ptr<DaosOID> o;
    bool thrown = throws([&] { o.reset(new DaosOID(t)); });
    sym_assert(thrown == !ok, "text is accepted exactly if it is 32 hexadecimal digits");
    if (thrown)
        return;
    auto val = [&](unsigned from) {
        uint64_t v = 0;
        for (unsigned i = 0; i < 16; ++i) {
            unsigned char c = t[from + i];
            v = v << 4 | (uint64_t)((c & 15) + (c >> 6) * 9);
        }
        return v;
    };
    sym_assert(o->asDaosObjIdT().hi == val(0) && o->asDaosObjIdT().lo == val(16), "parses to the value written");
    sym_assert((unsigned)o->otype() == (unsigned)(val(0) >> 56), "type bits");
    bool kv = throws([&] { DaosKeyValueOID k(t); }), ar = throws([&] { DaosArrayOID k(t); }), by = throws([&] { DaosByteArrayOID k(t); });
    unsigned ty = val(0) >> 56;
    sym_assert(kv == (ty != DAOS_OT_KV_HASHED) && ar == (ty != DAOS_OT_ARRAY) && by == (ty != DAOS_OT_ARRAY_BYTE), "an id is accepted as the kind of object that its bits state");
}
SYM_CASE(lengths, "texts of 0..40 digits") {
    unsigned n = sym_choice("n", 41);
    std::string t(n, 'a');
    sym_assert(throws([&] { DaosOID o(t); }) == (n != 32), "only 32 digits are accepted");
}
SYM_CASE(roundtrip, "ids with any one of the 32 hexadecimal digits of each value (quick: 8 of them); printed and parsed") {
    static const unsigned quick[4] = {0, 7, 8, 15};
    unsigned sh = 4 * (deep() ? sym_choice("digit", 16) : quick[sym_choice("digit", 4)]);
    uint64_t hi = 0x0b0112340056789aULL, lo = 0x00f0e0d0c0b0a090ULL;
    uint64_t b = sym_range<uint8_t>("b", 0, 15);
    if (sym_choice("word", 2))
        hi = (hi & ~(0xfULL << sh)) | b << sh;
    else
        lo = (lo & ~(0xfULL << sh)) | b << sh;
    DaosOID o(hi, lo);
    std::string t = o.asString();
    sym_assert(t == hex64(hi) + hex64(lo), "prints 32 hexadecimal digits");
    DaosOID r(t);
    sym_assert(r == o && r.asDaosObjIdT().hi == hi && r.asDaosObjIdT().lo == lo && r.otype() == o.otype() && r.oclass() == o.oclass(), "parses to the same id");
    DaosOID other(hi ^ (1ULL << 3), lo);
    sym_assert(!(other == o), "different ids differ");
}
SYM_CASE(created, "ids created from any 96 user bits, or from a name, with each type: type and class bits are set on generation, the user bits kept") {
    unsigned ty = sym_choice("type", 3);
    bool named = sym_choice("named", 2);
    uint32_t uh = 0;
    uint64_t ul = 0;
    std::unique_ptr<DaosOID> o, same;
    if (named) {
        std::string n = symStr("name", 0, 2, [](unsigned char c) { return unsigned(c - 'a') < 3u; });
        o.reset(new DaosOID(n, types[ty], OC_S1));
        same.reset(new DaosOID(n, types[ty], OC_S1));
        sym_assert(*o == *same, "a name always gives the same id");
        DaosOID diff(n + "x", types[ty], OC_S1);
        sym_assert(!(*o == diff), "another name gives another id");
        sym_assert(o->asDaosObjIdT().hi >> 32 == 0, "reserved bits are clear");
        uh = o->asDaosObjIdT().hi;
        ul = o->asDaosObjIdT().lo;
    }
    else {
        uh = sym_any<uint32_t>("hi");
        ul = sym_any<uint64_t>("lo");
        o.reset(new DaosOID(uh, ul, types[ty], OC_S1));
    }
    sym_assert(!o->wasGenerated(), "not complete yet");
    sym_assert(o->otype() == types[ty] && o->oclass() == OC_S1, "type and class as created");
    sym_assert(throws([&] { o->asString(); }), "an incomplete id has no text");
    // the DAOS library sets the reserved bits
    daos_handle_t h;
    h.impl = (daos_handle_internal_t*)8;
    daos_obj_id_t id = o->asDaosObjIdT();
    sym_assert(daos_obj_generate_oid(h, &id, o->otype(), o->oclass(), 0, 0) == 0, "generated");
    sym_assert((uint32_t)id.hi == uh && id.lo == ul, "user bits are kept");
    DaosOID g(id.hi, id.lo);
    sym_assert(g.otype() == types[ty], "the generated id is of the type it was created with");
    sym_assert((g.oclass() & 0xff) == (OC_S1 & 0xff), "and class");
}
SYM_CASE(names, "daos URIs of a pool, container and object") {
    std::string pool = symStr("pool", 1, 1, [](unsigned char c) { return unsigned(c - 'a') < 2u; }) + "p";
    std::string cont = "c" + symStr("cont", 1, 1, [](unsigned char c) { return unsigned(c - '0') < 2u; });
    DaosOID oid(0x0b01000000000000ULL | sym_range<uint8_t>("oid", 0, 3), 5);
    unsigned n = sym_choice("parts", 3);
    DaosNameBase* a = n == 0 ? (DaosNameBase*)new DaosName(pool) : n == 1 ? (DaosNameBase*)new DaosName(pool, cont) : (DaosNameBase*)new DaosArrayName(pool, cont, DaosArrayOID(oid.asString()));
    eckit::URI u = a->URI();
    DaosName b(u);
    sym_assert(b.poolName() == pool, "pool");
    sym_assert(b.hasContainerName() == (n > 0) && (n == 0 || b.containerName() == cont), "container");
    sym_assert(b.hasOID() == (n > 1) && (n < 2 || b.OID() == oid), "object");
    DaosName c{eckit::URI(u.asRawString())};
    sym_assert(c.asString() == a->asString() && b.asString() == a->asString(), "through text");
}
static bool isHex(unsigned char c) { return (unsigned(c - '0') < 10u) | (unsigned((c | 32) - 'a') < 6u); }
SYM_CASE(uuids, "uuid text with one character any at any of 36 (quick: 8) places, or one character too short or long") {
    std::string t = "e1a2b3c4-1234-5678-9abc-def012345678";
    unsigned n = sym_choice("length", 3);
    if (n == 1)
        t.pop_back();
    if (n == 2)
        t += "0";
    static const unsigned places[8] = {0, 7, 8, 9, 13, 23, 24, 35};
    unsigned at = deep() ? sym_choice("at", 36) : places[sym_choice("at", 8)];
    if (at >= t.size() || (n && at > 3))
        sym_end_path();
    unsigned char c = sym_any<unsigned char>("c", '1');
    t[at] = (char)c;
    bool dash = at == 8 || at == 13 || at == 18 || at == 23;
    bool ok = (n == 0) & (dash ? c == '-' : isHex(c));
    UUID z;
    for (unsigned i = 0; i < 16; ++i)
        sym_assert(z.internal[i] == 0, "an empty uuid is zero");
    std::unique_ptr<UUID> u;
    bool thrown = throws([&] { u.reset(new UUID(t)); });
    sym_assert(thrown == !ok, "text is accepted exactly if it is a uuid");
    if (thrown)
        return;
    std::string hexs;
    for (char x : t)
        if (x != '-')
            hexs += x;
    for (unsigned i = 0; i < 16; ++i) {
        auto v = [&](unsigned char x) { return (unsigned)((x & 15) + (x >> 6) * 9); };
        sym_assert(u->internal[i] == v(hexs[2 * i]) * 16 + v(hexs[2 * i + 1]), "bytes as written");
    }
    char back[40];
    uuid_unparse(u->internal, back);
    for (unsigned i = 0; i < 36; ++i)
        sym_assert(back[i] == (t[i] >= 'A' && t[i] <= 'Z' ? t[i] + 32 : t[i]), "prints as it was written");
}
