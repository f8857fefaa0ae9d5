// Requests for several fields: every field they denote is found, once, whichever database, index and flush it went to
#include "local.h"
using namespace fdb5;
// typed keywords, an optional one, two rules of which the second has other keywords
static const char* const typedSchema =
    "param: Param;\nstep: Step;\ndate: Date;\n"
    "[ class=od/rd, expver, date [ type, levtype=sfc [ param, step ]] [ type, levtype=pl [ param, step, levelist, number? ]]]\n";
struct Def {
    const char *expver, *date, *type, *level, *param, *step;
};
static const Def defs[] = {
    {"0001", "20200101", "fc", nullptr, "167.128", "0"}, {"0001", "20200101", "fc", nullptr, "168.128", "6"}, {"0001", "20200101", "fc", nullptr, "167.128", "6"},
    {"0001", "20200101", "an", nullptr, "167.128", "0"}, {"0002", "20200101", "fc", nullptr, "167.128", "0"}, {"0001", "20200101", "fc", "500", "130.128", "0"},
    {"0001", "20200102", "fc", nullptr, "168.128", "0"},
};
static const unsigned ND = sizeof(defs) / sizeof(defs[0]);
static KV keyOf(const Def& d) {
    KV k = {{"class", "od"}, {"expver", d.expver}, {"date", d.date}, {"type", d.type}, {"levtype", d.level ? "pl" : "sfc"}, {"param", d.param}, {"step", d.step}};
    if (d.level)
        k["levelist"] = d.level;
    return k;
}
typedef std::vector<std::string> L;
static bool has(const L& l, const std::string& v) {
    return std::find(l.begin(), l.end(), v) != l.end();
}
// what is asked for: canonical values, and how they are written
struct Ask {
    L canonical, text;
};
static const std::vector<Ask> expvers = {{{"0001"}, {"0001"}}, {{"0002", "0001"}, {"0002", "0001"}}, {{"0001", "0002"}, {"0001", "0003", "0002"}}};
static const std::vector<Ask> dates = {{{"20200101"}, {"20200101"}}, {{"20200102", "20200101"}, {"2020-01-02", "20200101"}}};
static const std::vector<Ask> types = {{{"fc"}, {"fc"}}, {{"an", "fc"}, {"an", "fc"}}};
static const std::vector<Ask> levels = {{{"sfc"}, {"sfc"}}, {{"sfc", "pl"}, {"sfc", "pl"}}};
static const std::vector<Ask> params = {{{"167.128"}, {"167.128"}}, {{"168.128", "167.128", "130.128"}, {"168", "167.128", "130"}}};
static const std::vector<Ask> steps = {{{"0"}, {"0"}}, {{"6", "0"}, {"6", "0"}}, {{"0", "6"}, {"0", "3", "6"}}};
void sym_setup() {
    localSetup();
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm3";
    mkdir(d.c_str(), 0777);
    Config c = localConfig(d, typedSchema);
    FDB f(c);
    f.archive(mkKey(keyOf(defs[0])), "12345678", 8);
    f.archive(mkKey(keyOf(defs[5])), "12345678", 8);
    f.flush();
    KV k = keyOf(defs[0]);
    readAll(f.retrieve(mkRequest(k)));
    throws([] { throw eckit::UserError("x"); });
}
struct Stored {
    unsigned d;
    std::string bytes;
};
static std::vector<std::string> pieces(const std::string& s) {
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size(); i += 8)
        r.push_back(s.substr(i, 8));
    return r;
}
// one request against what is stored (newest bytes per field); ordered tells whether several come in the order asked for
static void ask(FDB& rd, const std::map<unsigned, std::string>& stored, const Ask& x, const Ask& d, const Ask& t, const Ask& l, const Ask& p, const Ask& s) {
    metkit::mars::MarsRequest r("retrieve");
    r.setValue("class", std::string("od"));
    r.values("expver", x.text);
    r.values("date", d.text);
    r.values("type", t.text);
    r.values("levtype", l.text);
    r.values("param", p.text);
    r.values("step", s.text);
    if (l.canonical.size() > 1)
        r.setValue("levelist", std::string("500"));
    std::multiset<std::string> want;
    for (auto& i : stored) {
        const Def& f = defs[i.first];
        if (has(x.canonical, f.expver) && has(d.canonical, f.date) && has(t.canonical, f.type) && has(l.canonical, f.level ? "pl" : "sfc") && has(p.canonical, f.param) && has(s.canonical, f.step))
            want.insert(i.second);
    }
    // what is there is inspected, each once
    std::multiset<std::string> seen;
    std::vector<std::string> order;
    auto it = rd.inspect(r);
    ListElement e;
    while (it.next(e)) {
        order.push_back(readAll(e.location().dataHandle()));
        seen.insert(order.back());
    }
    sym_assert(seen == want, "inspect finds every field the request denotes, once, and no other");
    std::string got;
    bool none = throws([&] { got = readAll(rd.retrieve(r)); });
    auto parts = pieces(got);
    sym_assert(std::multiset<std::string>(parts.begin(), parts.end()) == want && (!none || want.empty()), "retrieve delivers every field the request denotes, once, and no other");
    sym_assert(none || parts == order, "in the order they are found");
}
static void run(unsigned n, bool wide) {
    std::string dir = scratch();
    bool subtoc = sym_choice("subtoc", 2);
    Config c = localConfig(dir, typedSchema);
    if (subtoc)
        c = Config(c, eckit::YAMLConfiguration(std::string("useSubToc: true")));
    std::map<unsigned, std::string> stored;
    std::unique_ptr<FDB> f(new FDB(c));
    for (unsigned i = 0; i < n; ++i) {
        unsigned d = sym_choice("field", ND);
        std::string b = "field" + std::to_string(100 + i);
        f->archive(mkKey(keyOf(defs[d])), b.data(), b.size());
        stored[d] = b;
        if (sym_choice("flush", 2))
            f->flush();
    }
    f->flush();
    if (sym_choice("closed", 2))
        f.reset();
    FDB rd(c);
    for (auto& x : expvers)
        for (auto& d : dates)
            for (auto& t : types)
                for (auto& l : levels)
                    for (auto& p : params)
                        for (auto& s : steps) {
                            // quick: requests with at most three keywords of several values
                            unsigned many = (x.text.size() > 1) + (d.text.size() > 1) + (t.text.size() > 1) + (l.text.size() > 1) + (p.text.size() > 1) + (s.text.size() > 1);
                            if (wide || many < 2 || many > 4)
                                ask(rd, stored, x, d, t, l, p, s);
                        }
}
SYM_CASE(fields, "2 (thorough 3) fields out of 7 (2 experiments, 2 dates, 2 types, 2 level types with different rules, 2 parameters, 2 steps), flushed together or apart, with or without sub-tables, the writer closed or not; requests with one or several values per keyword, some spelled otherwise or not there (quick: 24 of them, thorough: 144)") {
    run(deep() ? 3 : 2, deep());
}
// indexes that hold only some of the combinations of the values they hold
static const Def grid[] = {
    {"0001", "20200101", "fc", nullptr, "167.128", "0"}, {"0001", "20200101", "fc", nullptr, "168.128", "6"}, {"0001", "20200101", "fc", nullptr, "167.128", "6"}, {"0001", "20200101", "fc", nullptr, "168.128", "0"},
};
SYM_CASE(sparse, "3 (thorough 4) fields of one index out of 2 parameters by 2 steps, flushed together, apart or from another session, with or without sub-tables; each of them retrieved alone, and requests for 2 or 4 of them") {
    std::string dir = scratch();
    bool subtoc = sym_choice("subtoc", 2);
    Config c = localConfig(dir, typedSchema);
    if (subtoc)
        c = Config(c, eckit::YAMLConfiguration(std::string("useSubToc: true")));
    std::map<std::pair<std::string, std::string>, std::string> stored;
    std::unique_ptr<FDB> f(new FDB(c));
    unsigned n = deep() ? 4 : 3;
    for (unsigned i = 0; i < n; ++i) {
        const Def& d = grid[sym_choice("field", 4)];
        std::string b = "field" + std::to_string(100 + i);
        f->archive(mkKey(keyOf(d)), b.data(), b.size());
        stored[{d.param, d.step}] = b;
        unsigned fl = i + 1 == n ? 1 + sym_choice("closed", 2) : sym_choice("flush", 3);
        if (fl)
            f->flush();
        if (fl == 2)
            f.reset(new FDB(c));
    }
    FDB rd(c);
    const L ps[] = {{"167.128"}, {"168.128"}, {"168.128", "167.128"}}, ss[] = {{"0"}, {"6"}, {"0", "6"}};
    for (auto& p : ps)
        for (auto& s : ss) {
            metkit::mars::MarsRequest r = mkRequest({{"class", "od"}, {"expver", "0001"}, {"date", "20200101"}, {"type", "fc"}, {"levtype", "sfc"}});
            r.values("param", p);
            r.values("step", s);
            std::multiset<std::string> want;
            for (auto& x : p)
                for (auto& y : s)
                    if (auto i = stored.find({x, y}); i != stored.end())
                        want.insert(i->second);
            std::string got;
            bool none = throws([&] { got = readAll(rd.retrieve(r)); });
            auto parts = pieces(got);
            sym_assert(std::multiset<std::string>(parts.begin(), parts.end()) == want && (!none || want.empty()), "every field of an index is delivered, whatever else the indexes hold");
        }
    if (stored.size() > 2)
        sym_reach("sparse");
}
