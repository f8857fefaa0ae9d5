// Retrieval with FDB_DEDUPLICATE_FIELDS: each field once, the newest of those with the same name.
#include <time.h>
#include "local.h"
#include "fdb5/io/FieldHandle.h"
using namespace fdb5;
static time_t now = 1000000000;
extern "C" time_t time(time_t* t) {
    if (t)
        *t = now;
    return now;
}
// n.b. a hypercube only knows keywords of MARS
static const char* const marsSchema = "[ class, expver [ type, levtype [ param, step ]]]\n";
static KV marsField(unsigned ix, unsigned d) {
    return {{"class", "od"}, {"expver", "0001"}, {"type", ix ? "fc" : "an"}, {"levtype", "sfc"}, {"param", d ? "168" : "167"}, {"step", "0"}};
}
static std::string laneText(const std::string& dir, const std::string& root) {
    return "type: local\nengine: toc\nschema: " + dir + "/schema\nspaces:\n- handler: Default\n  roots:\n  - path: " + dir + "/" + root + "\n";
}
static std::string indented(const std::string& s) {
    std::string r = "- ";
    for (char c : s) {
        r += c;
        if (c == '\n')
            r += "  ";
    }
    while (!r.empty() && r.back() == ' ')
        r.pop_back();
    return r;
}
struct Lanes {
    std::string dir;
    Config lane[2], both;
};
static Lanes lanes(const std::string& dir) {
    writeFile(dir + "/schema", marsSchema);
    Lanes l;
    l.dir = dir;
    std::string y = "type: select\nfdbs:\n";
    for (int i = 0; i < 2; ++i) {
        std::string root = i ? "rootB" : "rootA";
        mkdir((dir + "/" + root).c_str(), 0777);
        l.lane[i] = Config(eckit::YAMLConfiguration(laneText(dir, root)));
        y += indented("select: class=od\n" + laneText(dir, root));
    }
    l.both = Config(eckit::YAMLConfiguration(y));
    return l;
}
void sym_setup() {
    setenv("FDB_DEDUPLICATE_FIELDS", "1", 1);
    localSetup();
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm2";
    mkdir(d.c_str(), 0777);
    Lanes l = lanes(d);
    for (int i = 0; i < 2; ++i) {
        FDB f(l.lane[i]);
        f.archive(mkKey(marsField(0, 0)), "abc", 3);
        f.flush();
    }
    FDB f(l.both);
    readAll(f.retrieve(mkRequest(marsField(0, 0))));
}
SYM_CASE(fields, "any subset of 3 (thorough: 4) fields of 2 indexes archived in either or both of two lanes at any of 2 times (of each lane; thorough: of each field); any two of them, or all, are retrieved in one request") {
    Lanes l = lanes(scratch());
    const unsigned nf = deep() ? 4 : 3;
    const unsigned ix[] = {0, 0, 1, 1}, da[] = {0, 1, 0, 1};
    std::map<std::string, std::pair<time_t, std::vector<std::string>>> best;  // by name: time, what is allowed
    std::vector<std::string> name(nf);
    unsigned serial = 0;
    for (unsigned i = 0; i < nf; ++i)
        name[i] = textOf(marsField(ix[i], da[i]));
    unsigned later = 0;
    for (unsigned lane = 0; lane < 2; ++lane) {
        if (!deep())
            later = sym_choice("later", 2);
        for (unsigned i = 0; i < nf; ++i) {
            if (!sym_choice(lane ? "in B" : "in A", 2))
                continue;
            if (deep())
                later = sym_choice("later", 2);
            now = 1000000000 + (later ? 5 : 0);
            FDB f(l.lane[lane]);
            // all of the same length, so that only what is in them tells them apart
            std::string data = std::string("data") + char('0' + serial++) + char('a' + i);
            f.archive(mkKey(marsField(ix[i], da[i])), data.data(), data.size());
            f.flush();
            auto& b = best[name[i]];
            if (b.second.empty() || now > b.first)
                b = {now, {data}};
            else if (now == b.first)
                b.second.push_back(data);
        }
    }
    now = 1000000100;
    // both values of the last keyword, of one index or of both
    unsigned which = sym_choice("request", 3);
    metkit::mars::MarsRequest rq = mkRequest(marsField(which == 1, 0));
    rq.values("param", std::vector<std::string>{"167", "168"});
    if (which == 2)
        rq.values("type", std::vector<std::string>{"an", "fc"});
    size_t fieldsWanted = 0;
    for (unsigned i = 0; i < nf; ++i)
        if ((which == 2 || ix[i] == which) && best.count(name[i]))
            ++fieldsWanted;
    bool seekable = sym_choice("seekable", 2);
    std::string got;
    FDB f(l.both);
    bool failed = throws([&] {
        if (seekable) {
            ListIterator it = f.inspect(rq);
            got = readAll(new FieldHandle(it));
        }
        else
            got = readAll(f.retrieve(rq));
    });
    if (!fieldsWanted) {
        sym_assert(failed || got.empty(), "nothing was there but something is retrieved");
        sym_reach("none");
        sym_end_path();
    }
    sym_assert(!failed, "fields that are there cannot be retrieved");
    sym_assert(got.size() == 6 * fieldsWanted, "not each field is retrieved once");
    for (unsigned i = 0; i < nf; ++i)
        if ((which == 2 || ix[i] == which) && best.count(name[i])) {
            unsigned seen = 0;
            for (size_t p = 0; p < got.size(); p += 6)
                for (auto& a : best[name[i]].second)
                    seen += got.substr(p, 6) == a;
            sym_assert(seen == 1, "a field is not retrieved once as it was archived last");
        }
    sym_reach(seekable ? "seekable" : "plain");
    sym_end_path();
}
