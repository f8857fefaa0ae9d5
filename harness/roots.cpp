// Which directory a database is put into, and that it is found again there: naming rules, spaces, roots and their flags.
#include "local.h"
#include "fdb5/toc/RootManager.h"
using namespace fdb5;
typedef std::set<std::string> Set;
static Config spaced(const std::string& dir, const std::string& spaces, const std::string& schema = plainSchema) {
    writeFile(dir + "/schema", schema);
    return Config(eckit::YAMLConfiguration("type: local\nengine: toc\nfdb_home: " + dir + "\nschema: " + dir + "/schema\nspaces:\n" + spaces));
}
static KV db(const std::string& ver, const std::string& cls = "od") {
    auto k = fieldOf(0, 0, 0);
    k["ver"] = ver;
    k["cls"] = cls;
    return k;
}
static Key dbKey(const std::string& ver, const std::string& cls = "od") {
    Key k;
    k.push("cls", cls);
    k.push("ver", ver);
    return k;
}
static bool archive(const Config& c, const KV& k, const char* data = "data") {
    return !throws([&] {
        FDB f(c);
        f.archive(mkKey(k), data, 4);
        f.flush();
    });
}
// database values of what is listed
static std::multiset<std::string> found(const Config& c, const KV& rq) {
    FDB f(c);
    std::multiset<std::string> r;
    auto it = f.list(FDBToolRequest(rq.empty() ? metkit::mars::MarsRequest{} : mkRequest(rq), rq.empty()), false);
    ListElement e;
    while (it.next(e))
        r.insert(e.keys()[0].get("cls") + ":" + e.keys()[0].get("ver"));
    return r;
}
static void dirs(const std::string& root, Set& out) {
    if (fs::exists(root))
        for (auto& e : fs::directory_iterator(root))
            if (e.is_directory())
                out.insert(e.path().filename().string());
}
void sym_setup() {
    localSetup();
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm3";
    mkdir(d.c_str(), 0777);
    mkdir((d + "/a").c_str(), 0777);
    mkdir((d + "/etc").c_str(), 0777);
    mkdir((d + "/etc/fdb").c_str(), 0777);
    writeFile(d + "/etc/fdb/dbnames", "cls,ver=x {cls}-{ver}\n");
    auto c = spaced(d, "- regex: ^od:0\n  roots:\n  - path: " + d + "/a\n- regex: .*\n  roots:\n  - path: " + d + "/a\n    writable: false\n    visit: false\n");
    archive(c, db("0001"));
    archive(c, db("1"));
    found(c, {});
    found(c, {{"ver", "1"}});
    found(c, {{"ver", "x"}, {"cls", "od"}});
    throws([&] { FDB(c).retrieve(mkRequest(db("0001"))); });
}
SYM_CASE(names, "two database keys with values of 0..2 arbitrary characters except ':' and '/': the directory names are the same iff the keys are") {
    auto dir = scratch();
    auto c = spaced(dir, "- roots:\n  - path: " + dir + "/a\n");
    CatalogueRootManager m(c);
    auto ok = [](unsigned char ch) { return (ch != ':') & (ch != '/') & (ch != 0); };
    std::string v[4];
    for (auto& x : v)
        x = symStr("value", 0, deep() ? 2 : 1, ok);
    auto eq = [](const std::string& a, const std::string& b) {
        bool r = a.size() == b.size();
        for (size_t i = 0; r && i < a.size(); ++i)
            r = r & (a[i] == b[i]);
        return r;
    };
    std::string a = m.dbPathName(dbKey(v[0], v[1])), b = m.dbPathName(dbKey(v[2], v[3]));
    sym_assert(eq(a, b) == (eq(v[0], v[2]) & eq(v[1], v[3])), "names");
}
SYM_CASE(special, "a database whose value has one of 16 characters (a letter, a digit, those with a meaning in regular expressions) beside one where it has another character: each found under every request that selects it, and under no other") {
    static const char chars[] = "a0.+*?^$()[]{}|-_\\";
    auto dir = scratch();
    mkdir((dir + "/a").c_str(), 0777);
    auto c = spaced(dir, "- roots:\n  - path: " + dir + "/a\n");
    std::string v = std::string("x") + chars[sym_choice("character", sizeof chars - 1)] + "1", w = sym_choice("other", 2) ? "xb1" : "xx1";
    sym_assert(archive(c, db(v)) && archive(c, db(w)), "archived");
    typedef std::multiset<std::string> M;
    M only{"od:" + v}, other{"od:" + w}, both{"od:" + v, "od:" + w};
    sym_assert(found(c, {{"cls", "od"}, {"ver", v}}) == only && found(c, {{"ver", v}}) == only, "found by its value");
    sym_assert(found(c, {{"cls", "od"}, {"ver", w}}) == other && found(c, {{"ver", w}}) == other, "and the other by its own");
    sym_assert(found(c, {{"cls", "od"}}) == both && found(c, {}) == both, "both");
    sym_assert(found(c, {{"cls", "rd"}}).empty(), "none");
    FDB f(c);
    sym_assert(readAll(f.retrieve(mkRequest(db(v)))) == "data", "retrieved");
}
// ---- naming rules
SYM_CASE(dbnames, "a naming file with 0..2 rules out of 6 (comments, other number of keywords, value patterns, formats with one or both values or with a prefix), 2 databases out of 4: where each is put; found again under every request that selects it; formats without a value refuse or keep apart what they merge") {
    struct R {
        const char* line;
        const char* cls;  // values that match
        const char* ver;
        const char* fmt;  // c and v are the values
    };
    static const R rules[] = {{"cls,ver {cls}-{ver}", "", "", "c-v"}, {"cls=od,ver e_{ver}_{cls}", "od", "", "e_v_c"}, {"cls=rd,ver=0002 rd2", "rd", "0002", "rd2"},
                              {"# cls,ver {cls}-{ver}", "no", "no", ""}, {"cls {cls}", "no", "no", ""}, {"ver=0001,cls   {cls}.{ver}", "", "0001", "c.v"}};
    auto dir = scratch();
    mkdir((dir + "/a").c_str(), 0777);
    mkdir((dir + "/etc").c_str(), 0777);
    mkdir((dir + "/etc/fdb").c_str(), 0777);
    unsigned n = sym_choice("rules", 3), r[2];
    std::string text = "# names\n\n";
    for (unsigned i = 0; i < n; ++i) {
        r[i] = sym_choice("rule", 6);
        text += std::string(rules[r[i]].line) + "\n";
    }
    if (n)
        writeFile(dir + "/etc/fdb/dbnames", text);
    auto c = spaced(dir, "- roots:\n  - path: " + dir + "/a\n");
    std::map<std::string, std::pair<std::string, std::string>> dbs;
    Set want;
    for (unsigned i = 0; i < 2; ++i) {
        unsigned x = sym_choice("database", 4);
        if (i && dbs.count(std::string(x & 1 ? "rd" : "od") + ":" + (x & 2 ? "0002" : "0001")))
            sym_end_path();
        std::string cls = x & 1 ? "rd" : "od", ver = x & 2 ? "0002" : "0001", name = cls + ":" + ver;
        dbs[name] = {cls, ver};
        for (unsigned k = 0; k < n; ++k) {
            auto& u = rules[r[k]];
            if ((*u.cls && u.cls != cls) || (*u.ver && u.ver != ver))
                continue;
            name = u.fmt;
            if (name != "rd2")
                name = u.fmt == std::string("c-v") ? cls + "-" + ver : u.fmt == std::string("c.v") ? cls + "." + ver : "e_" + ver + "_" + cls;
            break;
        }
        want.insert(name);
        sym_assert(archive(c, db(ver, cls)), "archived");
    }
    Set got;
    dirs(dir + "/a", got);
    sym_assert(got == want, "the first rule that matches the key names the directory");
    for (auto& q : std::vector<KV>{{}, {{"cls", "od"}}, {{"cls", "rd"}}, {{"ver", "0001"}}, {{"ver", "0002"}}, {{"cls", "od"}, {"ver", "0001"}}, {{"cls", "rd"}, {"ver", "0002"}}}) {
        std::multiset<std::string> w;
        for (auto& d : dbs)
            if ((!q.count("cls") || q.at("cls") == d.second.first) && (!q.count("ver") || q.at("ver") == d.second.second))
                w.insert(d.first);
        sym_assert(found(c, q) == w, "found under every request that selects it");
    }
    for (auto& d : dbs) {
        FDB f(c);
        sym_assert(readAll(f.retrieve(mkRequest(db(d.second.second, d.second.first)))) == "data", "retrieved");
    }
}
// ---- spaces and roots
struct RootCfg {
    bool list = true, retrieve = true, archive = true, exists = true;
    unsigned has = 0;  // databases
};
SYM_CASE(spaces, "two spaces (6 patterns for the first), the first with two roots, each with any of 6 sets of flags or missing, one of which may hold the database already; a key of one of two databases: where it is archived or that it is refused; what is listed by 4 requests; whether it is retrieved") {
    auto dir = scratch();
    static const char* const flags[] = {"", "    writable: false\n", "    visit: false\n", "    retrieve: false\n", "    list: false\n", "    archive: false\n", nullptr};
    static const char* const patterns[] = {".*", "^od:.*", "^od:0001$", "^rd:", "0002", "^od:000[12]"};
    unsigned pat = sym_choice("pattern", 6);
    RootCfg r[3];
    std::string y = std::string("- regex: \"") + patterns[pat] + "\"\n  roots:\n";
    for (unsigned i = 0; i < 3; ++i) {
        std::string p = dir + "/r" + std::to_string(i);
        unsigned fl = i == 2 ? 0 : sym_choice("flags", 7);
        if (i == 2)
            y += "- regex: .*\n  roots:\n";
        y += "  - path: " + p + "\n";
        if (fl == 6)
            r[i].exists = false;
        else {
            mkdir(p.c_str(), 0777);
            y += flags[fl];
            r[i].list = fl != 2 && fl != 4;
            r[i].retrieve = fl != 2 && fl != 3;
            r[i].archive = fl != 1 && fl != 5;
        }
    }
    unsigned ver = sym_choice("database", 2);
    std::string v = ver ? "0002" : "0001";
    bool first = pat == 0 || pat == 1 || pat == 5 || (pat == 2 && ver == 0) || (pat == 4 && ver == 1);
    unsigned pre = sym_choice("already", 3);  // in root pre-1
    if (pre) {
        if (!r[pre - 1].exists || !first)
            sym_end_path();
        sym_assert(archive(spaced(dir, "- roots:\n  - path: " + dir + "/r" + std::to_string(pre - 1) + "\n"), db(v), "olds"), "archived before");
    }
    auto c = spaced(dir, y);
    // where it goes
    int at = -1;
    bool found_ = false;
    if (first) {
        if (pre && r[pre - 1].list)
            at = pre - 1, found_ = true;
        else
            for (unsigned i = 0; i < 2 && at < 0; ++i)
                if (r[i].exists && r[i].archive)
                    at = i;
    }
    else
        at = 2;
    bool may = at >= 0 && r[at].archive;
    auto before = snapshot(dir);
    bool did = archive(c, db(v));
    sym_assert(did == may, "archived iff there is a root for it that allows it");
    if (!did)
        sym_assert(snapshot(dir) == before, "otherwise nothing changes");
    Set in[3];
    for (unsigned i = 0; i < 3; ++i) {
        dirs(dir + "/r" + std::to_string(i), in[i]);
        Set want;
        if ((pre && pre - 1 == i) || (may && at == (int)i))
            want.insert("od:" + v);
        sym_assert(in[i] == want, "in the first root of the first space that matches, unless it is already in another");
    }
    // what is seen
    unsigned visible = 0;
    for (unsigned i = 0; i < 3; ++i)
        if (in[i].size() && r[i].list)
            visible += 1 + (pre && pre - 1 == i && may && at == (int)i);
    std::vector<KV> rqs = {{}, {{"cls", "od"}}, {{"ver", v}}, {{"cls", "od"}, {"ver", v}}};
    for (auto& q : rqs)
        sym_assert(found(c, q).size() == visible, "listed iff the root it is in may be listed");
    // whether it is retrieved
    std::string data;
    bool got = !throws([&] {
        FDB f(c);
        data = readAll(f.retrieve(mkRequest(db(v))));
    });
    int from = -1;
    for (unsigned i = 0; i < 3; ++i)
        if (in[i].size() && r[i].list)
            from = i;
    if (from >= 0 && r[from].retrieve)
        sym_assert(got && data == (may && at == from ? "data" : "olds"), "retrieved");
    if (from >= 0 && !r[from].retrieve)
        sym_assert(!got || data.empty(), "not from a root that does not allow it");
    if (did)
        sym_reach("archived");
}
SYM_CASE(twice, "a database that is in two of three roots: refused, unless it may be in several") {
    auto dir = scratch();
    std::string y = "- roots:\n";
    unsigned a = sym_choice("first", 3), b = sym_choice("second", 3), allow = sym_choice("allowed", 4), list = sym_choice("unlisted", 4);
    for (unsigned i = 0; i < 3; ++i) {
        std::string p = dir + "/r" + std::to_string(i);
        mkdir(p.c_str(), 0777);
        y += "  - path: " + p + "\n";
        if (i == list)
            y += "    list: false\n";
        if (i == a || i == b) {
            sym_assert(archive(spaced(dir, "- roots:\n  - path: " + p + "\n"), db("0001")), "archived");
            if ((i == a && allow & 1) || (i == b && allow & 2))
                writeFile(p + "/od:0001/duplicates.allow", "");
        }
    }
    auto c = spaced(dir, y);
    unsigned strict = 0;
    for (unsigned i = 0; i < 3; ++i)
        if (i != list && (i == a || i == b) && !((i == a && allow & 1) || (i == b && allow & 2)))
            ++strict;
    std::string at;
    bool refused = throws([&] { at = CatalogueRootManager(c).directory(dbKey("0001")).directory_.asString(); });
    sym_assert(refused == (strict > 1), "refused iff it is in two roots");
    if (!refused && (a != list || b != list)) {
        bool there = false;
        for (unsigned i = 0; i < 3; ++i)
            there |= i != list && (i == a || i == b) && at == dir + "/r" + std::to_string(i) + "/od:0001";
        sym_assert(there, "in a root where it is");
    }
}
// ---- one root per expver
#include "fdb5/toc/ExpverFileSpaceHandler.h"
#include "fdb5/toc/FileSpace.h"
SYM_CASE(expver, "the expver handler with a file of 0..2 known values, a value of 0..5 characters (digits, letters of either case, others), two roots of which either may be not writable, FDB_ROOT unset or one of three, another process that may choose first: always the same root for a value, before and after restarting; refused only if it is not a value or there is no such root") {
    auto dir = scratch();
    mkdir((dir + "/etc").c_str(), 0777);
    mkdir((dir + "/etc/fdb").c_str(), 0777);
    auto c = spaced(dir, "- roots:\n  - path: " + dir + "/a\n");
    std::string root[3] = {dir + "/a", dir + "/b", dir + "/c"};
    mkdir(root[0].c_str(), 0777);
    mkdir(root[1].c_str(), 0777);
    unsigned ro = sym_choice("readonly", 3), env = sym_choice("FDB_ROOT", 4);
    if (env)
        setenv("FDB_ROOT", root[env - 1].c_str(), 1);
    std::vector<Root> rs;
    for (unsigned i = 0; i < 2; ++i)
        rs.emplace_back(root[i], "", true, true, ro != i + 1, true);
    FileSpace space("", ".*", "expver", rs);
    std::string map = dir + "/etc/fdb/expver_to_fdb_root.map", text = "# known\nzzzz   " + root[1] + "\n";
    bool known = sym_choice("known", 2);
    if (known)
        text += "ab12 " + root[1] + "\n";
    writeFile(map, text);
    bool isKnown = false;
    std::string v;
    unsigned len = sym_choice("length", 6);
    bool digits = true, alnums = true;
    bool ab12 = len == 4;
    if (sym_choice("is", 2)) {
        if (len != 4)
            sym_end_path();
        v = "ab12";
        digits = false;
    }
    else
        for (unsigned i = 0; i < len; ++i) {
            unsigned char ch = i == 0 || i + 1 == len || deep() ? "1aZ-@"[sym_choice("character", 5)] : i & 1 ? 'b' : '7';
            bool d = unsigned(ch - '0') < 10u, a = (unsigned((ch | 32) - 'a') < 26u) | d;
            digits = digits & d;
            alnums = alnums & a;
            ab12 = ab12 & (ch == (unsigned char)"ab12"[i]);
            v += (char)ch;
        }
    bool valid = ((len >= 1) & (len <= 4) & digits) | ((len == 4) & alnums);
    Key k;
    k.push("cls", "od");
    k.push("expver", v);
    Key z;
    z.push("cls", "od");
    z.push("expver", "zzzz");
    auto* h = new ExpverFileSpaceHandler(c);
    sym_assert(h->selectFileSystem(z, space) == root[1], "a known value");
    bool meanwhile = sym_choice("meanwhile", 2);
    if (meanwhile) {
        std::ofstream f(map, std::ios::app);
        f << "ab12 " << root[1] << "\n";
    }
    isKnown = ab12 && (known || meanwhile);
    eckit::PathName got;
    bool ok = !throws([&] { got = h->selectFileSystem(k, space); });
    // a root that is asked for must be writable; a value that another process gave a root while this one ran keeps it
    bool asked = !env || (env <= 2 && ro != env);
    bool may = valid && ((known && ab12) || asked);
    sym_assert(ok == may, "refused iff it is not a value or there is no such root");
    if (!ok)
        return;
    if (isKnown)
        sym_assert(got == root[1], "the root it has");
    else if (env)
        sym_assert(got == root[env - 1], "the root asked for");
    else
        sym_assert((got == root[0] && ro != 1) || (got == root[1] && ro != 2), "a writable root");
    sym_assert(h->selectFileSystem(k, space) == got, "the same again");
    auto* later = new ExpverFileSpaceHandler(c);
    sym_assert(later->selectFileSystem(k, space) == got, "the same after restarting");
    sym_assert(later->selectFileSystem(z, space) == root[1], "others keep theirs");
    sym_reach("selected");
}
SYM_CASE(files, "spaces and roots files: 3 root lines out of 6 (flags in 3 spellings, comments, lines of other lengths), 2 space lines out of 4: the same spaces, roots and flags as written, in order; a space without a root is refused") {
    auto dir = scratch();
    mkdir((dir + "/etc").c_str(), 0777);
    mkdir((dir + "/etc/fdb").c_str(), 0777);
    writeFile(dir + "/schema", plainSchema);
    struct L {
        const char* text;
        int space;
        bool write, visit;
    };
    static const L roots[] = {{"/a one true true", 1, true, true}, {"/b one false true", 1, false, true}, {"/c   two 1 0", 2, true, false}, {"#/d one true true", 0, 0, 0}, {"/e two off yes", 2, false, true}, {"/f one true", 0, 0, 0}};
    struct S {
        const char* text;
        const char* match;
        int space;
    };
    static const S spaces[] = {{"^od: one Default", "od:0001", 1}, {".*   two First", "rd:0001", 2}, {"# .* two First", "", 0}, {".* one", "", 0}};
    std::vector<L> r;
    std::vector<S> s;
    std::string t = "# roots\n\n", u = "# spaces\n";
    for (unsigned i = 0; i < 3; ++i) {
        auto& l = roots[sym_choice("root", 6)];
        t += (*l.text == '#' ? "" : dir) + l.text + "\n";
        if (l.space)
            r.push_back(l);
    }
    bool refused = false;
    for (unsigned i = 0; i < 2; ++i) {
        auto& l = spaces[sym_choice("space", 4)];
        u += std::string(l.text) + "\n";
        if (l.space) {
            s.push_back(l);
            bool any = false;
            for (auto& x : r)
                any |= x.space == l.space;
            refused |= !any;
        }
    }
    writeFile(dir + "/etc/fdb/roots", t);
    writeFile(dir + "/etc/fdb/spaces", u);
    Config c(eckit::YAMLConfiguration("type: local\nengine: toc\nfdb_home: " + dir + "\nschema: " + dir + "/schema\n"));
    std::unique_ptr<CatalogueRootManager> m;
    sym_assert(throws([&] { m.reset(new CatalogueRootManager(c)); }) == refused, "refused iff a space has no root");
    if (refused) {
        sym_assert(throws([&] { m.reset(new CatalogueRootManager(c)); }), "refused also when tried again");
        return;
    }
    for (unsigned again = 0; again < 2; ++again) {
        if (again)
            m.reset(new CatalogueRootManager(c));
        auto& table = m->spacesTable_;
        sym_assert(table.size() == s.size(), "as many spaces");
        for (size_t i = 0; i < s.size(); ++i) {
            sym_assert(table[i].match(s[i].match) && table[i].match("xx:1") == (s[i].space == 2), "pattern");
            auto it = table[i].roots_.begin();
            for (auto& x : r)
                if (x.space == s[i].space) {
                    sym_assert(it != table[i].roots_.end(), "as many roots");
                    sym_assert(it->path().asString() == dir + std::string(x.text, 2), "path");
                    sym_assert(it->enabled(ControlIdentifier::List) == x.visit && it->enabled(ControlIdentifier::Retrieve) == x.visit && it->enabled(ControlIdentifier::Archive) == x.write && it->enabled(ControlIdentifier::Wipe) == x.write, "flags");
                    ++it;
                }
            sym_assert(it == table[i].roots_.end(), "no other roots");
        }
    }
    sym_reach("read");
}
