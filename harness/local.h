#pragma once
// A file system FDB in a scratch directory, driven through the public API.
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "common.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"

// Names of data files contain the process number: the same on each path, so that they are all of the same length
extern "C" pid_t getpid() noexcept {
    return 4242;
}
inline std::string scratch() {
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/" + std::to_string(10000000 + syscall(SYS_getpid));  // always of the same length
    if (mkdir(d.c_str(), 0777) != 0) {  // left by an earlier process of the same number
        std::filesystem::remove_all(d);
        mkdir(d.c_str(), 0777);
    }
    return d;
}
inline void writeFile(const std::string& p, const std::string& text) {
    std::ofstream f(p);
    f << text;
}
// schema: two keywords per level, all of type Default
static const char* const plainSchema = "[ cls, ver [ typ, lev [ par, stp ]]]\n";
inline fdb5::Config localConfig(const std::string& dir, const std::string& schema = plainSchema, const std::string& more = "") {
    writeFile(dir + "/schema", schema);
    mkdir((dir + "/root").c_str(), 0777);
    std::string y = "type: local\nengine: toc\nschema: " + dir + "/schema\nspaces:\n- handler: Default\n  roots:\n  - path: " + dir + "/root\n" + more;
    return fdb5::Config(eckit::YAMLConfiguration(y));
}
typedef std::map<std::string, std::string> KV;
inline fdb5::Key mkKey(const KV& kv) {
    fdb5::Key k;
    for (auto& i : kv)
        k.set(i.first, i.second);
    return k;
}
inline metkit::mars::MarsRequest mkRequest(const KV& kv, const std::string& verb = "retrieve") {
    metkit::mars::MarsRequest r(verb);
    for (auto& i : kv)
        r.setValue(i.first, i.second);
    return r;
}
inline std::string readAll(eckit::DataHandle* h) {
    std::unique_ptr<eckit::DataHandle> own(h);
    std::string out;
    h->openForRead();
    char b[64];
    long n;
    while ((n = h->read(b, sizeof b)) > 0)
        out.append(b, n);
    h->close();
    return out;
}
// the pieces of one field name
struct F {
    unsigned db, ix, d;
};
inline KV fieldOf(unsigned db, unsigned ix, unsigned d) {
    return {{"cls", "od"}, {"ver", db ? "0002" : "0001"}, {"typ", ix ? "fc" : "an"}, {"lev", "sfc"}, {"par", d ? "168" : "167"}, {"stp", "0"}};
}
// all fields seen by list: key text -> locations
inline std::multimap<std::string, std::string> listAll(fdb5::FDB& fdb, const fdb5::FDBToolRequest& rq, bool dedup, bool withData) {
    std::multimap<std::string, std::string> r;
    auto it = fdb.list(rq, dedup);
    fdb5::ListElement e;
    while (it.next(e)) {
        std::string k;
        for (auto& kv : e.combinedKey())
            k += kv.first + "=" + kv.second + ",";
        r.emplace(k, withData ? readAll(e.location().dataHandle()) : e.location().fullUri().asRawString());
    }
    return r;
}
inline std::string textOf(const KV& kv) {
    std::string k;
    for (auto& i : kv)
        k += i.first + "=" + i.second + ",";
    return k;
}
// everything lazily initialised by a first use is initialised before paths fork
inline void localSetup() {
    harnessInit();
    std::string d = std::string(getenv("SYM_SCRATCH")) + "/warm";
    mkdir(d.c_str(), 0777);
    fdb5::Config c = localConfig(d);
    fdb5::FDB fdb(c);
    fdb.archive(mkKey(fieldOf(0, 0, 0)), "abc", 3);
    fdb.flush();
    listAll(fdb, fdb5::FDBToolRequest({}, true), true, true);
    readAll(fdb.retrieve(mkRequest(fieldOf(0, 0, 0))));
}
namespace fs = std::filesystem;
// relative path -> content of everything below d
inline std::map<std::string, std::string> snapshot(const std::string& d) {
    std::map<std::string, std::string> r;
    for (auto& e : fs::recursive_directory_iterator(d)) {
        std::string rel = e.path().string().substr(d.size());
        if (e.is_directory()) {
            r[rel] = "<dir>";
            continue;
        }
        std::string s(e.file_size(), 0);
        if (FILE* f = fopen(e.path().c_str(), "r")) {
            s.resize(fread(&s[0], 1, s.size(), f));
            fclose(f);
        }
        r[rel] = s;
    }
    return r;
}
