From 0b5a518319fd86acfd03f24ff4e4eebd1e2265e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 01/41] fix: release a read request that is finished while
 still queued

A data handle abandoned before its request was sent made finishRequest assert (in a
destructor), or left the request in the queue to be sent later with its memory never released.
---
 src/fdb5/remote/client/ReadLimiter.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/remote/client/ReadLimiter.cc b/src/fdb5/remote/client/ReadLimiter.cc
index d0f8b9e..be9fb9e 100644
--- a/src/fdb5/remote/client/ReadLimiter.cc
+++ b/src/fdb5/remote/client/ReadLimiter.cc
@@ -12,6 +12,7 @@
 
 #include "fdb5/remote/client/RemoteStore.h"
 
+#include <algorithm>
 #include <mutex>
 #include <sstream>
 
@@ -90,17 +91,27 @@ void ReadLimiter::finishRequest(uint32_t clientID, uint32_t requestID) {
     {
         std::lock_guard<std::mutex> lock(mutex_);
 
-        auto it = activeRequests_.find(clientID);
-        if (it == activeRequests_.end()) {
-            return;
+        // A handle can be abandoned while its request is still queued: it must then not be sent at all
+        auto pending = std::find_if(requests_.begin(), requests_.end(), [&](const RequestInfo& r) {
+            return r.client->id() == clientID && r.id == requestID;
+        });
+
+        if (pending != requests_.end()) {
+            requests_.erase(pending);
         }
+        else {
+            auto it = activeRequests_.find(clientID);
+            if (it == activeRequests_.end()) {
+                return;
+            }
 
-        auto it2 = it->second.find(requestID);
-        ASSERT(it2 != it->second.end());
+            auto it2 = it->second.find(requestID);
+            ASSERT(it2 != it->second.end());
 
-        memoryUsed_ -= resultSizes_[{clientID, requestID}];
-        it->second.erase(it2);
-        resultSizes_.erase({clientID, requestID});
+            memoryUsed_ -= resultSizes_[{clientID, requestID}];
+            it->second.erase(it2);
+            resultSizes_.erase({clientID, requestID});
+        }
     }
 
     tryNextRequest();
-- 
2.43.0


From 7d0a11fe87ac89380a41c67c583102a3dd9a65c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:51 +0000
Subject: [PATCH 02/41] fix: keep the text of errors received from a remote
 server

Buffer::copy copies into the buffer: the error text was overwritten with blanks instead of read.
---
 src/fdb5/api/RemoteFDB.cc                  |  4 +---
 src/fdb5/remote/client/ClientConnection.cc | 15 +++------------
 src/fdb5/remote/client/RemoteStore.cc      |  4 +---
 3 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index b659412..48e312a 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -404,9 +404,7 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 // goes out of scope in the worker thread).
                 messageQueues_.erase(iter);
             }
-            std::string msg;
-            msg.resize(payload.size(), ' ');
-            payload.copy(&msg[0], payload.size());
+            std::string msg(static_cast<const char*>(payload.data()), payload.size());
             queue->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
             return true;
         }
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index c75e32f..e12eac9 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -406,10 +406,7 @@ void ClientConnection::listeningControlThreadLoop() {
                     auto pp = promises_.find(hdr.requestID);
                     if (pp != promises_.end()) {
                         if (hdr.message == Message::Error) {
-                            std::string msg(hdr.payloadSize, ' ');
-                            if (hdr.payloadSize != 0) {
-                                payload.copy(msg.data(), payload.size());
-                            }
+                            std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             pp->second.set_exception(
                                 std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
                         }
@@ -455,10 +452,7 @@ void ClientConnection::listeningControlThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on CONTROL connection. [clientID="
                            << hdr.clientID() << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
-                            ss << ": " << msg;
+                            ss << ": " << std::string(static_cast<const char*>(payload.data()), payload.size());
                         }
                         throw RemoteFDBException(ss.str(), controlEndpoint_);
                     }
@@ -540,10 +534,7 @@ void ClientConnection::listeningDataThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on DATA connection. [clientID=" << hdr.clientID()
                            << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
-                            ss << ": " << msg;
+                            ss << ": " << std::string(static_cast<const char*>(payload.data()), payload.size());
                         }
                         throw RemoteFDBException(ss.str(), dataEndpoint_);
                     }
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5308eeb..2d4df54 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -434,9 +434,7 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             std::lock_guard lock(messageMutex_);
             auto iter = messageQueues_.find(requestID);
             if (iter != messageQueues_.end()) {
-                std::string msg;
-                msg.resize(payload.size(), ' ');
-                payload.copy(&msg[0], payload.size());
+                std::string msg(static_cast<const char*>(payload.data()), payload.size());
                 iter->second->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
 
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
-- 
2.43.0


From 8ec3cd47aae6490430ea72f5e4dd6c54844446ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 03/41] fix: fail list and read iterators when the connection
 to the server is lost

---
 src/fdb5/api/RemoteFDB.cc                  | 10 ++++++++++
 src/fdb5/api/RemoteFDB.h                   |  1 +
 src/fdb5/remote/client/ClientConnection.cc |  3 +++
 3 files changed, 14 insertions(+)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 48e312a..7409e35 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -413,6 +413,16 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
     }
 }
 
+void RemoteFDB::closeConnection() {
+    std::lock_guard lock(messageQueueMutex_);
+    for (auto& kv : messageQueues_) {
+        if (!kv.second->closed()) {
+            kv.second->interrupt(std::make_exception_ptr(RemoteFDBException("Unexpected closure of connection", controlEndpoint())));
+        }
+    }
+    messageQueues_.clear();
+}
+
 static FDBBuilder<RemoteFDB> builder("remote");
 
 }  // namespace fdb5
diff --git a/src/fdb5/api/RemoteFDB.h b/src/fdb5/api/RemoteFDB.h
index 178a2cd..4325a3f 100644
--- a/src/fdb5/api/RemoteFDB.h
+++ b/src/fdb5/api/RemoteFDB.h
@@ -82,6 +82,7 @@ private:  // methods
     const eckit::Configuration& clientConfig() const override;
     bool handle(Message message, uint32_t requestID) override;
     bool handle(Message message, uint32_t requestID, eckit::Buffer&& payload) override;
+    void closeConnection() override;
 
 private:  // members
 
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index e12eac9..baa0a1f 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -370,6 +370,9 @@ void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
     ss << "Connection to " << controlEndpoint_ << " lost: " << reason;
     failPendingRequests(std::make_exception_ptr(RemoteFDBException(ss.str(), controlEndpoint_)));
 
+    // ... nor will anything else be delivered to the clients
+    closeConnection();
+
     teardown();
 }
 
-- 
2.43.0


From e8e6da7796ed99f06231d1827491ca2bbde1716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 04/41] fix: recognise the duplicates.allow control file when a
 database is wiped

---
 src/fdb5/toc/TocHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 68f7695..82af662 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1891,7 +1891,8 @@ std::vector<PathName> TocHandler::lockfilePaths() const {
 
     std::vector<PathName> paths;
 
-    for (const auto& name : {retrieve_lock_file, archive_lock_file, list_lock_file, wipe_lock_file}) {
+    for (const auto& name :
+         {retrieve_lock_file, archive_lock_file, list_lock_file, wipe_lock_file, allow_duplicates_file}) {
 
         PathName fullPath = fullControlFilePath(name);
         if (fullPath.exists()) {
-- 
2.43.0


From 208a52812fd68c214cbe7a837260ddcee9e56d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 05/41] fix: do not list locked databases at depth 1

---
 src/fdb5/api/local/ListVisitor.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fdb5/api/local/ListVisitor.h b/src/fdb5/api/local/ListVisitor.h
index 7ad949e..ea50071 100644
--- a/src/fdb5/api/local/ListVisitor.h
+++ b/src/fdb5/api/local/ListVisitor.h
@@ -31,8 +31,13 @@
 #include "fdb5/database/Index.h"
 #include "fdb5/database/Key.h"
 #include "fdb5/database/Store.h"
+#include "fdb5/fdb5_config.h"
 #include "fdb5/types/Type.h"
 
+#ifdef fdb5_HAVE_TOCFDB
+#include "fdb5/toc/TocHandler.h"
+#endif
+
 #include "metkit/mars/MarsRequest.h"
 
 #include <string>
@@ -56,6 +61,12 @@ public:
 
         // If level == 1, avoid constructing the Catalogue/Store objects, so just interrogate the URIs
         if (level_ == 1 && uri.scheme() == "toc") {
+#ifdef fdb5_HAVE_TOCFDB
+            // If the DB is locked for listing, then it "doesn't exist"
+            if ((uri.path() / controlfile_lookup.at(ControlIdentifier::List)).exists()) {
+                return false;
+            }
+#endif
             /// @todo only works with the toc backend
             if (auto dbKey = schema.matchDatabase(uri.path().baseName())) {
                 queue_.emplace(*dbKey, 0);
-- 
2.43.0


From e9bb6bcf5f704cb1260112d0ddc789b4f0b03c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 06/41] fix: skip databases locked for wiping in purge

The visitor returns false for such a database, and the purge crashed on
the visitor it had not created when the catalogue was completed.
---
 src/fdb5/api/local/PurgeVisitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index 789386c..b3a8c51 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -75,6 +75,12 @@ void PurgeVisitor::visitDatum(const Field& field, const std::string& keyFingerpr
 }
 
 void PurgeVisitor::catalogueComplete(const Catalogue& catalogue) {
+
+    // The database was skipped (locked for wiping)
+    if (!internalVisitor_) {
+        return;
+    }
+
     internalVisitor_->catalogueComplete(catalogue);
 
     internalVisitor_->gatherAuxiliaryURIs();
-- 
2.43.0


From 2fb524d1ca0b8504c66d4b4dcf0af1085c9c8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 07/41] fix: resolve data files whose names start with a URI
 scheme word

The file table of an index holds the files of its own directory by base name. Such a name was decoded as a
URI: one starting with 'toc:', 'fdb:' or 'unix:' (the first index key value being that word) lost its prefix,
and the fields of the index were not found.
---
 src/fdb5/database/UriStore.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/database/UriStore.cc b/src/fdb5/database/UriStore.cc
index f0867a4..11e0d33 100644
--- a/src/fdb5/database/UriStore.cc
+++ b/src/fdb5/database/UriStore.cc
@@ -37,7 +37,8 @@ UriStore::UriStore(const eckit::PathName& directory, eckit::Stream& s) :
 
         s >> id;
         s >> p;
-        eckit::URI uri(p);
+        // a name without directory is that of a file in directory_: it may start with a word which is also a URI scheme
+        eckit::URI uri = (p.find('/') == std::string::npos) ? eckit::URI("file", eckit::PathName(p)) : eckit::URI(p);
 
         if ((uri.scheme() == "unix") || (uri.scheme() == "file")) {
             eckit::PathName path = uri.path();
-- 
2.43.0


From c1f6aaaa2e198d708ce4f437b37bfe40aa73001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 08/41] fix: do not take data for the response to a request on
 a single connection

On a single connection the worker threads of the server write to the same socket as its main thread: the data
of a request can arrive before its acknowledgement. It was matched with the pending request by its number only
and lost, and the connection was then aborted because of the unexpected acknowledgement.
---
 src/fdb5/remote/client/ClientConnection.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index baa0a1f..a9979d3 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -406,8 +406,12 @@ void ClientConnection::listeningControlThreadLoop() {
                     // Hold promisesMutex_ only for the promise lookup/erase (NOT across handle(); risk a deadlock.
                     std::lock_guard lock(promisesMutex_);
 
+                    // With a single connection, data sent by a worker thread of the server can overtake the
+                    // response to the request: it is for the client, and does not fulfil the promise
+                    const bool isResponse = hdr.control() || hdr.message == Message::Error;
+
                     auto pp = promises_.find(hdr.requestID);
-                    if (pp != promises_.end()) {
+                    if (isResponse && pp != promises_.end()) {
                         if (hdr.message == Message::Error) {
                             std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             pp->second.set_exception(
@@ -424,7 +428,11 @@ void ClientConnection::listeningControlThreadLoop() {
                         isPromise = true;
                     }
                 }
-                if (!isPromise) {
+                // ... and so can an error: there is nobody left to tell that the request was received
+                if (!isPromise && single_ && hdr.message == Message::Received) {
+                    handled = true;
+                }
+                else if (!isPromise) {
                     // Hold clientsMutex_ across the virtual dispatch too (not just the lookup)
                     std::lock_guard lock(clientsMutex_);
 
-- 
2.43.0


From cdca991585bd54a1ead66d4988b8d2894cc8f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 09/41] fix: refuse view parts whose fields differ in size

---
 src/chunked_data_view/ChunkedDataViewImpl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chunked_data_view/ChunkedDataViewImpl.cc b/src/chunked_data_view/ChunkedDataViewImpl.cc
index 2e11627..2fd10f4 100644
--- a/src/chunked_data_view/ChunkedDataViewImpl.cc
+++ b/src/chunked_data_view/ChunkedDataViewImpl.cc
@@ -81,6 +81,12 @@ ChunkedDataViewImpl::ChunkedDataViewImpl(std::vector<std::pair<ViewPart, std::sh
         size_t extensionOnExtensionAxis = 0;
 
         for (const auto& [part, _] : parts_) {
+            // The values of a field make up the last dimension, which is the same for all parts
+            if (part.layout().countValues != first_part.layout().countValues) {
+                throw eckit::UserError(
+                    "ChunkedDataViewImpl: Field size mismatch. The fields of all parts have to have the same number of "
+                    "values.");
+            }
             for (size_t idx = 0; idx < chunkedDataViewShape_.size(); ++idx) {
                 if (idx == extensionAxisIndex_) {
                     extensionOnExtensionAxis += part.extension()[idx];
-- 
2.43.0


From 7c12d171f147b08445a9dc4e31fd1573fc4b36ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 10/41] fix: parse a single excluded value of a schema
 predicate as an exclusion

---
 src/fdb5/rules/SchemaParser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index ae71d71..5f72fa8 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -116,6 +116,9 @@ std::unique_ptr<Predicate> SchemaParser::parsePredicate(eckit::StringDict& types
         case 0:
             return std::make_unique<Predicate>(k, new MatchAlways());
         case 1:
+            if (exclude) {
+                return std::make_unique<Predicate>(k, new ExcludeAll(values));
+            }
             return std::make_unique<Predicate>(k, new MatchValue(*values.begin()));
         default:
             if (exclude) {
-- 
2.43.0


From f0995aecdcfc3ef3b5e82448ac97524832d7c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 11/41] fix: write the exclusion mark when dumping a schema
 predicate that excludes values

---
 src/fdb5/rules/ExcludeAll.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/rules/ExcludeAll.cc b/src/fdb5/rules/ExcludeAll.cc
index 2f95dab..440f999 100644
--- a/src/fdb5/rules/ExcludeAll.cc
+++ b/src/fdb5/rules/ExcludeAll.cc
@@ -65,7 +65,7 @@ bool ExcludeAll::match(const std::string& value) const {
 void ExcludeAll::dump(std::ostream& s, const std::string& keyword, const TypesRegistry& registry) const {
     const char* sep = "";
     registry.dump(s, keyword);
-    s << "=";
+    s << "=!";
     for (std::set<std::string>::const_iterator i = values_.begin(); i != values_.end(); ++i) {
         s << sep << *i;
         sep = "/";
-- 
2.43.0


From a0f872cb45c2e9b08fd12d5d9f31740e68fcc9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 12/41] fix: find the rule a key was made from, not an earlier
 one sharing some of its keywords

---
 src/fdb5/rules/Rule.cc   | 19 +++++++++++++++++++
 src/fdb5/rules/Rule.h    |  3 +++
 src/fdb5/rules/Schema.cc | 19 +++++++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 43cffe5..0be96a4 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -379,6 +379,25 @@ bool Rule::match(const Key& key) const {
     return true;
 }
 
+bool Rule::matchExactly(const Key& key) const {
+
+    size_t found = 0;
+
+    for (const auto& pred : predicates_) {
+        if (!pred->match(key)) {
+            return false;
+        }
+        if (key.find(pred->keyword()).second) {
+            ++found;
+        }
+        else if (!pred->optional()) {
+            return false;
+        }
+    }
+
+    return found == key.size();
+}
+
 bool Rule::tryFill(Key& key, const eckit::StringList& values) const {
     // See FDB-103. This is a hack to work around the indexing abstraction
     // being leaky.
diff --git a/src/fdb5/rules/Rule.h b/src/fdb5/rules/Rule.h
index 9fcb6e8..4a2f062 100644
--- a/src/fdb5/rules/Rule.h
+++ b/src/fdb5/rules/Rule.h
@@ -63,6 +63,9 @@ public:  // methods
 
     bool match(const Key& key) const;
 
+    /// matches, and the key has the keywords of this rule and no others
+    bool matchExactly(const Key& key) const;
+
     void check(const Key& key) const;
 
     void dump(std::ostream& out) const;
diff --git a/src/fdb5/rules/Schema.cc b/src/fdb5/rules/Schema.cc
index d24d2c9..5cfec31 100644
--- a/src/fdb5/rules/Schema.cc
+++ b/src/fdb5/rules/Schema.cc
@@ -89,6 +89,18 @@ Schema::~Schema() {
 
 const RuleDatum& Schema::matchingRule(const Key& dbKey, const Key& idxKey) const {
 
+    // prefer the rules the keys were made from to rules that share only some of their keywords
+    for (const auto& dbRule : rules_) {
+        if (!dbRule->matchExactly(dbKey)) {
+            continue;
+        }
+        for (const auto& idxRule : dbRule->rules()) {
+            if (idxRule->matchExactly(idxKey)) {
+                return idxRule->rule();
+            }
+        }
+    }
+
     for (const auto& dbRule : rules_) {
         if (!dbRule->match(dbKey)) {
             continue;
@@ -108,6 +120,13 @@ const RuleDatum& Schema::matchingRule(const Key& dbKey, const Key& idxKey) const
 
 const RuleDatabase& Schema::matchingRule(const Key& dbKey) const {
 
+    // prefer the rule the key was made from to rules that share only some of its keywords
+    for (const auto& rule : rules_) {
+        if (rule->matchExactly(dbKey)) {
+            return *rule;
+        }
+    }
+
     for (const auto& rule : rules_) {
         if (rule->match(dbKey)) {
             return *rule;
-- 
2.43.0


From df866db446df4e8872478715ae417450cce1fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 13/41] fix: skip rules with another number of keywords when
 matching a database name

---
 src/fdb5/rules/Rule.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 0be96a4..85ae6c7 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -209,12 +209,10 @@ std::optional<Key> Rule::findMatchingKey(const Key& field) const {
 
 std::optional<Key> Rule::findMatchingKey(const eckit::StringList& values) const {
 
-    if (predicates_.empty()) {
+    if (predicates_.empty() || values.size() != predicates_.size()) {
         return {};
     }
 
-    ASSERT(values.size() >= requiredPredicateCount(predicates_));
-
     TypedKey key(registry_);
 
     for (auto iter = predicates_.begin(); iter != predicates_.end(); ++iter) {
-- 
2.43.0


From 43024286cfd9319d4a75066cfeccd0bcc0c8fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 14/41] fix: route fields without optional keywords, and skip
 rules whose keywords they lack

---
 src/fdb5/rules/Rule.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 85ae6c7..820d073 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -186,7 +186,7 @@ size_t Rule::size() const {
 
 std::optional<Key> Rule::findMatchingKey(const Key& field) const {
 
-    if (field.size() < predicates_.size()) {
+    if (field.size() < requiredPredicateCount(predicates_)) {
         return {};
     }
 
@@ -201,6 +201,10 @@ std::optional<Key> Rule::findMatchingKey(const Key& field) const {
 
         const auto& keyword = pred->keyword();
 
+        if (!pred->optional() && !field.find(keyword).second) {
+            return {};
+        }
+
         key.push(keyword, pred->value(field));
     }
 
-- 
2.43.0


From 3dd66f678f102e674b9f8688839eb8f0f579157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 15/41] fix: carry out the last wipe plan sent to a store, not
 an earlier unfinished one

---
 src/fdb5/remote/server/StoreHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index a616a8a..2421fcf 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -476,7 +476,8 @@ void StoreHandler::finaliseWipeState(const uint32_t clientID, const uint32_t req
     // keep state for doWipeURIs
     if (doit) {
         ASSERT(!unsafeAll);  // Until Im explicitly told otherwise, we dont support unsafeAll on remote fdb.
-        wipesInProgress_.emplace(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
+        // n.b. replaces the state of an earlier wipe that was not finished
+        wipesInProgress_.insert_or_assign(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
     }
 }
 
-- 
2.43.0


From 28d01ab88ae34eb21cdeec673ed0f3ec59fa888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 16/41] fix: find databases named by naming rules with requests
 that leave out keywords

---
 src/fdb5/toc/RootManager.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 47e3489..6f658e9 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -79,7 +79,7 @@ public:
                 return false;
             }
 
-            if (!missing || i->second != missing) {
+            if (!missing || (i->second != missing && !i->second.empty())) {
                 if (!j->second.match(i->second)) {
                     return false;
                 }
@@ -134,7 +134,6 @@ private:  // methods
         size_t len = s.length();
         bool var = false;
         std::string word;
-        std::map<std::string, std::string>::const_iterator j;
 
         for (size_t i = 0; i < len; i++) {
             switch (s[i]) {
@@ -166,7 +165,7 @@ private:  // methods
                                 result += keyregex_.find(word)->second;
                             }
                             else {
-                                result += (*j).second;
+                                result += iter->second;
                             }
                         }
                     }
-- 
2.43.0


From 7de127f86bd7d885cb18463cde1ae4ce7d66db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 17/41] fix: look for database names literally, whatever
 characters their values have

---
 src/fdb5/toc/RootManager.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 6f658e9..45f9760 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -165,7 +165,7 @@ private:  // methods
                                 result += keyregex_.find(word)->second;
                             }
                             else {
-                                result += iter->second;
+                                result += Regex::escape(iter->second);
                             }
                         }
                     }
@@ -182,7 +182,7 @@ private:  // methods
                         word += s[i];
                     }
                     else {
-                        result += s[i];
+                        result += missing ? Regex::escape(std::string(1, s[i])) : std::string(1, s[i]);
                     }
                     break;
             }
@@ -580,7 +580,7 @@ std::vector<std::string> RootManager::possibleDbPathNames(const Key& key, const
     for (const auto& k : key.names()) {
         const auto& v = key.get(k);
         oss << sep;
-        oss << (v == missing || v.empty() ? missing : v);
+        oss << (v == missing || v.empty() ? std::string(missing) : Regex::escape(v));
         sep = ":";
     }
     result.push_back(oss.str());
-- 
2.43.0


From 1d7f442347e8a1f229c08aec2792c676b29f82ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 18/41] fix: visit every space for requests that leave out
 database keywords

---
 src/fdb5/toc/RootManager.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 45f9760..da1234c 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -627,8 +627,12 @@ std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
     eckit::StringSet roots;
 
     std::set<std::string> keystrings;
+    bool partial = false;  // keys that lack values may be of databases in any space
     for (const auto& key : keys) {
         keystrings.insert(key.valuesToString());
+        for (const auto& [keyword, value] : key) {
+            partial = partial || value.empty();
+        }
     }
 
     LOG_DEBUG_LIB(LibFdb5) << "RootManager::visitableRoots() trying to match keys " << keystrings << std::endl;
@@ -637,7 +641,7 @@ std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
 
         bool matched = false;
         for (const std::string& k : keystrings) {
-            if (space.match(k) || k.empty()) {
+            if (partial || space.match(k) || k.empty()) {
                 LOG_DEBUG_LIB(LibFdb5) << "MATCH space " << space << std::endl;
                 space.enabled(ControlIdentifier::List, roots);
                 matched = true;
-- 
2.43.0


From e5cf05561025e69cf76763bae7c769614fc5bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 19/41] fix: refuse an empty expver instead of writing a line
 that makes the expver file unreadable

---
 src/fdb5/toc/ExpverFileSpaceHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/ExpverFileSpaceHandler.cc b/src/fdb5/toc/ExpverFileSpaceHandler.cc
index 56db1aa..d9c15d0 100644
--- a/src/fdb5/toc/ExpverFileSpaceHandler.cc
+++ b/src/fdb5/toc/ExpverFileSpaceHandler.cc
@@ -179,7 +179,7 @@ PathName ExpverFileSpaceHandler::select(const Key& key, const FileSpace& fs) con
 
 static bool expver_is_valid(const std::string& str) {
     LOG_DEBUG_LIB(LibFdb5) << "Validating expver string [" << str << "]" << std::endl;
-    return ((str.size() <= 4) and std::find_if_not(str.begin(), str.end(), isdigit) == str.end()) ||
+    return (!str.empty() and (str.size() <= 4) and std::find_if_not(str.begin(), str.end(), isdigit) == str.end()) ||
            ((str.size() == 4) and std::find_if_not(str.begin(), str.end(), isalnum) == str.end());
 }
 
-- 
2.43.0


From 6f3840c4b8a1a3969f3e95efa7fe03c1991692cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 20/41] fix: do not use the end of the expver table when
 another process assigned the root

---
 src/fdb5/toc/ExpverFileSpaceHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/ExpverFileSpaceHandler.cc b/src/fdb5/toc/ExpverFileSpaceHandler.cc
index d9c15d0..20ff741 100644
--- a/src/fdb5/toc/ExpverFileSpaceHandler.cc
+++ b/src/fdb5/toc/ExpverFileSpaceHandler.cc
@@ -256,7 +256,7 @@ eckit::PathName ExpverFileSpaceHandler::selectFileSystem(const Key& key, const F
     table_[expver] = selected;
 
     if (!fdbRootDirectory.empty() && selected != fdbRootDirectory) {
-        Log::warning() << "Selected root directory " << itr->second << " does not match FDB5_ROOT. Using existing"
+        Log::warning() << "Selected root directory " << selected << " does not match FDB5_ROOT. Using existing"
                        << std::endl;
     }
 
-- 
2.43.0


From 94a18f3b494facdf50b3b3acbc55e454e0e0c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 21/41] fix: do not keep naming rules or spaces of a file that
 could not be read to its end

---
 src/fdb5/toc/RootManager.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index da1234c..a3f517b 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -228,7 +228,7 @@ static const DbPathNamerTable& readDbNamers(const Config& config) {
 
     // Or read it!
 
-    DbPathNamerTable& table(dbPathNamers[filename]);
+    DbPathNamerTable table;
 
     if (filename.exists()) {
 
@@ -238,7 +238,7 @@ static const DbPathNamerTable& readDbNamers(const Config& config) {
 
         if (!in) {
             eckit::Log::error() << fdbDbNamesFile << eckit::Log::syserr << std::endl;
-            return table;
+            return dbPathNamers[filename];
         }
 
         eckit::Tokenizer parse(" ");
@@ -279,7 +279,7 @@ static const DbPathNamerTable& readDbNamers(const Config& config) {
         }
     }
 
-    return table;
+    return dbPathNamers[filename] = table;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -423,7 +423,7 @@ static FileSpaceTable parseFileSpacesFile(const eckit::PathName& fdbHome) {
         throw eckit::ReadError(fdbSpacesFile, Here());
     }
 
-    FileSpaceTable& table(spacesTables[fdbHome]);
+    FileSpaceTable table;
 
     eckit::Tokenizer parse(" ");
 
@@ -471,6 +471,8 @@ static FileSpaceTable parseFileSpacesFile(const eckit::PathName& fdbHome) {
         }
     }
 
+    spacesTables[fdbHome] = table;
+
     return table;
 }
 
-- 
2.43.0


From 81a52a52132cefaa5e1f01d8f82ce524992cb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 22/41] fix: report a field that cannot be read instead of
 leaving it out

---
 src/fdb5/io/FieldHandle.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/io/FieldHandle.cc b/src/fdb5/io/FieldHandle.cc
index d4a3d23..483906c 100644
--- a/src/fdb5/io/FieldHandle.cc
+++ b/src/fdb5/io/FieldHandle.cc
@@ -165,7 +165,19 @@ long FieldHandle::read1(char* buffer, long length) {
     }
 
     long n = current_->read(buffer, length);
-    if (n <= 0) {
+    if (n < 0) {
+        std::ostringstream ss;
+        ss << "Error reading from " << *current_;
+        throw eckit::ReadError(ss.str());
+    }
+    if (n == 0) {
+        const long long expected = datahandles_[currentIdx_].first;
+        const long long read = current_->position();
+        if (read < expected) {
+            std::ostringstream ss;
+            ss << "Error reading from " << *current_ << " - read " << read << ", expected " << expected;
+            throw eckit::ReadError(ss.str());
+        }
         current_->close();
         currentIdx_++;
         openCurrent();
-- 
2.43.0


From b481f6c8099ef8e715f396a9e3fdf6ddc11fd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 23/41] fix: move within a field that can be read only once
 without reading it again, allow a handle to be opened again

---
 src/fdb5/io/FieldHandle.cc | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/fdb5/io/FieldHandle.cc b/src/fdb5/io/FieldHandle.cc
index 483906c..05f197d 100644
--- a/src/fdb5/io/FieldHandle.cc
+++ b/src/fdb5/io/FieldHandle.cc
@@ -120,6 +120,7 @@ void FieldHandle::openCurrent() {
         delete current_;
         currentMemoryHandle_ = false;
     }
+    current_ = nullptr;
 
     if (currentIdx_ < datahandles_.size()) {
 
@@ -143,6 +144,7 @@ void FieldHandle::openCurrent() {
                 ss << "Error reading from " << *current_ << " - read " << read << ", expected " << currentSize;
                 throw eckit::ReadError(ss.str());
             }
+            current_->close();
             current_ = new eckit::MemoryHandle(buffer_, currentSize);
             current_->openForRead();
             currentMemoryHandle_ = true;
@@ -206,10 +208,11 @@ long FieldHandle::read(void* buffer, long length) {
 }
 
 void FieldHandle::close() {
-    if (currentIdx_ < datahandles_.size()) {
+    if (current_) {
         current_->close();
         if (currentMemoryHandle_) {
             delete current_;
+            currentMemoryHandle_ = false;
         }
         current_ = nullptr;
     }
@@ -217,8 +220,11 @@ void FieldHandle::close() {
 }
 
 void FieldHandle::rewind() {
-    if (currentIdx_ == 0 || seekable_) {
-        if (current_ && currentIdx_ < datahandles_.size()) {
+    if (currentIdx_ == 0 && current_ && currentMemoryHandle_) {
+        current_->rewind();  // a field that is not seekable cannot be read again
+    }
+    else if (currentIdx_ == 0 || seekable_) {
+        if (current_) {
             current_->close();
         }
         currentIdx_ = 0;
@@ -268,10 +274,6 @@ eckit::Offset FieldHandle::position() {
 }
 
 eckit::Offset FieldHandle::seek(const eckit::Offset& offset) {
-    if (current_ && currentIdx_ < datahandles_.size()) {
-        current_->close();
-    }
-
     const long long seekto = offset;
     long long accumulated = 0;
 
@@ -283,6 +285,16 @@ eckit::Offset FieldHandle::seek(const eckit::Offset& offset) {
         if (seekto < accumulated) {
             throw eckit::UserError("Cannot seek backward to previous data fields");
         }
+
+        // a field that is not seekable cannot be read again
+        if (current_ && currentMemoryHandle_ && seekto <= accumulated + (long long)datahandles_[currentIdx_].first) {
+            current_->seek(seekto - accumulated);
+            return offset;
+        }
+    }
+
+    if (current_) {
+        current_->close();
     }
 
     accumulated = 0;
@@ -295,6 +307,8 @@ eckit::Offset FieldHandle::seek(const eckit::Offset& offset) {
         }
         accumulated += size;
     }
+    openCurrent();  // beyond the last field
+
     // check if we went beyond EOF which is POSIX compliant, but we ASSERT so we find possible bugs
     eckit::Offset beyond = seekto - accumulated;
     ASSERT(not beyond);
-- 
2.43.0


From 12879c51f75ff2b1cdd8095737f931b2ba2d164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 24/41] fix: close the data file when its handle is destroyed

---
 src/fdb5/io/FDBFileHandle.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/io/FDBFileHandle.cc b/src/fdb5/io/FDBFileHandle.cc
index c56ee71..5e2cb20 100644
--- a/src/fdb5/io/FDBFileHandle.cc
+++ b/src/fdb5/io/FDBFileHandle.cc
@@ -32,7 +32,11 @@ void FDBFileHandle::print(std::ostream& s) const {
 FDBFileHandle::FDBFileHandle(const std::string& name, size_t buffer) :
     path_(name), file_(nullptr), buffer_(buffer), pos_(0) {}
 
-FDBFileHandle::~FDBFileHandle() {}
+FDBFileHandle::~FDBFileHandle() {
+    if (file_ && ::fclose(file_)) {
+        Log::error() << "Failed to close " << path_ << Log::syserr << std::endl;
+    }
+}
 
 Length FDBFileHandle::openForRead() {
     NOTIMP;
-- 
2.43.0


From a2277d11d7018453d081769a091123c113787b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 25/41] fix: initialise a database writer whose TOC has been
 read already

---
 src/fdb5/toc/TocHandler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 82af662..4d98980 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1026,6 +1026,9 @@ void TocHandler::writeInitRecord(const Key& key) {
 
     ASSERT(fd_ == -1);
 
+    // The TOC may have been read already (e.g. to find the database key). What follows reads the file itself.
+    cachedToc_.reset();
+
     int iomode = O_CREAT | O_RDWR;
     SYSCALL2(fd_ = ::open(tocPath_.localPath(), iomode, mode_t(0777)), tocPath_);
 
-- 
2.43.0


From f175a5ac566684e0598a5d6d23276e0c1e97c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 26/41] fix: tell apart the databases mounted in another one
 when masking them, leave their files alone

---
 src/fdb5/toc/TocHandler.cc | 42 +++++++++++++++++++++++++-------------
 src/fdb5/toc/TocHandler.h  |  2 ++
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 4d98980..16f4d4b 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -643,7 +643,7 @@ void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
         switch (r->header_.tag_) {
             case TocRecord::TOC_SUB_TOC: {
                 s >> path;
-                maskedEntries.emplace(std::pair<PathName, Offset>(path.baseName(), 0));
+                maskedEntries.emplace(maskedPath(path), 0);
                 break;
             }
 
@@ -669,6 +669,13 @@ void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
     }
 }
 
+eckit::LocalPathName TocHandler::maskedPath(const eckit::LocalPathName& path) const {
+    // The files of this DB go by their names, whether they are referred to with absolute or relative paths.
+    // The tocs of other (mounted) DBs all have the same name, and go by their paths
+    bool mounted = path.path()[0] == '/' && path.baseName() == "toc";
+    return mounted ? findRealPath(path) : path.baseName();
+}
+
 eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool readMasked) const {
 
     eckit::MemoryStream s(&r.payload_[0], r.maxPayloadSize);
@@ -681,7 +688,8 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
     LocalPathName absPath;
     if (path.path()[0] == '/') {
         absPath = findRealPath(path);
-        if (!absPath.exists()) {
+        // n.b. a main toc is that of another (mounted) DB. If that is missing, do not go on to our own instead!
+        if (!absPath.exists() && path.baseName() != "toc") {
             absPath = currentDirectory() / path.baseName();
         }
     }
@@ -691,7 +699,7 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
 
     // If this subtoc has a masking entry, then skip it, and go on to the next entry.
     // Unless readMasked is true, in which case walk it if it exists.
-    std::pair<eckit::LocalPathName, size_t> key(absPath.baseName(), 0);
+    std::pair<eckit::LocalPathName, size_t> key(maskedPath(path), 0);
     if (maskedEntries_.find(key) != maskedEntries_.end()) {
         if (!readMasked) {
             LOG_DEBUG_LIB(LibFdb5) << "SubToc ignored by mask: " << path << std::endl;
@@ -887,7 +895,12 @@ public:
         return std::move(subTocReadCache_);
     }
 
-    void addPath(const eckit::LocalPathName& path) { paths_.push_back(path); }
+    void addPath(const eckit::LocalPathName& path) {
+        // n.b. a DB may have been mounted more than once
+        if (std::find(paths_.begin(), paths_.end(), path) == paths_.end()) {
+            paths_.push_back(path);
+        }
+    }
 };
 
 void TocHandler::preloadSubTocs(bool readMasked) const {
@@ -977,13 +990,17 @@ void TocHandler::populateMaskedEntriesList() const {
                     // readNextInternal --> use directory_ not currentDirectory()
                     // ASSERT(path.size() > 0);
                     // eckit::PathName absPath = (path[0] == '/') ? findRealPath(path) : (directory_ / path);
-                    eckit::PathName pathName = path;
-                    maskedEntries_.emplace(std::pair<PathName, Offset>(pathName.baseName(), offset));
+                    ASSERT(path.size() > 0);
+                    maskedEntries_.emplace(maskedPath(path), offset);
                 }
                 break;
             }
 
             case TocRecord::TOC_SUB_TOC:
+                // A DB which had been masked (unmounted, hidden) may be mounted again
+                s >> path;
+                ASSERT(path.size() > 0);
+                maskedEntries_.erase(std::pair<LocalPathName, Offset>(maskedPath(path), 0));
                 countSubTocs++;
                 break;
             case TocRecord::TOC_INIT:
@@ -1652,17 +1669,14 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     for (const auto& entry : maskedEntries_) {
 
         ASSERT(entry.first.path().size() > 0);
-        eckit::LocalPathName absPath;
+
+        // The toc of another (mounted) DB. What it masks is not ours.
         if (entry.first.path()[0] == '/') {
-            absPath = entry.first;
-            if (!absPath.exists()) {
-                absPath = currentDirectory() / entry.first.baseName();
-            }
-        }
-        else {
-            absPath = currentDirectory() / entry.first;
+            continue;
         }
 
+        eckit::LocalPathName absPath = currentDirectory() / entry.first;
+
         if (absPath.exists()) {
             eckit::URI uri("toc", absPath);
             metadata.insert(std::make_pair(uri, entry.second));
diff --git a/src/fdb5/toc/TocHandler.h b/src/fdb5/toc/TocHandler.h
index ebeca73..74c5016 100644
--- a/src/fdb5/toc/TocHandler.h
+++ b/src/fdb5/toc/TocHandler.h
@@ -217,6 +217,8 @@ private:  // methods
     /// to allow searching only from the first subtoc.
     void allMaskableEntries(eckit::Offset startOffset, eckit::Offset endOffset,
                             std::set<std::pair<eckit::LocalPathName, eckit::Offset>>& maskedEntries) const;
+    /// What is masked when a TOC_CLEAR entry with this (non-empty) path is found
+    eckit::LocalPathName maskedPath(const eckit::LocalPathName& path) const;
     eckit::LocalPathName parseSubTocRecord(const TocRecord& r, bool readMasked) const;
     void populateMaskedEntriesList() const;
     void preloadSubTocs(bool readMasked) const;
-- 
2.43.0


From a86eafe3fd0e5df28f408f20c56dd7b489eb8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 27/41] fix: reconsolidate indexes with the newest fields, wipe
 no other database's TOC

---
 src/fdb5/toc/TocCatalogue.cc       |  5 ++++-
 src/fdb5/toc/TocCatalogueWriter.cc | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 154a42a..3394732 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -235,7 +235,10 @@ void TocCatalogue::finaliseWipeState(CatalogueWipeState& wipeState) const {
     std::set<eckit::URI> controlURIs;
     catalogueURIs.emplace("file", tocPath().path());
     for (const auto& sub : subTocPaths()) {
-        catalogueURIs.emplace("file", sub);
+        // n.b. not the tocs of other (mounted) databases
+        if (sub.dirName().sameAs(basePath())) {
+            catalogueURIs.emplace("file", sub);
+        }
     }
 
     // schema
diff --git a/src/fdb5/toc/TocCatalogueWriter.cc b/src/fdb5/toc/TocCatalogueWriter.cc
index 5ab59e7..6d55b9a 100644
--- a/src/fdb5/toc/TocCatalogueWriter.cc
+++ b/src/fdb5/toc/TocCatalogueWriter.cc
@@ -202,10 +202,21 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
 
         ConsolidateIndexVisitor(TocCatalogueWriter& writer) : writer_(writer) {}
 
+        bool visitIndex(const Index& index) override {
+            selected_ = false;
+            return EntryVisitor::visitIndex(index);
+        }
+
     private:
 
         using EntryVisitor::visitDatum;
         void visitDatum(const Field& field, const Key& datumKey) override {
+            if (!selected_) {
+                if (!writer_.selectIndex(currentIndex_->key())) {
+                    writer_.createIndex(currentIndex_->key(), datumKey.size());
+                }
+                selected_ = true;
+            }
             /// @todo Do a sneaky schema.expand() here, prepopulated with the current DB/index/Rule,
             //       to extract the full key, including optional values.
             const TocFieldLocation& location(static_cast<const TocFieldLocation&>(field.location()));
@@ -213,6 +224,7 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
         }
 
         TocCatalogueWriter& writer_;
+        bool selected_ = false;
     };
 
     // Visit all tocs and indexes
@@ -226,9 +238,12 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
 
     ASSERT(readIndexes.size() == indexInSubtoc.size());
 
-    for (size_t i = 0; i < readIndexes.size(); i++) {
+    visitor.visitDatabase(*this);
+
+    // n.b. the newest index comes first. It has to be written last, so that it takes precedence
+    for (size_t i = readIndexes.size(); i-- > 0;) {
         Index& idx(readIndexes[i]);
-        selectIndex(idx.key());
+        idx.open();
         idx.entries(visitor);
 
         Log::info() << "Visiting index: " << idx.location().uri() << std::endl;
-- 
2.43.0


From 866fafe2a25eedc117f9f5e29fff1717f638c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 28/41] fix: a database whose creation was interrupted can be
 read and written again

---
 src/fdb5/toc/TocHandler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 16f4d4b..292321d 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -219,7 +219,8 @@ TocHandler::~TocHandler() {
 }
 
 bool TocHandler::exists() const {
-    return tocPath_.exists();
+    // n.b. The file of a database that is being created, or whose creation was interrupted, has no TOC_INIT record yet
+    return tocPath_.exists() && tocPath_.size() > eckit::Length(0);
 }
 
 void TocHandler::openForAppend() {
@@ -1325,7 +1326,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
 
     std::vector<Index> indexes;
 
-    if (!tocPath_.exists()) {
+    if (!exists()) {
         return indexes;
     }
 
-- 
2.43.0


From 4a4eb7ae41118d81fa266dc5b6e154522c8386ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 29/41] fix: tables of contents can be read without being
 cached in memory

---
 src/fdb5/toc/TocHandler.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 292321d..85b8c5a 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -85,7 +85,7 @@ public:  // methods
 
     long read(void* buf, long len, const char** pdata = nullptr) {
         if (pdata && !cached_) {
-            throw SeriousBug("Can only return a pointer to data in memory if cached", Here());
+            *pdata = nullptr;  // There is data in memory only if cached
         }
         if (cached_) {
             if (pdata) {
@@ -1351,6 +1351,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
         const TocRecord* datap;
         size_t dataLen;
         LocalPathName tocDirectoryName;  // May differ if using the overlay
+        std::unique_ptr<eckit::Buffer> copy;  // The record, if the TOC is not cached in memory
     };
     std::vector<IndexEntry> indexEntries;
 
@@ -1381,7 +1382,13 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                 break;
 
             case TocRecord::TOC_INDEX:
-                indexEntries.emplace_back(IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory()});
+                indexEntries.emplace_back(
+                    IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory(), nullptr});
+                if (!pdata) {
+                    auto& entry = indexEntries.back();
+                    entry.copy = std::make_unique<eckit::Buffer>(static_cast<const void*>(r.get()), dataLength);
+                    entry.datap = reinterpret_cast<const TocRecord*>(entry.copy->data());
+                }
 
                 if (subTocs && subTocRead_) {
                     subTocs->insert(subTocRead_->tocPath());
-- 
2.43.0


From dfff6a3f0d00fada56c55874ddd3e6f2697ed958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 30/41] fix: null arguments of the C API are reported as errors

---
 src/fdb5/api/fdb_c.cc | 48 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index a8a301d..0f496a4 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -68,6 +68,7 @@ public:
         Tokenizer parse("/");
 
         for (int i = 0; i < numValues; i++) {
+            ASSERT(values[i]);
             std::vector<std::string> result;
             parse(values[i], result);
             vv.insert(std::end(vv), std::begin(result), std::end(result));
@@ -102,6 +103,7 @@ struct fdb_split_key_t {
     }
 
     auto operator++() -> fdb_split_key_t& {
+        ASSERT_MSG(keys_, "keys are missing!");
         /// @todo the following "if" is an unfortunate consequence of a flaw in this iterator
         if (level_ == keys_->end()) {
             level_ = keys_->begin();
@@ -385,20 +387,32 @@ int fdb_set_failure_handler(fdb_failure_handler_t handler, void* context) {
 }
 
 int fdb_version(const char** version) {
-    return wrapApiFunction([version] { (*version) = fdb5_version_str(); });
+    return wrapApiFunction([version] {
+        ASSERT(version);
+        (*version) = fdb5_version_str();
+    });
 }
 
 int fdb_vcs_version(const char** sha1) {
-    return wrapApiFunction([sha1] { (*sha1) = fdb5_git_sha1(); });
+    return wrapApiFunction([sha1] {
+        ASSERT(sha1);
+        (*sha1) = fdb5_git_sha1();
+    });
 }
 
 
 int fdb_new_handle(fdb_handle_t** fdb) {
-    return wrapApiFunction([fdb] { *fdb = new fdb_handle_t(); });
+    return wrapApiFunction([fdb] {
+        ASSERT(fdb);
+        *fdb = new fdb_handle_t();
+    });
 }
 
 int fdb_new_handle_from_yaml(fdb_handle_t** fdb, const char* system_config, const char* user_config) {
     return wrapApiFunction([fdb, system_config, user_config] {
+        ASSERT(fdb);
+        ASSERT(system_config);
+        ASSERT(user_config);
         Config cfg{YAMLConfiguration(std::string(system_config)), YAMLConfiguration(std::string(user_config))};
         cfg.set("configSource", "yaml");
         cfg.expandConfig();
@@ -567,7 +581,10 @@ int fdb_delete_handle(fdb_handle_t* fdb) {
 /** ancillary functions for creating/destroying FDB objects */
 
 int fdb_new_key(fdb_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_key_t();
+    });
 }
 int fdb_key_add(fdb_key_t* key, const char* param, const char* value) {
     return wrapApiFunction([key, param, value] {
@@ -586,7 +603,10 @@ int fdb_delete_key(fdb_key_t* key) {
 }
 
 int fdb_new_request(fdb_request_t** req) {
-    return wrapApiFunction([req] { *req = new fdb_request_t("retrieve"); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        *req = new fdb_request_t("retrieve");
+    });
 }
 int fdb_request_add(fdb_request_t* req, const char* param, const char* values[], int numValues) {
     return wrapApiFunction([req, param, values, numValues] {
@@ -600,11 +620,16 @@ int fdb_request_get(fdb_request_t* req, const char* param, char** values[], size
     return wrapApiFunction([req, param, values, numValues] {
         ASSERT(req);
         ASSERT(param);
+        ASSERT(values);
+        ASSERT(numValues);
         *numValues = req->values(param, values);
     });
 }
 int fdb_expand_request(fdb_request_t* req) {
-    return wrapApiFunction([req] { req->expand(); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        req->expand();
+    });
 }
 int fdb_delete_request(fdb_request_t* req) {
     return wrapApiFunction([req] {
@@ -643,7 +668,10 @@ int fdb_delete_listiterator(fdb_listiterator_t* it) {
 }
 
 int fdb_new_splitkey(fdb_split_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_split_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_split_key_t();
+    });
 }
 
 int fdb_splitkey_next_metadata(fdb_split_key_t* it, const char** key, const char** value, size_t* level) {
@@ -666,7 +694,10 @@ int fdb_delete_splitkey(fdb_split_key_t* key) {
 }
 
 int fdb_new_datareader(fdb_datareader_t** dr) {
-    return wrapApiFunction([dr] { *dr = new fdb_datareader_t(); });
+    return wrapApiFunction([dr] {
+        ASSERT(dr);
+        *dr = new fdb_datareader_t();
+    });
 }
 int fdb_datareader_open(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([dr, size] {
@@ -714,6 +745,7 @@ int fdb_datareader_read(fdb_datareader_t* dr, void* buf, long count, long* read)
 int fdb_datareader_size(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([=] {
         ASSERT(dr);
+        ASSERT(size);
         *size = dr->size();
     });
 }
-- 
2.43.0


From 397152f0c8e224ea6cf06852b9ca78b2888ec101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 31/41] fix: fdb_list reports duplicates when asked to

---
 src/fdb5/api/fdb_c.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index 0f496a4..089e708 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -457,7 +457,7 @@ int fdb_list(fdb_handle_t* fdb, const fdb_request_t* req, fdb_listiterator_t** i
         std::vector<std::string> minKeySet;  // we consider an empty set
         const FDBToolRequest toolRequest(req ? req->request() : metkit::mars::MarsRequest(), req == nullptr, minKeySet);
 
-        *it = new fdb_listiterator_t(fdb->list(toolRequest, duplicates, d));
+        *it = new fdb_listiterator_t(fdb->list(toolRequest, !duplicates, d));
     });
 }
 
-- 
2.43.0


From 90ee8916c4aa8813ab01c923f7aa0574b48fe642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 32/41] fix: deduplicated retrieval returns each field, not the
 last one for all

---
 src/fdb5/api/FDB.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index d5f914d..1a478f8 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -242,7 +242,7 @@ eckit::DataHandle* FDB::read(ListIterator& it, bool sorted) {
             ListElementDeduplicator deduplicator;
             metkit::hypercube::HyperCubePayloaded<ListElement> cube(cubeRequest, deduplicator);
             for (const auto& elem : elements) {
-                cube.add(elem.combinedKey().request(), el);
+                cube.add(elem.combinedKey().request(), elem);
             }
 
             if (cube.countVacant() > 0) {
-- 
2.43.0


From 3e321d1f4e27c9beef3eddef410fc4ae44eb390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 33/41] fix: deleting a handle reports a failing flush instead
 of ending the program

---
 src/fdb5/api/fdb_c.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index 089e708..6d3995e 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -574,6 +574,7 @@ int fdb_delete_purge_iterator(fdb_purge_iterator_t* it) {
 int fdb_delete_handle(fdb_handle_t* fdb) {
     return wrapApiFunction([fdb] {
         ASSERT(fdb);
+        fdb->flush();  // Reports a failure, which would terminate the program in the destructor
         delete fdb;
     });
 }
-- 
2.43.0


From 48c814ddf1e1d5ffc8fe3fdb8d07fb7f117a97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 34/41] fix: a flush does not overtake the data it waits for on
 a single connection

---
 src/fdb5/remote/client/ClientConnection.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index a9979d3..991f46f 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -224,6 +224,13 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         ASSERT(clients_.find(client.clientId()) != clients_.end());
     }
 
+    if (single_) {
+        // Data written in the background could be overtaken by a later control message. The server, waiting
+        // for the announced data when it handles a Flush, would not read from this connection any more.
+        Connection::write(msg, false, client.clientId(), requestID, payloads);
+        return;
+    }
+
     {
         std::lock_guard lock(dataWriteMutex_);
         if (!dataWriteThread_.joinable()) {
-- 
2.43.0


From aea94180dd609f351391c55945424c6bf6436aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 35/41] fix: compare the sections a GRIB message has, and its
 discipline

---
 src/fdb5/tools/compare/grib/CompareBitwise.cc | 64 ++++++++++---------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/fdb5/tools/compare/grib/CompareBitwise.cc b/src/fdb5/tools/compare/grib/CompareBitwise.cc
index c91b9a3..ed05732 100644
--- a/src/fdb5/tools/compare/grib/CompareBitwise.cc
+++ b/src/fdb5/tools/compare/grib/CompareBitwise.cc
@@ -29,6 +29,14 @@ namespace compare::grib {
 namespace {
 
 
+/// Index (counted from 0) of the data section among those after section 0 of a GRIB1 message.
+/// Sections 2 (grid) and 3 (bitmap) are there if section 1 says so. There must be 16 bytes.
+std::size_t grib1DataSection(const uint8_t* buf) {
+    const uint8_t flags = buf[15];
+    return 1 + ((flags & 0x80) ? 1 : 0) + ((flags & 0x40) ? 1 : 0);
+}
+
+
 /// Replacement for grib_get_message_headers
 struct GribHeaderInfo {
     std::size_t header_size;   // offset to data section
@@ -38,7 +46,7 @@ struct GribHeaderInfo {
 
 
 GribHeaderInfo parseGribHeader(const uint8_t* buf, std::size_t size) {
-    if (size < 8) {
+    if (size < 16) {
         throw std::runtime_error("Buffer too small for GRIB");
     }
 
@@ -54,18 +62,21 @@ GribHeaderInfo parseGribHeader(const uint8_t* buf, std::size_t size) {
     if (edition == 1) {
         // --- GRIB1 ---
         total_len = readU24Be(buf + 4);
+        if (total_len > size) {
+            throw std::runtime_error("GRIB1 message is incomplete");
+        }
         offset = 8;  // Section 0 length
 
-        // Sections 1–3 (walk until section 4)
-        while (offset + 3 <= total_len) {
+        // Walk over the sections in front of the data section
+        const std::size_t data_section = grib1DataSection(buf);
+        for (std::size_t section = 0; offset + 3 <= total_len; ++section) {
             uint32_t sec_len = readU24Be(buf + offset);
-            uint8_t sec_num = buf[offset + 3];
 
             if (sec_len == 0) {
                 throw std::runtime_error("Invalid GRIB1 section length");
             }
 
-            if (sec_num == 4) {
+            if (section == data_section) {
                 // Binary Data Section → header ends here
                 return {offset, total_len, edition};
             }
@@ -77,11 +88,11 @@ GribHeaderInfo parseGribHeader(const uint8_t* buf, std::size_t size) {
     }
     else if (edition == 2) {
         // --- GRIB2 ---
-        if (size < 16) {
-            throw std::runtime_error("Buffer too small for GRIB2");
+        const uint64_t total_len_64 = readU64Be(buf + 8);
+        if (total_len_64 > size) {
+            throw std::runtime_error("GRIB2 message is incomplete");
         }
-
-        total_len = readU32Be(buf + 12);
+        total_len = total_len_64;
         offset = 16;  // Section 0 length
 
         // Sections 1–6 (stop at section 7)
@@ -185,44 +196,39 @@ CompareResult bitComparison(const uint8_t* buffer1, const uint8_t* buffer2, size
         eckit::Log::error() << "[GRIB COMPARISON MISMATCH] Unknown Grib edition number " << editionnumber1 << std::endl;
         return CompareResult::OtherMismatch;
     }
-    // Determine number of sections based on the edition number 1 or 2
-    int numSections = (editionnumber1 == 1) ? 4 : 7;
-
-    // Process sections based on edition
-    for (int i = 0; i < numSections; ++i) {
+    // Section 0 also holds the discipline (GRIB2)
+    if (std::memcmp(buffer1, buffer2, offset) != 0) {
+        eckit::Log::info() << "[GRIB COMPARISON MISMATCH] Memory comparison failed in section 0" << std::endl;
+        return CompareResult::OtherMismatch;
+    }
+    // The sections follow one another up to the end of the message (7777). Which of the optional ones are there depends
+    // on the message.
+    const std::size_t grib1Data = grib1DataSection(buffer1);
+    for (std::size_t i = 0; length - offset > 4; ++i) {
         // Read section length
         uint32_t sectionLength1 = 0;
         uint32_t sectionLength2 = 0;
+        bool dataSection = false;
 
-        const auto errCode = i < (numSections - 1) ? CompareResult::OtherMismatch : CompareResult::DataSectionMismatch;
         if (editionnumber1 == 1) {
             // Grib 1 Read 3 byte section length at the beginning of each section
-            if (offset + 3 > length) {
-                eckit::Log::error()
-                    << "[GRIB COMPARISON MISMATCH] Unexpected end of buffer while reading section length for section "
-                    << i + 1 << std::endl;
-                return errCode;
-            }
             sectionLength1 = readU24Be(buffer1 + offset);
             sectionLength2 = readU24Be(buffer2 + offset);
+            dataSection = i == grib1Data;
         }
         else {
-            // Grib 2 stores a 4 byte section length value at the beginning of each section
-            if (offset + 4 > length) {
-                eckit::Log::error()
-                    << "[GRIB COMPARISON MISMATCH] Unexpected end of buffer while reading section length for section "
-                    << i + 1 << std::endl;
-                return errCode;
-            }
+            // Grib 2 stores a 4 byte section length value at the beginning of each section, and the section number
             sectionLength1 = readU32Be(buffer1 + offset);
             sectionLength2 = readU32Be(buffer2 + offset);
+            dataSection = buffer1[offset + 4] == 7 && buffer2[offset + 4] == 7;
         }
+        const auto errCode = dataSection ? CompareResult::DataSectionMismatch : CompareResult::OtherMismatch;
         if (sectionLength1 != sectionLength2) {
             eckit::Log::info() << "[GRIB COMPARISON MISMATCH] The section " << i + 1
                                << " length parameter differs between the grib messages " << std::endl;
             return errCode;
         }
-        if (offset + sectionLength1 >= length) {
+        if (sectionLength1 == 0 || offset + sectionLength1 >= length) {
             eckit::Log::info()
                 << "[GRIB COMPARISON MISMATCH] Corrupted grib - sections lengths exceed total length at section "
                 << i + 1 << std::endl;
-- 
2.43.0


From aa8ec1dba0062dd148213f7acb12af2bf349d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 36/41] fix: fdb-compare takes not-a-number and infinite values
 into account

---
 src/fdb5/tools/compare/grib/CompareDatasection.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/tools/compare/grib/CompareDatasection.cc b/src/fdb5/tools/compare/grib/CompareDatasection.cc
index d07fcbb..572f5eb 100644
--- a/src/fdb5/tools/compare/grib/CompareDatasection.cc
+++ b/src/fdb5/tools/compare/grib/CompareDatasection.cc
@@ -13,6 +13,7 @@
 #include "fdb5/tools/compare/common/Types.h"
 
 #include <cmath>
+#include <limits>
 
 using namespace eckit;
 
@@ -40,10 +41,14 @@ NumericResult compareDataSection(const metkit::codes::CodesHandle& h1, const met
     double denominator;
     for (size_t i = 0; i < valuesLen1; ++i) {
         error = std::fabs(values1[i] - values2[i]);
-        if (error <= tolerance) {
+        if (error <= tolerance || values1[i] == values2[i] || (std::isnan(values1[i]) && std::isnan(values2[i]))) {
             res.absoluteError.update(0.0);
             res.relativeError.update(0.0);
         }
+        else if (std::isnan(error)) {  // Only one of them is a number
+            res.absoluteError.update(std::numeric_limits<double>::infinity());
+            res.relativeError.update(std::numeric_limits<double>::infinity());
+        }
         else {
             res.absoluteError.update(error);
             denominator = std::fabs(values1[i]) > tolerance ? std::fabs(values1[i]) : tolerance;
-- 
2.43.0


From f2007d1d2129b96f4c5768f398dce7e4b7e1382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 37/41] fix: fdb-compare reports keys of the first FDB without
 counterpart

---
 src/fdb5/tools/compare/mars/Compare.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/tools/compare/mars/Compare.cc b/src/fdb5/tools/compare/mars/Compare.cc
index d61f952..24a2e9a 100644
--- a/src/fdb5/tools/compare/mars/Compare.cc
+++ b/src/fdb5/tools/compare/mars/Compare.cc
@@ -61,7 +61,7 @@ Result compareMarsKeys(const DataIndex& i1, const DataIndex& i2, const Options&
     }
 
     // All are identical
-    if (mismatches == 0 && i2.size() == i1.size()) {
+    if (mismatches == 0 && i1Remaining.empty() && i2.size() == i1.size()) {
         eckit::Log::info() << "[MARS KEYS COMPARE] SUCCESS\n";
         res.match = true;
         return res;
-- 
2.43.0


From 2f3759a19010a36d37ea061d3d342b1552dd61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 38/41] fix: fdb-compare omits messages with any of the pairs
 of mars-keys-ignore

---
 src/fdb5/tools/compare/common/Types.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/tools/compare/common/Types.cc b/src/fdb5/tools/compare/common/Types.cc
index 0ab2546..7c526fb 100644
--- a/src/fdb5/tools/compare/common/Types.cc
+++ b/src/fdb5/tools/compare/common/Types.cc
@@ -229,14 +229,15 @@ void Result::update(const Result& other) {
 //---------------------------------------------------------------------------------------------------------------------
 
 
-bool isSubset(const fdb5::Key& a, const fdb5::Key& b) {
+/// Does b contain any of the key-value pairs of a?
+bool containsAny(const fdb5::Key& a, const fdb5::Key& b) {
     for (const auto& kv : a) {
         auto [it, isValid] = b.find(kv.first);
-        if (!isValid || it->second != kv.second) {
-            return false;
+        if (isValid && it->second == kv.second) {
+            return true;
         }
     }
-    return true;
+    return false;
 }
 
 
@@ -248,7 +249,7 @@ DataIndex assembleCompareMap(fdb5::FDB& fdb, const fdb5::FDBToolRequest& req, co
 
     while (list.next(elem)) {
         fdb5::Key km = elem.combinedKey();
-        if (ignore.empty() || !isSubset(ignore, km)) {
+        if (!containsAny(ignore, km)) {
             out.emplace(km, elem);
         }
     }
-- 
2.43.0


From 6dfb2674a43558df3b52e349b536ab9656ed77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 39/41] fix: fdb-compare reads whole messages

---
 src/fdb5/tools/compare/grib/Utils.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/tools/compare/grib/Utils.cc b/src/fdb5/tools/compare/grib/Utils.cc
index 2f8b554..3c1c18d 100644
--- a/src/fdb5/tools/compare/grib/Utils.cc
+++ b/src/fdb5/tools/compare/grib/Utils.cc
@@ -67,7 +67,7 @@ std::vector<std::string> translateFromMARS(const std::string& marsKey) {
 }
 
 std::unique_ptr<uint8_t[]> extractGribMessage(const fdb5::ListElement& gribLoc) {
-    const auto length = gribLoc.length();
+    const long length = gribLoc.length();
     std::unique_ptr<uint8_t[]> buffer = std::make_unique<uint8_t[]>(length);
 
     auto dh = std::unique_ptr<eckit::DataHandle>(gribLoc.location().dataHandle());
@@ -78,8 +78,13 @@ std::unique_ptr<uint8_t[]> extractGribMessage(const fdb5::ListElement& gribLoc)
     // For a tco79 this seems to be the bottleneck: Optimisation suggestions: would be to keep the files open in a
     // Filestream cache. Potentially with an option to only store a certain amount of filestreams to avoid memory of
     // open file descriptor issues.
-    if (!dh->read(reinterpret_cast<char*>(buffer.get()), length)) {
-        throw eckit::ReadError("Could not read the data from file", Here());
+    long got = 0;
+    while (got < length) {
+        const long n = dh->read(reinterpret_cast<char*>(buffer.get()) + got, length - got);
+        if (n <= 0) {
+            throw eckit::ReadError("Could not read the data from file", Here());
+        }
+        got += n;
     }
 
     return buffer;
-- 
2.43.0


From 9a13eccd9c58cb0b24ff35ed7fd464b3746c3bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 40/41] fix: a keyword removed from a key is removed from its
 names too

---
 src/fdb5/database/BaseKey.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fdb5/database/BaseKey.cc b/src/fdb5/database/BaseKey.cc
index f8360ff..bfd563c 100644
--- a/src/fdb5/database/BaseKey.cc
+++ b/src/fdb5/database/BaseKey.cc
@@ -18,6 +18,7 @@
 
 #include "metkit/mars/MarsRequest.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <ostream>
 #include <sstream>
@@ -105,6 +106,7 @@ void BaseKey::set(const std::string& keyword, const std::string& value) {
 
 void BaseKey::unset(const std::string& keyword) {
     keys_.erase(keyword);
+    names_.erase(std::remove(names_.begin(), names_.end(), keyword), names_.end());
 }
 
 void BaseKey::push(const std::string& keyword, const std::string& value) {
-- 
2.43.0


From 2b571b125360b6ab996744f4ed23bae395019666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 41/41] fix: data files move to the same directory as their
 table of contents

---
 src/fdb5/toc/TocStore.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 52d72af..5367bbf 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -358,7 +358,8 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
     for (const eckit::PathName& root : StoreRootManager(config).canMoveToRoots(key)) {
         if (root.sameAs(destPath)) {
             eckit::PathName src_db = directory_;
-            eckit::PathName dest_db = destPath / key.valuesToString();
+            // n.b. the directory is not necessarily named after the key (dbnames)
+            eckit::PathName dest_db = destPath / src_db.baseName(true);
 
             dest_db.mkdir();
             DIR* dirp = ::opendir(src_db.asString().c_str());
-- 
2.43.0

