From 6297cd8dbeba5e9f53ad30e8bc181f5ae8fcc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:17 +0000
Subject: [PATCH 01/21] sim hooks (guard DPPIR_SIM): report client answers and
 database lookups

---
 DPPIR/protocol/client/client_online.cc | 10 ++++++++++
 DPPIR/types/database.cc                | 12 +++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/DPPIR/protocol/client/client_online.cc b/DPPIR/protocol/client/client_online.cc
index 1be8e4a..5c9dfc0 100644
--- a/DPPIR/protocol/client/client_online.cc
+++ b/DPPIR/protocol/client/client_online.cc
@@ -5,6 +5,12 @@
 #include "DPPIR/protocol/client/client.h"
 #include "DPPIR/types/containers.h"
 
+#ifdef DPPIR_SIM
+// Simulation hook: reports each answer the client obtained.
+extern "C" void dppir_sim_on_answer(uint32_t index, uint32_t key,
+                                    const void* record, size_t size);
+#endif
+
 namespace DPPIR {
 namespace protocol {
 
@@ -38,6 +44,10 @@ void Client::StartOnline(index_t count) {
       // Reconstruct.
       this->ReconstructResponse(&response);
 
+#ifdef DPPIR_SIM
+      dppir_sim_on_answer(read, queries[read], &response, sizeof(response));
+#endif
+
       // Verify signature.
       // TODO(babman): signature.
 
diff --git a/DPPIR/types/database.cc b/DPPIR/types/database.cc
index d3c8afa..edf9061 100644
--- a/DPPIR/types/database.cc
+++ b/DPPIR/types/database.cc
@@ -3,6 +3,11 @@
 // NOLINTNEXTLINE
 #include "sodium.h"
 
+#ifdef DPPIR_SIM
+// Simulation hook: reports each key looked up in the database.
+extern "C" void dppir_sim_on_lookup(uint32_t key, uint32_t size);
+#endif
+
 namespace DPPIR {
 
 Database::Database(index_t rows) : size_(rows) {
@@ -15,6 +20,11 @@ Database::Database(index_t rows) : size_(rows) {
 
 key_t Database::RandomRow() const { return randombytes_uniform(this->size_); }
 
-const Response& Database::Lookup(key_t key) const { return this->db_[key]; }
+const Response& Database::Lookup(key_t key) const {
+#ifdef DPPIR_SIM
+  dppir_sim_on_lookup(key, this->size_);
+#endif
+  return this->db_[key];
+}
 
 }  // namespace DPPIR
-- 
2.43.0


From dbfb5d41cece06c3ac37260e0a77e09ee3ccfb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:27 +0000
Subject: [PATCH 02/21] fix: query tags of parallel clients collide when they
 make different numbers of queries

---
 DPPIR/protocol/client/client_handlers.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DPPIR/protocol/client/client_handlers.cc b/DPPIR/protocol/client/client_handlers.cc
index 7e8d03d..54ad258 100644
--- a/DPPIR/protocol/client/client_handlers.cc
+++ b/DPPIR/protocol/client/client_handlers.cc
@@ -14,7 +14,9 @@ tag_t Client::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
   // TODO(babman): sample this tag uniformly at random.
-  return this->server_id_ * this->queries_count_ + id;
+  // Parallel clients may make different numbers of queries: the tag space of
+  // each client is separate from all others.
+  return (static_cast<tag_t>(this->server_id_) << 32) + id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From 83e9d92566f3ba50fa9b308acb706261af8672dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:27 +0000
Subject: [PATCH 03/21] fix: noise ranges beyond the database when its size
 does not divide evenly over the servers

---
 DPPIR/noise/noise.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 08bf1d3..af12ba0 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -1,5 +1,6 @@
 #include "DPPIR/noise/noise.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdlib>
@@ -34,11 +35,9 @@ std::pair<key_t, key_t> FindRange(server_id_t server_id,
                                   server_id_t servers_count, index_t db_size) {
   assert(db_size >= servers_count);
   index_t range_size = std::ceil(1.0 * db_size / servers_count);
-  key_t range_start = server_id * range_size;
-  key_t range_end = range_start + range_size;
-  if (server_id == servers_count - 1) {
-    range_end = db_size;
-  }
+  // The ceiling may exhaust the keys before the last server.
+  key_t range_start = std::min<index_t>(server_id * range_size, db_size);
+  key_t range_end = std::min<index_t>(range_start + range_size, db_size);
   return std::make_pair(range_start, range_end);
 }
 
-- 
2.43.0


From af0bd27b0ded73be0a817681ea2342978eec1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:27 +0000
Subject: [PATCH 04/21] fix: shuffles are not uniform, rand() provides 31
 random bits and not 32

---
 DPPIR/shuffle/util.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DPPIR/shuffle/util.cc b/DPPIR/shuffle/util.cc
index ebb97a8..8d96b0c 100644
--- a/DPPIR/shuffle/util.cc
+++ b/DPPIR/shuffle/util.cc
@@ -9,9 +9,10 @@ void seed(int s) { srand(s); }
 // https://lemire.me/blog/2016/06/30/fast-random-shuffling/
 uint32_t random_bounded(uint32_t range) {
   // NOLINTNEXTLINE
-  uint64_t random32bit = static_cast<uint32_t>(rand());  // 32-bit random number
-  uint64_t multiresult = random32bit * range;
-  return multiresult >> 32;
+  uint64_t random31bit = static_cast<uint32_t>(rand());  // 31-bit random number
+  static_assert(RAND_MAX == 2147483647);
+  uint64_t multiresult = random31bit * range;
+  return multiresult >> 31;
 }
 
 }  // namespace util
-- 
2.43.0


From 67f315bb63c34aa2178788b7b7c18fde371dd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:01 +0000
Subject: [PATCH 05/21] fix: processes spin forever on a connection closed by
 its peer

read() returning 0 (end of stream) was taken for progress of 0 bytes, so every
process whose peer died kept reading in a busy loop instead of stopping.
---
 DPPIR/sockets/common.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/sockets/common.cc b/DPPIR/sockets/common.cc
index badc8b8..03079cb 100644
--- a/DPPIR/sockets/common.cc
+++ b/DPPIR/sockets/common.cc
@@ -120,6 +120,7 @@ void Read(int fd, char* buf, size_t buf_size) {
   while (bytes < buf_size) {
     auto status = read(fd, buf + bytes, buf_size - bytes);
     MY_ASSERT(status);
+    assert(status > 0);  // 0: the peer closed the connection.
     bytes += status;
   }
 }
@@ -127,6 +128,7 @@ void Read(int fd, char* buf, size_t buf_size) {
 size_t ReadSome(int fd, char* buf, size_t buf_size) {
   auto status = read(fd, buf, buf_size);
   MY_ASSERT(status);
+  assert(status > 0);  // 0: the peer closed the connection.
   return status;
 }
 
-- 
2.43.0


From a4dd47567256dc47b0fd812dfeba9ff24c0b03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:26 +0000
Subject: [PATCH 06/21] fix: gen_config reports success when the configuration
 could not be written

WriteToFile ignored failures to open, write and flush the file, leaving a
missing or truncated configuration behind a successful exit.
---
 DPPIR/config/config.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/config/config.cc b/DPPIR/config/config.cc
index db0ebae..ba25b3d 100644
--- a/DPPIR/config/config.cc
+++ b/DPPIR/config/config.cc
@@ -128,6 +128,8 @@ void WriteToFile(const Config& config, const std::string& file) {
   std::string data = Serialize(config);
   std::ofstream f(file.c_str());
   f.write(data.data(), data.size());
+  f.close();
+  assert(f.good());  // The whole file must have been written out.
 }
 
 }  // namespace config
-- 
2.43.0


From 097f491c5a661480e31b9a4da60bf7541dbba636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:11 +0000
Subject: [PATCH 07/21] fix: killing an experiment stops workers that are on
 another experiment by now

A worker that finished its part and was given a job of the next experiment is
still listed in the old one, and was marked to be killed along with it (and
likewise when a checklist experiment cleans up its servers).
---
 experiments/orchestrator/experiment.js   | 2 +-
 experiments/orchestrator/orchestrator.js | 4 ++--
 experiments/orchestrator/worker.js       | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/experiments/orchestrator/experiment.js b/experiments/orchestrator/experiment.js
index 5d44453..c4d0241 100644
--- a/experiments/orchestrator/experiment.js
+++ b/experiments/orchestrator/experiment.js
@@ -55,7 +55,7 @@ AbstractExperiment.prototype.finished = function (worker) {
         this.status = Status.EXPERIMENT_CLEANUP;
         console.log("Experiment " + this.id + " is cleaning up!");
         for (const server of this.servers) {
-          server.kill();
+          server.kill(this);
         }
       }
       if (this.serversNum == 0 || this.finishedServers == this.serversNum) {
diff --git a/experiments/orchestrator/orchestrator.js b/experiments/orchestrator/orchestrator.js
index 26a7b9f..0a4cf5d 100644
--- a/experiments/orchestrator/orchestrator.js
+++ b/experiments/orchestrator/orchestrator.js
@@ -77,10 +77,10 @@ Orchestrator.prototype.kill = function (experimentId) {
   for (const experiment of this.experiments) {
     if (experiment.id == experimentId) {
       for (const worker of experiment.clients) {
-        worker.kill();
+        worker.kill(experiment);
       }
       for (const worker of experiment.servers) {
-        worker.kill();
+        worker.kill(experiment);
       }
       return;
     }
diff --git a/experiments/orchestrator/worker.js b/experiments/orchestrator/worker.js
index d3724ae..8cb0d3a 100644
--- a/experiments/orchestrator/worker.js
+++ b/experiments/orchestrator/worker.js
@@ -36,8 +36,9 @@ Worker.prototype.assignExperiment = function (experiment) {
   this.status = Status.WORKER_WORKING;
   this.experiment = experiment;
 };
-Worker.prototype.kill = function () {
-  if (this.status == Status.WORKER_WORKING) {
+Worker.prototype.kill = function (experiment) {
+  // The worker may have moved on to another experiment since.
+  if (this.status == Status.WORKER_WORKING && this.experiment == experiment) {
     console.log("Worker", this.id, "marked to kill");
     this.status = Status.WORKER_CLEANUP;
   }
-- 
2.43.0


From 1e0a8e5c323d36ad308e1a9847535b62ab4fb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:11 +0000
Subject: [PATCH 08/21] fix: an experiment killed or cleared before it is fully
 staffed blocks the queue and its workers

It stayed at the head of the queues, so that its own killed workers (and any
others) were given its remaining places, and a worker waiting for its
configuration was never released.
---
 experiments/orchestrator/main.js         | 8 ++++++--
 experiments/orchestrator/orchestrator.js | 8 ++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/experiments/orchestrator/main.js b/experiments/orchestrator/main.js
index e9b3396..b7fbac6 100644
--- a/experiments/orchestrator/main.js
+++ b/experiments/orchestrator/main.js
@@ -56,8 +56,12 @@ app.get('/table/:id', (req, res) => {
 */
 app.get('/config/:id', async function (req, res) {
   const id = parseInt(req.params.id);
-  const experiment = orchestrator.getWorkerById(id).experiment;
-  if (experiment.serversNum != experiment.servers.length) {
+  const worker = orchestrator.getWorkerById(id);
+  const experiment = worker.experiment;
+  if (worker.shouldKill()) {
+    // Not a configuration: the job fails and the worker reports back.
+    res.send("KILLED");
+  } else if (experiment.serversNum != experiment.servers.length) {
     res.send("WAIT");
   } else if (experiment.config == null) {
     experiment.generateTableAndConfigurations();
diff --git a/experiments/orchestrator/orchestrator.js b/experiments/orchestrator/orchestrator.js
index 0a4cf5d..6d1ce24 100644
--- a/experiments/orchestrator/orchestrator.js
+++ b/experiments/orchestrator/orchestrator.js
@@ -76,6 +76,10 @@ Orchestrator.prototype.experimentInfo = function (experimentId) {
 Orchestrator.prototype.kill = function (experimentId) {
   for (const experiment of this.experiments) {
     if (experiment.id == experimentId) {
+      // A killed experiment takes no more workers.
+      const others = e => e != experiment;
+      this.clientExperimentsQueue = this.clientExperimentsQueue.filter(others);
+      this.serverExperimentsQueue = this.serverExperimentsQueue.filter(others);
       for (const worker of experiment.clients) {
         worker.kill(experiment);
       }
@@ -121,6 +125,10 @@ Orchestrator.prototype.experimentsToJSON = function () {
   return arr;
 };
 Orchestrator.prototype.clearExperiments = function () {
+  // Experiments still waiting for workers will never start.
+  for (const experiment of this.clientExperimentsQueue.concat(this.serverExperimentsQueue)) {
+    this.kill(experiment.id);
+  }
   this.experiments = [];
   this.clientExperimentsQueue = [];
   this.serverExperimentsQueue = [];
-- 
2.43.0


From d39685a95e86ecf03a4d51965b5cb0f6726b6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:11 +0000
Subject: [PATCH 09/21] fix: the orchestrator dies when a worker it does not
 know asks for a configuration, or the operator for its log

Both handlers are async, so the exception ended the process as an unhandled
rejection instead of failing the one request. It happens when workers outlive
an orchestrator that was restarted.
---
 experiments/orchestrator/cmd.js  | 6 ++++--
 experiments/orchestrator/main.js | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/experiments/orchestrator/cmd.js b/experiments/orchestrator/cmd.js
index 2bfa4b6..e7f3929 100644
--- a/experiments/orchestrator/cmd.js
+++ b/experiments/orchestrator/cmd.js
@@ -166,8 +166,10 @@ Cmd.prototype.Listen = function () {
     if (line.startsWith('log')) {
       const workerId = parseInt(line.split(' ')[1]);
       const worker = self.orchestrator.getWorkerById(workerId);
-      console.log('Waiting for log...');
-      await worker.askForLog();
+      if (worker != undefined) {
+        console.log('Waiting for log...');
+        await worker.askForLog();
+      }
     }
     if (line.startsWith('new')) {
       const experimentType = line.split(' ')[1];
diff --git a/experiments/orchestrator/main.js b/experiments/orchestrator/main.js
index b7fbac6..bdff376 100644
--- a/experiments/orchestrator/main.js
+++ b/experiments/orchestrator/main.js
@@ -54,7 +54,7 @@ app.get('/table/:id', (req, res) => {
   res.send(orchestrator.getWorkerById(id).experiment.table);
 });
 */
-app.get('/config/:id', async function (req, res) {
+app.get('/config/:id', (req, res) => {
   const id = parseInt(req.params.id);
   const worker = orchestrator.getWorkerById(id);
   const experiment = worker.experiment;
-- 
2.43.0


From 28f2d13927d0e9e430dade75c0a28081f28f9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:11 +0000
Subject: [PATCH 10/21] fix: a worker reporting an empty log is never counted
 as finished

body-parser leaves an object in req.body when there is no body; writing it
throws and the report was lost.
---
 experiments/orchestrator/main.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/orchestrator/main.js b/experiments/orchestrator/main.js
index bdff376..292ed47 100644
--- a/experiments/orchestrator/main.js
+++ b/experiments/orchestrator/main.js
@@ -110,7 +110,8 @@ app.get('/ping/:id', (req, res) => {
 // Report finishing.
 app.post('/done/:id', (req, res) => {
   const id = parseInt(req.params.id);
-  const result = req.body;
+  // An empty log is no body at all.
+  const result = typeof req.body == 'string' ? req.body : '';
   const worker = orchestrator.getWorkerById(id);
   const experiment = worker.experiment;
   const filePath = experiment.resultFile(worker);
-- 
2.43.0


From 9764e5bf1b2fd1305ad52477701f5b167cb9266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:00 +0000
Subject: [PATCH 11/21] fix: messages carry the same predictable tag on every
 hop

The tag of a query was a counter, the same for every party, so any party (or
anyone on the links) could tell which outgoing query of a party is which
incoming one, whose it is and which ones are noise, whatever the shuffle did.
Tags are now sampled at random for each hop, as the comments intended, and
the state keeps the tag for the first party rather than the last one sampled.
---
 DPPIR/protocol/client/client.h                |  2 +-
 DPPIR/protocol/client/client_handlers.cc      | 19 +++++++-------
 .../protocol/parallel_party/parallel_party.h  |  2 +-
 .../parallel_party/parallel_party_handlers.cc | 25 +++++++------------
 DPPIR/protocol/party/party.h                  |  2 +-
 DPPIR/protocol/party/party_handlers.cc        | 15 ++++++-----
 6 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/DPPIR/protocol/client/client.h b/DPPIR/protocol/client/client.h
index d3e1ace..6539882 100644
--- a/DPPIR/protocol/client/client.h
+++ b/DPPIR/protocol/client/client.h
@@ -55,7 +55,7 @@ class Client {
   void StartOnline(index_t count);
 
   // Handlers.
-  tag_t SampleTag(index_t id);
+  tag_t SampleTag();
   std::unique_ptr<OfflineSecret[]> MakeSecret(index_t id);
   Query MakeQuery(key_t key);
   void ReconstructResponse(Response* response);
diff --git a/DPPIR/protocol/client/client_handlers.cc b/DPPIR/protocol/client/client_handlers.cc
index 54ad258..ed12281 100644
--- a/DPPIR/protocol/client/client_handlers.cc
+++ b/DPPIR/protocol/client/client_handlers.cc
@@ -5,25 +5,23 @@
 #include "DPPIR/protocol/client/client.h"
 #include "DPPIR/sharing/additive.h"
 #include "DPPIR/sharing/incremental.h"
+#include "sodium.h"
 
 namespace DPPIR {
 namespace protocol {
 
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
-tag_t Client::SampleTag(index_t id) {
-  // The below leaks information but is helpful for debugging as it allows us
-  // to determine the source of a message via its tag.
-  // TODO(babman): sample this tag uniformly at random.
-  // Parallel clients may make different numbers of queries: the tag space of
-  // each client is separate from all others.
-  return (static_cast<tag_t>(this->server_id_) << 32) + id;
+tag_t Client::SampleTag() {
+  tag_t tag;
+  randombytes_buf(&tag, sizeof(tag));
+  return tag;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
 // use in the offline protocol.
 std::unique_ptr<OfflineSecret[]> Client::MakeSecret(index_t id) {
   // Sample secret components.
-  tag_t tag = this->SampleTag(id);
+  tag_t first_tag = this->SampleTag();
   std::vector<incremental_share_t> incrementals =
       sharing::PreIncrementalSecretShares(this->party_count_);
   std::vector<preshare_t> preshares =
@@ -32,17 +30,18 @@ std::unique_ptr<OfflineSecret[]> Client::MakeSecret(index_t id) {
   // Construct the secret of each party
   std::unique_ptr<OfflineSecret[]> secrets =
       std::make_unique<OfflineSecret[]>(this->party_count_);
+  tag_t tag = first_tag;
   for (party_id_t party_id = 0; party_id < this->party_count_; party_id++) {
     OfflineSecret& secret = secrets[party_id];
     secret.tag = tag;
-    secret.next_tag = this->SampleTag(id);
+    secret.next_tag = this->SampleTag();
     secret.share = incrementals.at(party_id);
     secret.preshare = preshares.at(party_id);
     tag = secret.next_tag;
   }
 
   // Store relevant portion in client state.
-  this->state_.AddSecret(tag, std::move(incrementals),
+  this->state_.AddSecret(first_tag, std::move(incrementals),
                          preshares.at(this->party_count_));
 
   // Done!
diff --git a/DPPIR/protocol/parallel_party/parallel_party.h b/DPPIR/protocol/parallel_party/parallel_party.h
index 1958338..5693312 100644
--- a/DPPIR/protocol/parallel_party/parallel_party.h
+++ b/DPPIR/protocol/parallel_party/parallel_party.h
@@ -130,7 +130,7 @@ class ParallelParty {
   void FromSibling(server_id_t source, const Response& response);
 
   // Handlers.
-  tag_t SampleTag(index_t id);
+  tag_t SampleTag();
   std::unique_ptr<OfflineSecret[]> MakeNoiseSecret(index_t id);
   void MakeNoiseQuery(key_t key, Query* target);
   void HandleQuery(const Query& input, Query* target);
diff --git a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
index dc40fe6..ac22dd3 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
@@ -3,24 +3,16 @@
 #include "DPPIR/protocol/parallel_party/parallel_party.h"
 #include "DPPIR/sharing/additive.h"
 #include "DPPIR/sharing/incremental.h"
+#include "sodium.h"
 
 namespace DPPIR {
 namespace protocol {
 
-static int64_t NOISE_OFFSET = -1;
-
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
-tag_t ParallelParty::SampleTag(index_t id) {
-  // The below leaks information but is helpful for debugging as it allows us
-  // to determine the source of a message via its tag.
-  if (NOISE_OFFSET == -1) {
-    index_t range = this->noise_end_ - this->noise_start_;
-    index_t noise_per_row = this->noise_count_ / range;
-    index_t total_noise = noise_per_row * this->db_.Size();
-    NOISE_OFFSET = total_noise - (this->noise_start_ * noise_per_row);
-  }
-  // TODO(babman): sample the tag uniformly at random.
-  return this->total_batch_size_ - NOISE_OFFSET + id;
+tag_t ParallelParty::SampleTag() {
+  tag_t tag;
+  randombytes_buf(&tag, sizeof(tag));
+  return tag;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
@@ -29,7 +21,7 @@ std::unique_ptr<OfflineSecret[]> ParallelParty::MakeNoiseSecret(index_t id) {
   party_id_t remaining_parties = this->party_count_ - this->party_id_ - 1;
 
   // Sample secret components.
-  tag_t tag = this->SampleTag(id);
+  tag_t first_tag = this->SampleTag();
   std::vector<incremental_share_t> incrementals =
       sharing::PreIncrementalSecretShares(remaining_parties);
   std::vector<preshare_t> preshares =
@@ -38,17 +30,18 @@ std::unique_ptr<OfflineSecret[]> ParallelParty::MakeNoiseSecret(index_t id) {
   // Construct the secret of each party
   std::unique_ptr<OfflineSecret[]> secrets =
       std::make_unique<OfflineSecret[]>(remaining_parties);
+  tag_t tag = first_tag;
   for (party_id_t party_id = 0; party_id < remaining_parties; party_id++) {
     OfflineSecret& secret = secrets[party_id];
     secret.tag = tag;
-    secret.next_tag = this->SampleTag(id);
+    secret.next_tag = this->SampleTag();
     secret.share = incrementals.at(party_id);
     secret.preshare = preshares.at(party_id);
     tag = secret.next_tag;
   }
 
   // Store relevant portion in client state.
-  this->noise_state_.AddNoiseSecret(tag, std::move(incrementals));
+  this->noise_state_.AddNoiseSecret(first_tag, std::move(incrementals));
 
   // Done!
   return secrets;
diff --git a/DPPIR/protocol/party/party.h b/DPPIR/protocol/party/party.h
index 8fd53ae..446f84e 100644
--- a/DPPIR/protocol/party/party.h
+++ b/DPPIR/protocol/party/party.h
@@ -100,7 +100,7 @@ class Party {
   void StartOnline();
 
   // Handlers.
-  tag_t SampleTag(index_t id);
+  tag_t SampleTag();
   std::unique_ptr<OfflineSecret[]> MakeNoiseSecret(index_t id);
   void MakeNoiseQuery(key_t key, Query* target);
   void HandleQuery(const Query& input, Query* target);
diff --git a/DPPIR/protocol/party/party_handlers.cc b/DPPIR/protocol/party/party_handlers.cc
index 957e981..293e59b 100644
--- a/DPPIR/protocol/party/party_handlers.cc
+++ b/DPPIR/protocol/party/party_handlers.cc
@@ -3,14 +3,16 @@
 #include "DPPIR/protocol/party/party.h"
 #include "DPPIR/sharing/additive.h"
 #include "DPPIR/sharing/incremental.h"
+#include "sodium.h"
 
 namespace DPPIR {
 namespace protocol {
 
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
-tag_t Party::SampleTag(index_t id) {
-  // TODO(babman): sample this tag properly.
-  return this->input_count_ + id;
+tag_t Party::SampleTag() {
+  tag_t tag;
+  randombytes_buf(&tag, sizeof(tag));
+  return tag;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
@@ -19,7 +21,7 @@ std::unique_ptr<OfflineSecret[]> Party::MakeNoiseSecret(index_t id) {
   party_id_t remaining_parties = this->party_count_ - this->party_id_ - 1;
 
   // Sample secret components.
-  tag_t tag = this->SampleTag(id);
+  tag_t first_tag = this->SampleTag();
   std::vector<incremental_share_t> incrementals =
       sharing::PreIncrementalSecretShares(remaining_parties);
   std::vector<preshare_t> preshares =
@@ -28,17 +30,18 @@ std::unique_ptr<OfflineSecret[]> Party::MakeNoiseSecret(index_t id) {
   // Construct the secret of each party
   std::unique_ptr<OfflineSecret[]> secrets =
       std::make_unique<OfflineSecret[]>(remaining_parties);
+  tag_t tag = first_tag;
   for (party_id_t party_id = 0; party_id < remaining_parties; party_id++) {
     OfflineSecret& secret = secrets[party_id];
     secret.tag = tag;
-    secret.next_tag = this->SampleTag(id);
+    secret.next_tag = this->SampleTag();
     secret.share = incrementals.at(party_id);
     secret.preshare = preshares.at(party_id);
     tag = secret.next_tag;
   }
 
   // Store relevant portion in client state.
-  this->noise_state_.AddNoiseSecret(tag, std::move(incrementals));
+  this->noise_state_.AddNoiseSecret(first_tag, std::move(incrementals));
 
   // Done!
   return secrets;
-- 
2.43.0


From 161ba81b8f14650802f377865ac8bc1a873e2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:02 +0000
Subject: [PATCH 12/21] fix: sampled noise is the same in every process and
 every run

With DPPIR_SAMPLE, noise is drawn from rand(), which nobody seeded: every
server of every party added the same, publicly known amounts of noise.
Each process now seeds it from the system's randomness.
---
 DPPIR/main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index b62748d..a4999bb 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <string>
 
@@ -26,6 +27,8 @@ ABSL_FLAG(int64_t, queries, -1, "# of queries (required if role is client)");
 
 int main(int argc, char** argv) {
   assert(sodium_init() >= 0);
+  // Noise sampling uses rand(): every process must have its own sequence.
+  std::srand(randombytes_random());
 
   // Command line flags.
   absl::SetProgramUsageMessage(USAGE_MESSAGE);
-- 
2.43.0


From b66d3c12f7f0ac7b1c46dd149dc971e51449e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:10 +0000
Subject: [PATCH 13/21] fix: worker daemons repeat requests that fail

A registration, poll for work, configuration request or report that did not
reach the orchestrator was taken for an answer: the daemon ran an invalid job,
ran its program with an empty configuration, or lost the report.
---
 experiments/daemon_client.sh | 19 ++++++++++++-------
 experiments/daemon_server.sh | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/experiments/daemon_client.sh b/experiments/daemon_client.sh
index d35809f..791f331 100755
--- a/experiments/daemon_client.sh
+++ b/experiments/daemon_client.sh
@@ -6,7 +6,10 @@ rm -f experiments/dppir/config*.json
 mkdir -p data
 
 # Notify orchastrator that you exists.
-WORKER_ID=$( { curl "$ORCHASTRATOR/giveip/client" 2> /dev/null; } )
+until WORKER_ID=$( { curl "$ORCHASTRATOR/giveip/client" 2> /dev/null; } )
+do
+  sleep 5
+done
 
 echo "I am a client with worker_id ${WORKER_ID}"
 
@@ -16,8 +19,8 @@ do
   echo "Waiting for new job!"
 
   # Try to sign up to the next computation.
-  response=$( { curl "$ORCHASTRATOR/ping/${WORKER_ID}" 2> /dev/null; } )
-  if [ "$response" = "WAIT" ]
+  if ! response=$( { curl "$ORCHASTRATOR/ping/${WORKER_ID}" 2> /dev/null; } ) ||
+     [ "$response" = "WAIT" ]
   then
     sleep 5
     continue
@@ -42,12 +45,11 @@ do
     # Read configurations.
     echo "Reading config ..."
     config="config/client-${server_id}.txt"
-    curl "$ORCHASTRATOR/config/${WORKER_ID}" > $config 2> /dev/null
-    while [[ $(cat ${config} 2> /dev/null) == "WAIT" ]]
+    until curl "$ORCHASTRATOR/config/${WORKER_ID}" > $config 2> /dev/null &&
+          [[ $(cat ${config} 2> /dev/null) != "WAIT" ]]
     do
       sleep 2
       echo "retry config..."
-      curl "$ORCHASTRATOR/config/${WORKER_ID}" > $config 2> /dev/null
     done
 
     # Run binaries.
@@ -111,5 +113,8 @@ do
 
   # Done, send log file to orchastrator which includes the time taken.
   echo "Uploading result to orchastrator..."
-  curl -H 'Content-Type: text/plain' -X POST --data-binary @$outfile "$ORCHASTRATOR/done/${WORKER_ID}"
+  until curl -H 'Content-Type: text/plain' -X POST --data-binary @$outfile "$ORCHASTRATOR/done/${WORKER_ID}"
+  do
+    sleep 5
+  done
 done
diff --git a/experiments/daemon_server.sh b/experiments/daemon_server.sh
index 68ea3b0..6fa5eef 100755
--- a/experiments/daemon_server.sh
+++ b/experiments/daemon_server.sh
@@ -6,7 +6,10 @@ rm -f experiments/dppir/config*.json
 mkdir -p data
 
 # Notify orchastrator that you exists.
-WORKER_ID=$( { curl "$ORCHASTRATOR/giveip/server" 2> /dev/null; } )
+until WORKER_ID=$( { curl "$ORCHASTRATOR/giveip/server" 2> /dev/null; } )
+do
+  sleep 5
+done
 
 echo "I am a server with worker_id ${WORKER_ID}"
 
@@ -16,8 +19,8 @@ do
   echo "Waiting for new job!"
 
   # Try to sign up to the next computation.
-  response=$( { curl "$ORCHASTRATOR/ping/${WORKER_ID}" 2> /dev/null; } )
-  if [ "$response" = "WAIT" ]
+  if ! response=$( { curl "$ORCHASTRATOR/ping/${WORKER_ID}" 2> /dev/null; } ) ||
+     [ "$response" = "WAIT" ]
   then
     sleep 5
     continue
@@ -42,12 +45,11 @@ do
     # Read configurations.
     echo "Reading config ..."
     config="config/party-${party_id}-${server_id}.txt"
-    curl "$ORCHASTRATOR/config/${WORKER_ID}" > $config 2> /dev/null
-    while [[ $(cat ${config} 2> /dev/null) == "WAIT" ]]
+    until curl "$ORCHASTRATOR/config/${WORKER_ID}" > $config 2> /dev/null &&
+          [[ $(cat ${config} 2> /dev/null) != "WAIT" ]]
     do
       sleep 2
       echo "retry config..."
-      curl "$ORCHASTRATOR/config/${WORKER_ID}" > $config 2> /dev/null
     done
 
     # Run binary.
@@ -98,5 +100,8 @@ do
 
   # Done, send log file to orchastrator which includes the time taken.
   echo "Uploading result to orchastrator..."
-  curl -H 'Content-Type: text/plain' -X POST --data-binary @${outfile} "$ORCHASTRATOR/done/${WORKER_ID}"
+  until curl -H 'Content-Type: text/plain' -X POST --data-binary @${outfile} "$ORCHASTRATOR/done/${WORKER_ID}"
+  do
+    sleep 5
+  done
 done
-- 
2.43.0


From 0c337010f30951d53dbdc4dbc46e5e5c1cd6fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:03 +0000
Subject: [PATCH 14/21] fix: a truncated configuration file is read past its
 end

---
 DPPIR/config/config.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/config/config.cc b/DPPIR/config/config.cc
index ba25b3d..8ff48f5 100644
--- a/DPPIR/config/config.cc
+++ b/DPPIR/config/config.cc
@@ -17,12 +17,14 @@ inline std::string Double2Bin(double v) {
 }
 // Read.
 inline int Bin2Int(const char** data, size_t* n) {
+  assert(*n >= sizeof(int));
   int v = *reinterpret_cast<const int*>(*data);
   *data += sizeof(int);
   *n -= sizeof(int);
   return v;
 }
 inline double Bin2Double(const char** data, size_t* n) {
+  assert(*n >= sizeof(double));
   double v = *reinterpret_cast<const double*>(*data);
   *data += sizeof(double);
   *n -= sizeof(double);
-- 
2.43.0


From 8be2970cfcd4eae6ebdfb6f36b4bab1dbf3ccdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:03 +0000
Subject: [PATCH 15/21] fix: an address that is no IPv4 address is connected to
 unset

---
 DPPIR/sockets/common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/sockets/common.cc b/DPPIR/sockets/common.cc
index 03079cb..667b762 100644
--- a/DPPIR/sockets/common.cc
+++ b/DPPIR/sockets/common.cc
@@ -55,7 +55,7 @@ int ConnectTo(const char* ip, int port) {
   struct sockaddr_in servaddr;
   servaddr.sin_family = AF_INET;  // IPv4
   servaddr.sin_port = htons(port);
-  assert(inet_pton(AF_INET, ip, &servaddr.sin_addr) >= 0);
+  assert(inet_pton(AF_INET, ip, &servaddr.sin_addr) == 1);
 
   // Connect to the server.
   while (connect(sockfd, reinterpret_cast<sockaddr*>(&servaddr),
-- 
2.43.0


From affada705d9b4252fdc0180ee62fa62da6e1d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 16/21] fix: a small delta silently switches the noise off

---
 DPPIR/noise/noise.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index af12ba0..258e838 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -22,7 +22,7 @@ double Laplace(double mean, double span) {
 // Returns the x such that Prob[lap(mean, span) <= x] = prob.
 double InvCDF(double mean, double span, double prob) {
   int sign = (prob > 0.5) ? -1 : 1;
-  return mean - sign * span * std::log(1 - 2 * std::abs(prob - 0.5));
+  return mean - sign * span * std::log(2 * std::min(prob, 1 - prob));
 }
 
 }  // namespace
-- 
2.43.0


From c28f7c16418d96605594f2e00fa25f4da9a11abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 17/21] fix: privacy parameters whose noise cannot be
 represented run with other noise

---
 DPPIR/noise/noise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 258e838..1a6bb68 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <random>
 
 namespace DPPIR {
@@ -55,8 +56,8 @@ NoiseDistribution::NoiseDistribution(double epsilon, double delta) {
     std::cout << "Noise cutoff: " << this->cutoff_ << std::endl;
   }
   // Noise domain must fit inside sample_t.
-  index_t max = std::floor(2 * this->cutoff_);
-  if (max != static_cast<sample_t>(max)) {
+  double max = std::floor(2 * this->cutoff_);
+  if (!(max >= 0 && max <= std::numeric_limits<sample_t>::max())) {
     std::cout << "sample_t too small to fit noise, max = " << max << std::endl;
     assert(false);
   }
-- 
2.43.0


From 72c11b5c1bdf0f6bec6573f973bb98700bc40b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 18/21] fix: more noise queries than can be counted corrupt the
 party's memory

---
 DPPIR/protocol/parallel_party/parallel_party_initialization.cc | 1 +
 DPPIR/protocol/party/party_initialization.cc                   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/DPPIR/protocol/parallel_party/parallel_party_initialization.cc b/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
index cbc6e5f..d2398e0 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
@@ -95,6 +95,7 @@ void ParallelParty::InitializeNoiseSamples() {
     sample_t sample = this->distribution_.Sample();
     this->noise_.PushBack(sample);
     this->noise_count_ += sample;
+    assert(this->noise_count_ >= sample);  // Must fit inside index_t.
   }
 }
 
diff --git a/DPPIR/protocol/party/party_initialization.cc b/DPPIR/protocol/party/party_initialization.cc
index cf30861..4a0978d 100644
--- a/DPPIR/protocol/party/party_initialization.cc
+++ b/DPPIR/protocol/party/party_initialization.cc
@@ -73,6 +73,7 @@ void Party::InitializeNoiseSamples() {
     sample_t sample = this->distribution_.Sample();
     this->noise_.PushBack(sample);
     this->noise_count_ += sample;
+    assert(this->noise_count_ >= sample);  // Must fit inside index_t.
   }
 }
 
-- 
2.43.0


From d6a0693048c4371c38c8974bf7f419caaedcd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 19/21] fix: gen_config wrote a different configuration for
 missing, unreadable or too large parameters

Typed answers that are missing or no numbers were taken as zeros, and counts
of parties or servers above 255 were silently reduced modulo 256; either way
success was reported. Both are refused now.
---
 DPPIR/config/gen_config.cc | 42 +++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index b2d648c..bb0dae1 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <string>
 
 #include "DPPIR/config/config.h"
@@ -8,35 +9,52 @@
 namespace DPPIR {
 namespace config {
 
+namespace {
+
+// Reads the next value the user typed.
+template <typename T>
+T Input() {
+  T value;
+  std::cin >> value;
+  assert(std::cin);
+  return value;
+}
+
+// Counts of parties and servers must be representable.
+template <typename T>
+T CheckCount(int count) {
+  assert(count >= 0 && count <= std::numeric_limits<T>::max());
+  return count;
+}
+
+}  // namespace
+
 Config Interactive() {
   Config config;
 
   // Database config.
   std::cout << "Enter database size: ";
-  std::cin >> config.db_size;
+  config.db_size = Input<index_t>();
 
   // DP parameters.
   std::cout << "Enter epsilon and delta: ";
-  std::cin >> config.epsilon;
-  std::cin >> config.delta;
+  config.epsilon = Input<double>();
+  config.delta = Input<double>();
 
   // Parties and servers.
   std::cout << "Enter number of parties and servers per party: ";
-  int party_count, server_count;
-  std::cin >> party_count;
-  std::cin >> server_count;
+  config.party_count = CheckCount<party_id_t>(Input<int>());
+  config.server_count = CheckCount<server_id_t>(Input<int>());
 
   std::string dummy;
   std::getline(std::cin, dummy);
 
-  config.party_count = party_count;
-  config.server_count = server_count;
-  config.parties = std::vector<PartyConfig>(party_count);
+  config.parties = std::vector<PartyConfig>(config.party_count);
   for (party_id_t i = 0; i < config.party_count; i++) {
     // One party at a time.
     PartyConfig& party = config.parties.at(i);
     party.shared_seed = i + 1000;
-    party.servers = std::vector<ServerConfig>(server_count);
+    party.servers = std::vector<ServerConfig>(config.server_count);
     for (server_id_t j = 0; j < config.server_count; j++) {
       std::cout << "Party " << int(i) << " - Server " << int(j) << std::endl;
       // One server at a time.
@@ -67,8 +85,8 @@ Config FromArgs(int argc, char** argv) {
   config.epsilon = std::stod(argv[2]);
   config.delta = std::stod(argv[3]);
   // Parties and servers.
-  config.party_count = std::stoi(argv[4]);
-  config.server_count = std::stoi(argv[5]);
+  config.party_count = CheckCount<party_id_t>(std::stoi(argv[4]));
+  config.server_count = CheckCount<server_id_t>(std::stoi(argv[5]));
   config.parties = std::vector<PartyConfig>(config.party_count);
   // Party/server details.
   int args = 6 + (config.party_count * config.server_count);
-- 
2.43.0


From 423404295df9e0d65642acc191dc2806adc40b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 20/21] fix: a client asked for 2^32 queries or more made fewer
 and reported success

--queries is a 64 bit number but the protocol counts with index_t; larger
numbers were reduced modulo 2^32. They are refused now.
---
 DPPIR/main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index a4999bb..60fc459 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -1,6 +1,7 @@
 #include <cassert>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <string>
 
 #include "DPPIR/config/config.h"
@@ -69,6 +70,10 @@ int main(int argc, char** argv) {
     std::cout << "--queries is required for clients" << std::endl;
     return 1;
   }
+  if (queries > std::numeric_limits<DPPIR::index_t>::max()) {
+    std::cout << "--queries is too large" << std::endl;
+    return 1;
+  }
   if (server_id < 0) {
     std::cout << "--server_id is required" << std::endl;
     return 1;
-- 
2.43.0


From e2672914f5e37ad08202d72a307237aff40361f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 21/21] fix: the first two servers shuffled alike, as seeds 0
 and 1 of srand are the same

---
 DPPIR/config/gen_config.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index bb0dae1..486769b 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -59,7 +59,8 @@ Config Interactive() {
       std::cout << "Party " << int(i) << " - Server " << int(j) << std::endl;
       // One server at a time.
       ServerConfig& server = party.servers.at(j);
-      server.local_seed = i * config.server_count + j;
+      // From 1: srand(0) and srand(1) are the same.
+      server.local_seed = 1 + i * config.server_count + j;
       server.port = 3000 + (i * config.server_count + j);
       server.parallel_port = 4000 + (i * config.server_count + j);
       // IP.
@@ -99,7 +100,8 @@ Config FromArgs(int argc, char** argv) {
     for (server_id_t j = 0; j < config.server_count; j++) {
       // One server at a time.
       ServerConfig& server = party.servers.at(j);
-      server.local_seed = i * config.server_count + j;
+      // From 1: srand(0) and srand(1) are the same.
+      server.local_seed = 1 + i * config.server_count + j;
       // Port.
       server.port = 3000 + (i * config.server_count + j);
       server.parallel_port = 4000 + (i * config.server_count + j);
-- 
2.43.0

