From 5117be71acdbb21cf832464cc21bdd3a32204e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 01/26] fix: bounds-check and align config deserialization

Bin2Int/Bin2Double read past the end of a truncated config (and performed
misaligned loads, undefined behaviour) before the final size assertion.
---
 DPPIR/config/config.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/config.cc b/DPPIR/config/config.cc
index db0ebae..a1b1e9a 100644
--- a/DPPIR/config/config.cc
+++ b/DPPIR/config/config.cc
@@ -1,6 +1,7 @@
 #include "DPPIR/config/config.h"
 
 #include <cassert>
+#include <cstring>
 #include <fstream>
 
 namespace DPPIR {
@@ -17,13 +18,17 @@ inline std::string Double2Bin(double v) {
 }
 // Read.
 inline int Bin2Int(const char** data, size_t* n) {
-  int v = *reinterpret_cast<const int*>(*data);
+  assert(*n >= sizeof(int));
+  int v;
+  std::memcpy(&v, *data, sizeof(int));
   *data += sizeof(int);
   *n -= sizeof(int);
   return v;
 }
 inline double Bin2Double(const char** data, size_t* n) {
-  double v = *reinterpret_cast<const double*>(*data);
+  assert(*n >= sizeof(double));
+  double v;
+  std::memcpy(&v, *data, sizeof(double));
   *data += sizeof(double);
   *n -= sizeof(double);
   return v;
-- 
2.43.0


From 859b0115678c02d7df9452a097cfbb76d572e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:43 +0000
Subject: [PATCH 02/26] fix: client tags collide when clients make different
 numbers of queries

server_id * queries_count + id is only injective when every client makes the
same number of queries; a collision aborts the parties (or the tag of a client
equals the tag of a noise query).
---
 DPPIR/protocol/client/client_handlers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/protocol/client/client_handlers.cc b/DPPIR/protocol/client/client_handlers.cc
index 7e8d03d..2b1f3e4 100644
--- a/DPPIR/protocol/client/client_handlers.cc
+++ b/DPPIR/protocol/client/client_handlers.cc
@@ -14,7 +14,7 @@ tag_t Client::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
   // TODO(babman): sample this tag uniformly at random.
-  return this->server_id_ * this->queries_count_ + id;
+  return (static_cast<tag_t>(this->server_id_) << 32) | id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From 85425917a0acacee67d52c449c07eacd021c3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:43 +0000
Subject: [PATCH 03/26] fix: noise tags of parallel parties collide with
 sampled noise

The tag offset assumed that every row receives the same amount of noise, which
does not hold with DPPIR_SAMPLE: tags of sibling servers then overlap and the
party aborts while installing secrets.
---
 .../parallel_party/parallel_party_handlers.cc        | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
index dc40fe6..85b75d4 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
@@ -7,20 +7,14 @@
 namespace DPPIR {
 namespace protocol {
 
-static int64_t NOISE_OFFSET = -1;
-
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
 tag_t ParallelParty::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
-  if (NOISE_OFFSET == -1) {
-    index_t range = this->noise_end_ - this->noise_start_;
-    index_t noise_per_row = this->noise_count_ / range;
-    index_t total_noise = noise_per_row * this->db_.Size();
-    NOISE_OFFSET = total_noise - (this->noise_start_ * noise_per_row);
-  }
+  // Disjoint from the tags of clients, other parties, and sibling servers.
   // TODO(babman): sample the tag uniformly at random.
-  return this->total_batch_size_ - NOISE_OFFSET + id;
+  return (static_cast<tag_t>(this->party_id_ + 1) << 40) |
+         (static_cast<tag_t>(this->server_id_) << 32) | id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From 82a45fb93e9e97707e10e95816c6f6f32ea401ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 04/26] fix: noise ranges of parallel servers exceed the
 database

With ceil(D/S) rows per server, ranges could start or end past the last row
(e.g. 5 rows over 4 servers), creating out of range or huge noise ranges.
---
 DPPIR/noise/noise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 08bf1d3..8f35d2a 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -1,5 +1,6 @@
 #include "DPPIR/noise/noise.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdlib>
@@ -34,8 +35,8 @@ std::pair<key_t, key_t> FindRange(server_id_t server_id,
                                   server_id_t servers_count, index_t db_size) {
   assert(db_size >= servers_count);
   index_t range_size = std::ceil(1.0 * db_size / servers_count);
-  key_t range_start = server_id * range_size;
-  key_t range_end = range_start + range_size;
+  key_t range_start = std::min(server_id * range_size, db_size);
+  key_t range_end = std::min(range_start + range_size, db_size);
   if (server_id == servers_count - 1) {
     range_end = db_size;
   }
-- 
2.43.0


From f2dcdcf08bd0d442466e84d4e12d7839fc9ce3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 05/26] fix: shuffles only reach a small part of all
 permutations

rand() yields 31 bits, so scaling it by 2^-32 only ever produced indices in the
lower half of the range: no element could be swapped with the upper half.
---
 DPPIR/shuffle/util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DPPIR/shuffle/util.cc b/DPPIR/shuffle/util.cc
index ebb97a8..28e2794 100644
--- a/DPPIR/shuffle/util.cc
+++ b/DPPIR/shuffle/util.cc
@@ -9,9 +9,9 @@ void seed(int s) { srand(s); }
 // https://lemire.me/blog/2016/06/30/fast-random-shuffling/
 uint32_t random_bounded(uint32_t range) {
   // NOLINTNEXTLINE
-  uint64_t random32bit = static_cast<uint32_t>(rand());  // 32-bit random number
-  uint64_t multiresult = random32bit * range;
-  return multiresult >> 32;
+  uint64_t random31bit = static_cast<uint32_t>(rand());  // in [0, RAND_MAX]
+  uint64_t multiresult = random31bit * range;
+  return multiresult / (static_cast<uint64_t>(RAND_MAX) + 1);
 }
 
 }  // namespace util
-- 
2.43.0


From 106596ecf2f0c9619a91adfb0870ab69c3856544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 06/26] fix: a closed connection makes the reader spin forever

read() returning 0 was treated as progress.
---
 DPPIR/sockets/common.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/sockets/common.cc b/DPPIR/sockets/common.cc
index badc8b8..ca4a981 100644
--- a/DPPIR/sockets/common.cc
+++ b/DPPIR/sockets/common.cc
@@ -120,6 +120,7 @@ void Read(int fd, char* buf, size_t buf_size) {
   while (bytes < buf_size) {
     auto status = read(fd, buf + bytes, buf_size - bytes);
     MY_ASSERT(status);
+    assert(status > 0);  // 0: the peer closed the connection.
     bytes += status;
   }
 }
@@ -127,6 +128,7 @@ void Read(int fd, char* buf, size_t buf_size) {
 size_t ReadSome(int fd, char* buf, size_t buf_size) {
   auto status = read(fd, buf, buf_size);
   MY_ASSERT(status);
+  assert(status > 0 || buf_size == 0);  // 0: the peer closed the connection.
   return status;
 }
 
-- 
2.43.0


From f9e723b58f9e025b557da7b9b76cc09c13dae219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:20 +0000
Subject: [PATCH 07/26] fix: queries with an unknown tag or row read out of
 bounds

A party dereferenced the end iterator for a tag it has no secret for, and the
backend indexed the database with any reconstructed key, so hostile or corrupt
queries read arbitrary memory (and leaked it in responses).
---
 DPPIR/types/database.cc | 7 ++++++-
 DPPIR/types/state.cc    | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/DPPIR/types/database.cc b/DPPIR/types/database.cc
index d3c8afa..311a214 100644
--- a/DPPIR/types/database.cc
+++ b/DPPIR/types/database.cc
@@ -1,5 +1,7 @@
 #include "DPPIR/types/database.h"
 
+#include <cassert>
+
 // NOLINTNEXTLINE
 #include "sodium.h"
 
@@ -15,6 +17,9 @@ Database::Database(index_t rows) : size_(rows) {
 
 key_t Database::RandomRow() const { return randombytes_uniform(this->size_); }
 
-const Response& Database::Lookup(key_t key) const { return this->db_[key]; }
+const Response& Database::Lookup(key_t key) const {
+  assert(key < this->size_);
+  return this->db_[key];
+}
 
 }  // namespace DPPIR
diff --git a/DPPIR/types/state.cc b/DPPIR/types/state.cc
index 0af3837..dcf6ba2 100644
--- a/DPPIR/types/state.cc
+++ b/DPPIR/types/state.cc
@@ -124,6 +124,7 @@ void PartyState::LoadSecret(const tag_t& tag) {
   } else {
     this->it_ = this->secrets_.find(tag);
   }
+  assert(this->it_ != this->secrets_.end());
 }
 const tag_t& PartyState::GetNextTag() { return this->it_->second.next_tag; }
 const incremental_share_t& PartyState::GetIncremental() {
@@ -169,6 +170,7 @@ void BackendState::LoadSecret(const tag_t& tag) {
   } else {
     this->it_ = this->secrets_.find(tag);
   }
+  assert(this->it_ != this->secrets_.end());
 }
 const incremental_share_t& BackendState::GetIncremental() {
   return this->it_->second.incremental;
-- 
2.43.0


From e40f44e164ae6d785c85c1a84c04a69ebcb2ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:20 +0000
Subject: [PATCH 08/26] fix: reject malformed ip addresses instead of
 connecting to garbage

inet_pton() returns 0 for a malformed address, leaving sin_addr uninitialized.
---
 DPPIR/sockets/common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/sockets/common.cc b/DPPIR/sockets/common.cc
index ca4a981..1650d6f 100644
--- a/DPPIR/sockets/common.cc
+++ b/DPPIR/sockets/common.cc
@@ -55,7 +55,7 @@ int ConnectTo(const char* ip, int port) {
   struct sockaddr_in servaddr;
   servaddr.sin_family = AF_INET;  // IPv4
   servaddr.sin_port = htons(port);
-  assert(inet_pton(AF_INET, ip, &servaddr.sin_addr) >= 0);
+  assert(inet_pton(AF_INET, ip, &servaddr.sin_addr) == 1);
 
   // Connect to the server.
   while (connect(sockfd, reinterpret_cast<sockaddr*>(&servaddr),
-- 
2.43.0


From aed07de0f07931e7a682ea29411efe7536355526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:20 +0000
Subject: [PATCH 09/26] fix: detect noise that does not fit in sample_t

The check converted to index_t (= sample_t) first, so it could never fail and
the out of range conversion is undefined.
---
 DPPIR/noise/noise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 8f35d2a..50b0253 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <random>
 
 namespace DPPIR {
@@ -57,8 +58,8 @@ NoiseDistribution::NoiseDistribution(double epsilon, double delta) {
     std::cout << "Noise cutoff: " << this->cutoff_ << std::endl;
   }
   // Noise domain must fit inside sample_t.
-  index_t max = std::floor(2 * this->cutoff_);
-  if (max != static_cast<sample_t>(max)) {
+  double max = std::floor(2 * this->cutoff_);
+  if (max > std::numeric_limits<sample_t>::max()) {
     std::cout << "sample_t too small to fit noise, max = " << max << std::endl;
     assert(false);
   }
-- 
2.43.0


From cb35efd9db04487122465bbefd1cc41e09e62af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:56 +0000
Subject: [PATCH 10/26] fix: sampled noise is identical on every server and run

RandUniform() uses rand(), which nothing seeds before noise is sampled, so
every server drew the same publicly known noise (DPPIR_SAMPLE).
---
 DPPIR/noise/noise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 50b0253..21e7a36 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -46,6 +46,8 @@ std::pair<key_t, key_t> FindRange(server_id_t server_id,
 
 // NoiseDistribution.
 NoiseDistribution::NoiseDistribution(double epsilon, double delta) {
+  // Noise must be unpredictable and independent between servers and runs.
+  std::srand(randombytes_random());
   if (epsilon == 0 || delta == 0) {
     this->debug_ = true;
     this->span_ = 0;
-- 
2.43.0


From 21cff2dd678d21c311ac3998964afb7b33a62579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:41 +0000
Subject: [PATCH 11/26] fix: killing a finished experiment kills its workers'
 current job

A worker that finished an experiment and was given another one was marked
to be killed when the first experiment was killed (or, for checklist, when
its client finished).
---
 experiments/orchestrator/experiment.js   | 2 +-
 experiments/orchestrator/orchestrator.js | 4 ++--
 experiments/orchestrator/worker.js       | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/experiments/orchestrator/experiment.js b/experiments/orchestrator/experiment.js
index 5d44453..c4d0241 100644
--- a/experiments/orchestrator/experiment.js
+++ b/experiments/orchestrator/experiment.js
@@ -55,7 +55,7 @@ AbstractExperiment.prototype.finished = function (worker) {
         this.status = Status.EXPERIMENT_CLEANUP;
         console.log("Experiment " + this.id + " is cleaning up!");
         for (const server of this.servers) {
-          server.kill();
+          server.kill(this);
         }
       }
       if (this.serversNum == 0 || this.finishedServers == this.serversNum) {
diff --git a/experiments/orchestrator/orchestrator.js b/experiments/orchestrator/orchestrator.js
index 26a7b9f..0a4cf5d 100644
--- a/experiments/orchestrator/orchestrator.js
+++ b/experiments/orchestrator/orchestrator.js
@@ -77,10 +77,10 @@ Orchestrator.prototype.kill = function (experimentId) {
   for (const experiment of this.experiments) {
     if (experiment.id == experimentId) {
       for (const worker of experiment.clients) {
-        worker.kill();
+        worker.kill(experiment);
       }
       for (const worker of experiment.servers) {
-        worker.kill();
+        worker.kill(experiment);
       }
       return;
     }
diff --git a/experiments/orchestrator/worker.js b/experiments/orchestrator/worker.js
index d3724ae..3c59bac 100644
--- a/experiments/orchestrator/worker.js
+++ b/experiments/orchestrator/worker.js
@@ -36,8 +36,9 @@ Worker.prototype.assignExperiment = function (experiment) {
   this.status = Status.WORKER_WORKING;
   this.experiment = experiment;
 };
-Worker.prototype.kill = function () {
-  if (this.status == Status.WORKER_WORKING) {
+// The worker may have finished this experiment and moved on to another one.
+Worker.prototype.kill = function (experiment) {
+  if (this.status == Status.WORKER_WORKING && this.experiment === experiment) {
     console.log("Worker", this.id, "marked to kill");
     this.status = Status.WORKER_CLEANUP;
   }
-- 
2.43.0


From d66cdbd4c45da26b73b298025f63f5e4f85d2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:40 +0000
Subject: [PATCH 12/26] fix: detect message counts that do not fit instead of
 wrapping around

Counts sent by the previous party or by sibling servers, and the total amount of
noise, could wrap around index_t; batches were then sized too small and written
past their end (or the announced count was wrong). A sibling could also claim
more noise than messages.
---
 .../parallel_party/parallel_party_initialization.cc        | 7 +++++++
 DPPIR/protocol/party/party_initialization.cc               | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/DPPIR/protocol/parallel_party/parallel_party_initialization.cc b/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
index cbc6e5f..59f7473 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
@@ -95,6 +95,7 @@ void ParallelParty::InitializeNoiseSamples() {
     sample_t sample = this->distribution_.Sample();
     this->noise_.PushBack(sample);
     this->noise_count_ += sample;
+    assert(this->noise_count_ >= sample);  // Must fit in index_t.
   }
 }
 
@@ -105,6 +106,8 @@ void ParallelParty::InitializeNoiseSamples() {
 void ParallelParty::InitializeCounts() {
   // Read the count of incoming queries from previous party.
   this->input_count_ = this->back_.ReadCount();
+  // Must fit in index_t.
+  assert(this->noise_count_ + this->input_count_ >= this->noise_count_);
 
   // Broadcast incoming query count to all parallel servers.
   this->siblings_.BroadcastCount(this->noise_count_ + this->input_count_);
@@ -118,6 +121,8 @@ void ParallelParty::InitializeCounts() {
       this->at_sibling_counts_[id] = this->noise_count_ + this->input_count_;
     }
     this->total_batch_size_ += this->at_sibling_counts_[id];
+    // Must fit in index_t.
+    assert(this->total_batch_size_ >= this->at_sibling_counts_[id]);
   }
 
   // We can compute final count after shuffling sent out from this server, since
@@ -162,6 +167,8 @@ void ParallelParty::InitializeShufflers() {
       this->noise_from_sibling_counts_[id] =
           this->pshuffler_.CountNoiseToServer(id);
     }
+    assert(this->noise_from_sibling_counts_[id] <=
+           this->pshuffler_.CountFromServer(id));
     noise_from_siblings_total += this->noise_from_sibling_counts_[id];
     this->noise_from_sibling_prefixsum_[id] = noise_from_siblings_total;
   }
diff --git a/DPPIR/protocol/party/party_initialization.cc b/DPPIR/protocol/party/party_initialization.cc
index cf30861..4b8ef6a 100644
--- a/DPPIR/protocol/party/party_initialization.cc
+++ b/DPPIR/protocol/party/party_initialization.cc
@@ -73,6 +73,7 @@ void Party::InitializeNoiseSamples() {
     sample_t sample = this->distribution_.Sample();
     this->noise_.PushBack(sample);
     this->noise_count_ += sample;
+    assert(this->noise_count_ >= sample);  // Must fit in index_t.
   }
 }
 
@@ -80,6 +81,7 @@ void Party::InitializeCounts() {
   // Read the count of incoming queries from previous party.
   this->input_count_ = this->back_.ReadCount();
   this->shuffled_count_ = this->input_count_ + this->noise_count_;
+  assert(this->shuffled_count_ >= this->noise_count_);  // Must fit in index_t.
 
   // Send output count to next party.
   this->next_.SendCount(this->shuffled_count_);
-- 
2.43.0


From fa78e07c271f6ae9adef90319deedba5149605d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 13/26] fix: refuse Checklist logs whose two server times
 cannot be read

The plotting script drew -100000 seconds (or the time of only one server) when
a log lacked the times or reported them in hours.
---
 experiments/plots/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/experiments/plots/plot.py b/experiments/plots/plot.py
index 87a53ab..95b5031 100644
--- a/experiments/plots/plot.py
+++ b/experiments/plots/plot.py
@@ -143,7 +143,9 @@ class Series:
 
     if self.protocol == 'Checklist':
       y = -100000
-      for m, t, u in re.findall(CHECKLIST_REGEX, data):
+      matches = re.findall(CHECKLIST_REGEX, data)
+      assert len(matches) == 2, 'Bad regex Checklist {}/{}'.format(dirname, filename)
+      for m, t, u in matches:
         if len(m) > 0:
           m = int(m[:-1]) * 60
         else:
@@ -267,7 +269,9 @@ class ExtrapolateData:
 
     if self.protocol == 'Checklist':
       y = -100000
-      for m, t, u in re.findall(CHECKLIST_REGEX, data):
+      matches = re.findall(CHECKLIST_REGEX, data)
+      assert len(matches) == 2, 'Bad regex Checklist {}/{}'.format(dirname, filename)
+      for m, t, u in matches:
         if len(m) > 0:
           m = int(m[:-1]) * 60
         else:
-- 
2.43.0


From 45aa05d074494f94dd95da2de25a2cdb92d9e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 14/26] fix: store the 100-query experiments figure 6 needs

Loading figure6 and plotting it as the README says failed with 'Missing value
for 100'.
---
 experiments/orchestrator/stored/figure6.json | 22 ++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/experiments/orchestrator/stored/figure6.json b/experiments/orchestrator/stored/figure6.json
index 7aee87f..31ef687 100644
--- a/experiments/orchestrator/stored/figure6.json
+++ b/experiments/orchestrator/stored/figure6.json
@@ -1,4 +1,17 @@
 [
+  {
+    "name_": "figure6-100000-2-1-100-0.1-0.000001",
+    "experimentType": "dppir",
+    "clientsNum": 1,
+    "serversNum": 2,
+    "mode": "online",
+    "parties": 2,
+    "parallelism": 1,
+    "epsilon": 0.1,
+    "delta": 0.000001,
+    "queries": 100,
+    "tableSize": 100000
+  },
   {
     "name_": "figure6-100000-2-1-1000-0.1-0.000001",
     "experimentType": "dppir",
@@ -77,6 +90,15 @@
     "queries": 100000000,
     "tableSize": 100000
   },
+  {
+    "name_": "figure6-100000-100",
+    "experimentType": "checklist",
+    "clientsNum": 1,
+    "serversNum": 2,
+    "pirtype": "DPF",
+    "queries": 100,
+    "tableSize": 100000
+  },
   {
     "name_": "figure6-100000-1000",
     "experimentType": "checklist",
-- 
2.43.0


From ee98241fe31eddf9fc50c1c6794aa4b018b220cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:39 +0000
Subject: [PATCH 15/26] fix: refuse privacy parameters whose noise amount is
 negative or undefined

A negative epsilon, a delta above 1 or a NaN gives a negative or undefined noise
amount, whose conversion to sample_t is undefined: the party adds billions of
queries, or silently none.
---
 DPPIR/noise/noise.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 21e7a36..d386d05 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -61,8 +61,8 @@ NoiseDistribution::NoiseDistribution(double epsilon, double delta) {
   }
   // Noise domain must fit inside sample_t.
   double max = std::floor(2 * this->cutoff_);
-  if (max > std::numeric_limits<sample_t>::max()) {
-    std::cout << "sample_t too small to fit noise, max = " << max << std::endl;
+  if (!(max >= 0 && max <= std::numeric_limits<sample_t>::max())) {
+    std::cout << "sample_t cannot fit noise, max = " << max << std::endl;
     assert(false);
   }
 }
-- 
2.43.0


From 17eb71c4baa0e994b8550a161abe8bc6d5b1dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:37 +0000
Subject: [PATCH 16/26] fix: gen_config refuses party and server counts that do
 not fit

Counts beyond 255 were silently reduced modulo 256, so that the file described
another deployment than the one asked for.
---
 DPPIR/config/gen_config.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index b2d648c..6a6a11a 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -31,6 +31,9 @@ Config Interactive() {
 
   config.party_count = party_count;
   config.server_count = server_count;
+  // Counts must fit in party_id_t and server_id_t.
+  assert(config.party_count == party_count);
+  assert(config.server_count == server_count);
   config.parties = std::vector<PartyConfig>(party_count);
   for (party_id_t i = 0; i < config.party_count; i++) {
     // One party at a time.
@@ -67,8 +70,13 @@ Config FromArgs(int argc, char** argv) {
   config.epsilon = std::stod(argv[2]);
   config.delta = std::stod(argv[3]);
   // Parties and servers.
-  config.party_count = std::stoi(argv[4]);
-  config.server_count = std::stoi(argv[5]);
+  int party_count = std::stoi(argv[4]);
+  int server_count = std::stoi(argv[5]);
+  config.party_count = party_count;
+  config.server_count = server_count;
+  // Counts must fit in party_id_t and server_id_t.
+  assert(config.party_count == party_count);
+  assert(config.server_count == server_count);
   config.parties = std::vector<PartyConfig>(config.party_count);
   // Party/server details.
   int args = 6 + (config.party_count * config.server_count);
-- 
2.43.0


From f271fb5f10935c966b815c94a7317620469ef784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:54 +0000
Subject: [PATCH 17/26] fix: gen_config ports collide with more than 1000
 servers

From 1001 servers on, the ports of later servers were the parallel ports of
earlier ones, so the deployment could not run on one machine.
---
 DPPIR/config/gen_config.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index 6a6a11a..1db9250 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -8,6 +8,20 @@
 namespace DPPIR {
 namespace config {
 
+namespace {
+
+// Ports: [3000, 3000 + servers) between parties, followed by as many parallel
+// ports (from 4000 on unless there are more than 1000 servers).
+void AssignPorts(const Config& config, int idx, ServerConfig* server) {
+  int servers = config.party_count * config.server_count;
+  int parallel_start = servers > 1000 ? 3000 + servers : 4000;
+  assert(parallel_start + servers <= 65536);
+  server->port = 3000 + idx;
+  server->parallel_port = parallel_start + idx;
+}
+
+}  // namespace
+
 Config Interactive() {
   Config config;
 
@@ -45,8 +59,7 @@ Config Interactive() {
       // One server at a time.
       ServerConfig& server = party.servers.at(j);
       server.local_seed = i * config.server_count + j;
-      server.port = 3000 + (i * config.server_count + j);
-      server.parallel_port = 4000 + (i * config.server_count + j);
+      AssignPorts(config, i * config.server_count + j, &server);
       // IP.
       std::cout << "Enter ip (empty for 127.0.0.1): ";
       std::getline(std::cin, server.ip);
@@ -91,8 +104,7 @@ Config FromArgs(int argc, char** argv) {
       ServerConfig& server = party.servers.at(j);
       server.local_seed = i * config.server_count + j;
       // Port.
-      server.port = 3000 + (i * config.server_count + j);
-      server.parallel_port = 4000 + (i * config.server_count + j);
+      AssignPorts(config, i * config.server_count + j, &server);
       // IP.
       if (argc == 6) {
         server.ip = "127.0.0.1";
-- 
2.43.0


From 5abd2ad938e3254960ebea4cf252bd054d44b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 18/26] fix: refuse query counts that do not fit instead of
 making fewer queries

--queries is a 64 bit number but the protocol counts in 32 bits:
--queries=4294967297 made a single query and reported success.
---
 DPPIR/main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index b62748d..ea27b73 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
     std::cout << "--queries is required for clients" << std::endl;
     return 1;
   }
+  if (role == "client" && queries != static_cast<DPPIR::index_t>(queries)) {
+    std::cout << "--queries is too large" << std::endl;
+    return 1;
+  }
   if (server_id < 0) {
     std::cout << "--server_id is required" << std::endl;
     return 1;
-- 
2.43.0


From 853eda0494bffa12dee79de77124f18111b15975 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:00:07 +0000
Subject: [PATCH 19/26] fix: parties with 255 servers abort at start

ServersMap is created for server_count + 1 servers, which wraps around to 0.
---
 DPPIR/types/containers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DPPIR/types/containers.h b/DPPIR/types/containers.h
index b9a6509..858e26c 100644
--- a/DPPIR/types/containers.h
+++ b/DPPIR/types/containers.h
@@ -16,16 +16,16 @@ template <typename T>
 class ServersMap {
  public:
   // Fill with default constructor.
-  ServersMap(server_id_t server_id, server_id_t server_count)
+  ServersMap(server_id_t server_id, size_t server_count)
       : server_id_(server_id), data_(std::make_unique<T[]>(server_count - 1)) {}
 
   // Fill with copy constructor.
-  ServersMap(server_id_t server_id, server_id_t server_count, T fill)
+  ServersMap(server_id_t server_id, size_t server_count, T fill)
       : ServersMap(server_id, server_count) {
-    for (server_id_t i = 0; i < server_id; i++) {
+    for (size_t i = 0; i < server_id; i++) {
       this->data_[i] = fill;
     }
-    for (server_id_t i = server_id + 1; i < server_count; i++) {
+    for (size_t i = server_id + 1; i < server_count; i++) {
       this->data_[i - 1] = fill;
     }
   }
-- 
2.43.0


From 4b01431b81baf40f24d44a258896de3d9a74d26f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:00:07 +0000
Subject: [PATCH 20/26] fix: asking for the log of an unknown worker ends the
 orchestrator

---
 experiments/orchestrator/cmd.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experiments/orchestrator/cmd.js b/experiments/orchestrator/cmd.js
index 2bfa4b6..e7f3929 100644
--- a/experiments/orchestrator/cmd.js
+++ b/experiments/orchestrator/cmd.js
@@ -166,8 +166,10 @@ Cmd.prototype.Listen = function () {
     if (line.startsWith('log')) {
       const workerId = parseInt(line.split(' ')[1]);
       const worker = self.orchestrator.getWorkerById(workerId);
-      console.log('Waiting for log...');
-      await worker.askForLog();
+      if (worker != undefined) {
+        console.log('Waiting for log...');
+        await worker.askForLog();
+      }
     }
     if (line.startsWith('new')) {
       const experimentType = line.split(' ')[1];
-- 
2.43.0


From d374114d7e425b0f23d16702f21ab35c71a04418 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:00:08 +0000
Subject: [PATCH 21/26] fix: example.sh runs targets that no longer exist

---
 example.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/example.sh b/example.sh
index 20f9f1d..dfb0516 100755
--- a/example.sh
+++ b/example.sh
@@ -1,8 +1,8 @@
 #!/bin/bash
-bazel run //DPPIR/online:party -- config/example.txt 0 > party-0.log 2>&1 &
+bazel run --config=opt //DPPIR:main -- --config=config/example.txt --stage=all --role=party --party_id=0 --server_id=0 > party-0.log 2>&1 &
 sleep 1
 
-bazel run //DPPIR/online:backend -- config/example.txt > party-1.log 2>&1 &
+bazel run --config=opt //DPPIR:main -- --config=config/example.txt --stage=all --role=party --party_id=1 --server_id=0 > party-1.log 2>&1 &
 sleep 1
 
-bazel run //DPPIR/online:client -- config/example.txt $1
+bazel run --config=opt //DPPIR:main -- --config=config/example.txt --stage=all --role=client --server_id=0 --queries=$1
-- 
2.43.0


From 40c1e8553328ab6954108d703be0e0df3f32c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:43 +0000
Subject: [PATCH 22/26] fix: gen_config refuses table sizes that do not fit and
 unreadable numbers

A negative size turned into one of four billion rows, sizes above 2^31 could
not be given as an argument, and after an unreadable number in the dialog the
numbers of parties and servers were uninitialised.
---
 DPPIR/config/gen_config.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index 1db9250..21ceb4f 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -27,7 +27,8 @@ Config Interactive() {
 
   // Database config.
   std::cout << "Enter database size: ";
-  std::cin >> config.db_size;
+  int64_t db_size;
+  std::cin >> db_size;
 
   // DP parameters.
   std::cout << "Enter epsilon and delta: ";
@@ -39,6 +40,9 @@ Config Interactive() {
   int party_count, server_count;
   std::cin >> party_count;
   std::cin >> server_count;
+  assert(!std::cin.fail());
+  config.db_size = db_size;
+  assert(config.db_size == db_size);
 
   std::string dummy;
   std::getline(std::cin, dummy);
@@ -78,7 +82,9 @@ Config FromArgs(int argc, char** argv) {
   assert(argc >= 6);
   Config config;
   // Database config.
-  config.db_size = std::stoi(argv[1]);
+  int64_t db_size = std::stoll(argv[1]);
+  config.db_size = db_size;
+  assert(config.db_size == db_size);
   // DP parameters.
   config.epsilon = std::stod(argv[2]);
   config.delta = std::stod(argv[3]);
-- 
2.43.0


From 3178aaaaad21561fb2f01a46dd13fc91c5ac8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:39 +0000
Subject: [PATCH 23/26] fix: a request for the configuration of no job ends the
 orchestrator

The handler was async, so its errors (an unknown worker, e.g. one that waited
for its configuration while the orchestrator was restarted, or a worker without
an experiment) became unhandled rejections, which end the process, instead of
an error response as for all other routes. It awaits nothing.
---
 experiments/orchestrator/main.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/orchestrator/main.js b/experiments/orchestrator/main.js
index e9b3396..b20e30b 100644
--- a/experiments/orchestrator/main.js
+++ b/experiments/orchestrator/main.js
@@ -54,7 +54,7 @@ app.get('/table/:id', (req, res) => {
   res.send(orchestrator.getWorkerById(id).experiment.table);
 });
 */
-app.get('/config/:id', async function (req, res) {
+app.get('/config/:id', (req, res) => {
   const id = parseInt(req.params.id);
   const experiment = orchestrator.getWorkerById(id).experiment;
   if (experiment.serversNum != experiment.servers.length) {
-- 
2.43.0


From c50155f7817766f3b315e263b7a91210891744e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 24/26] fix: asking for the log of a job that is not running
 blocks the command line

Only a worker with a job is ever told that its log is wanted, so the log command
waited for ever (and no new experiment could be entered) when the worker had
none or when its job ended first.
---
 experiments/orchestrator/worker.js | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/experiments/orchestrator/worker.js b/experiments/orchestrator/worker.js
index 3c59bac..c8607bc 100644
--- a/experiments/orchestrator/worker.js
+++ b/experiments/orchestrator/worker.js
@@ -29,6 +29,10 @@ Worker.prototype.ready = function () {
   this.experiment = null;
   this.status = Status.WORKER_READY;
   this.ping = Date.now();
+  // The job ended before its log could be asked for.
+  if (this.logResolve != null) {
+    this.showLog("Worker " + this.id + " finished, see its result");
+  }
 };
 Worker.prototype.assignExperiment = function (experiment) {
   console.log("Assigned experiment", experiment.id, "to worker", this.id);
@@ -60,6 +64,10 @@ Worker.prototype.short = function () {
       + ", last ping: " + this.lastPing() + ", ip: " + this.ip;
 };
 Worker.prototype.askForLog = function () {
+  if (this.experiment == null) {
+    console.log("ERROR: worker", this.id, "has no job");
+    return;
+  }
   const self = this;
   return new Promise(function (resolve) { self.logResolve = resolve; });
 };
-- 
2.43.0


From 981ae676e7a32fdb2c81dcea9c07f07411ba5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:58 +0000
Subject: [PATCH 25/26] fix: stopping a Checklist job kills every process with
 main in its command line

On a local machine, as set up in README.md, that includes the orchestrator
(node main.js), which then ended with the first Checklist experiment.
---
 experiments/checklist/stop.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/checklist/stop.sh b/experiments/checklist/stop.sh
index 0a0462a..11c8d6c 100755
--- a/experiments/checklist/stop.sh
+++ b/experiments/checklist/stop.sh
@@ -1,5 +1,5 @@
 #!/bin/bash
 kill $(ps aux | grep "rpc_server" | awk '{print $2}')
 kill $(ps aux | grep "rpc_server" | awk '{print $2}')
-kill $(ps aux | grep "main" | awk '{print $2}')
-kill $(ps aux | grep "main" | awk '{print $2}')
+kill $(ps aux | grep "main.*-serverAddr" | awk '{print $2}')
+kill $(ps aux | grep "main.*-serverAddr" | awk '{print $2}')
-- 
2.43.0


From 6721ab5f07724c21bc09d1f4429eb2dea7e96464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 26/26] fix: client daemons that share a directory write to the
 same log

With several workers on one machine (experiments/local.sh), two SealPIR jobs
at once mixed their output in sealpir.log and uploaded the mixture.
---
 experiments/daemon_client.sh | 6 +++---
 experiments/daemon_server.sh | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/experiments/daemon_client.sh b/experiments/daemon_client.sh
index d35809f..2dd0e47 100755
--- a/experiments/daemon_client.sh
+++ b/experiments/daemon_client.sh
@@ -64,7 +64,7 @@ do
     server2=${params[2]}
     queries=${params[3]}
     pirtype=${params[4]}
-    outfile="checklist-client.log"
+    outfile="checklist-client-${WORKER_ID}.log"
 
     sleep 15  # wait to ensure that servers have had a chance to boot.
     ./experiments/checklist/run_client.sh $server1 $server2 $queries $pirtype > $outfile 2>&1 &
@@ -75,12 +75,12 @@ do
     # Read rest of parameters.
     table_size=${params[1]}
     queries=${params[2]}
-    outfile="sealpir.log"
+    outfile="sealpir-${WORKER_ID}.log"
 
     ./experiments/sealpir/run.sh $table_size $queries > $outfile 2>&1 &
     pid=$!
   else
-    outfile="invalid-error.log"
+    outfile="invalid-error-${WORKER_ID}.log"
     echo "Invalid type ${type}" > $outfile
     sleep 5 &
     pid=$!
diff --git a/experiments/daemon_server.sh b/experiments/daemon_server.sh
index 68ea3b0..75bbcd2 100755
--- a/experiments/daemon_server.sh
+++ b/experiments/daemon_server.sh
@@ -68,7 +68,7 @@ do
     ./experiments/checklist/run_server.sh $table_size $port $pirtype > $outfile 2>&1 &
     pid=$!
   else
-    outfile="invalid-error.log"
+    outfile="invalid-error-${WORKER_ID}.log"
     echo "Invalid type ${type}" > $outfile
     sleep 5 &
     pid=$!
-- 
2.43.0

