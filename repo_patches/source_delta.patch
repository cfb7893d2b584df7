From 2464fbeab5543133882a5d68dc32b535c35b1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 01/56] fix: align the output of unique-key inputs by the join
 keys

The intersection rows of an input declared keys_unique were sorted by all
of its columns in file order, so the two parties' outputs did not line up
unless the keys happened to be the leading columns.
---
 psi/utils/join_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 571e2d4..aee0952 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -274,7 +274,7 @@ KeyInfo::StatInfo JoinProcessor::DealResultIndex(IndexReader& index) {
   if (is_input_key_unique_ && align_output_) {
     if (stat.join_intersection_count != 0 && !sorted_intersect_path_.empty()) {
       Table::MakeFromCsv(sorted_intersect_path_)
-          ->SortInplace(GetInputTable()->Columns());
+          ->SortInplace(keys_);
     }
   }
   return stat;
-- 
2.43.0


From f407ec12bda4bf348b7ef5c1b70919ff074ccb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 02/56] fix: guard the shared resource table with a mutex

---
 psi/utils/resource_manager.cc | 22 +++++++++++++++++-----
 psi/utils/resource_manager.h  |  2 ++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/psi/utils/resource_manager.cc b/psi/utils/resource_manager.cc
index a93a4c6..addc983 100644
--- a/psi/utils/resource_manager.cc
+++ b/psi/utils/resource_manager.cc
@@ -57,21 +57,33 @@ std::shared_ptr<yacl::link::Context> LinkResource::GetLinkContext() const {
 }
 
 void ResourceManager::AddResource(std::shared_ptr<Resource> resource) {
+  std::lock_guard<std::mutex> lock(mutex_);
   resources_.emplace(resource->Name(), resource);
 }
 
 void ResourceManager::RemoveResource(const std::string& name) {
-  auto iter = resources_.find(name);
-  if (iter != resources_.end()) {
-    iter->second->Release();
+  std::shared_ptr<Resource> resource;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto iter = resources_.find(name);
+    if (iter == resources_.end()) {
+      return;
+    }
+    resource = iter->second;
     resources_.erase(iter);
   }
+  // Releasing may wait for the peer, so do it without holding the lock.
+  resource->Release();
 }
 void ResourceManager::RemoveAllResource() {
-  for (auto& resource : resources_) {
+  std::unordered_map<std::string, std::shared_ptr<Resource>> resources;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    resources.swap(resources_);
+  }
+  for (auto& resource : resources) {
     resource.second->Release();
   }
-  resources_.clear();
 }
 
 std::shared_ptr<DirResource> ResourceManager::AddDirResouce(
diff --git a/psi/utils/resource_manager.h b/psi/utils/resource_manager.h
index 0225386..5bbbdce 100644
--- a/psi/utils/resource_manager.h
+++ b/psi/utils/resource_manager.h
@@ -16,6 +16,7 @@
 
 #include <filesystem>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -83,6 +84,7 @@ class ResourceManager {
 
  private:
   ResourceManager() = default;
+  std::mutex mutex_;
   std::unordered_map<std::string, std::shared_ptr<Resource>> resources_;
 };
 
-- 
2.43.0


From 99ebef1ef8e2f92017d39f66d40c602fc412c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 03/56] fix: sort csv lines by their parsed key fields

---
 psi/utils/key.cc         | 88 ++++++++++++++++++++++++++++++++++++----
 psi/utils/table_utils.cc | 17 ++++++--
 2 files changed, 93 insertions(+), 12 deletions(-)

diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index 64b64d2..5d85571 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -16,12 +16,15 @@
 
 #include <omp.h>
 
+#include <cstdio>
 #include <fstream>
 #include <sstream>
 
+#include "absl/strings/str_replace.h"
 #include "fmt/ranges.h"
 #include "spdlog/spdlog.h"
 #include "yacl/base/exception.h"
+#include "yacl/utils/scope_guard.h"
 
 #include "psi/utils/arrow_helper.h"
 #include "psi/utils/io.h"
@@ -106,6 +109,50 @@ int GetCpuCount() {
   return std::thread::hardware_concurrency();
 }
 
+// Separates the sort keys in the input of `sort`.
+constexpr char kSortSep = '\x01';
+
+std::string ShellQuote(const std::string& path) {
+  return "'" + absl::StrReplaceAll(path, {{"'", "'\\''"}}) + "'";
+}
+
+// Returns the values of the key fields of a csv line, each followed by
+// kSortSep.
+std::string SortKeyPrefix(const std::string& line,
+                          const std::vector<size_t>& key_indices) {
+  std::vector<std::string> fields(1);
+  bool quoted = false;
+  for (size_t i = 0; i < line.size(); ++i) {
+    char c = line[i];
+    if (quoted) {
+      if (c != '"') {
+        fields.back() += c;
+      } else if (i + 1 < line.size() && line[i + 1] == '"') {
+        fields.back() += c;
+        ++i;
+      } else {
+        quoted = false;
+      }
+    } else if (c == '"' && fields.back().empty()) {
+      quoted = true;
+    } else if (c == ',') {
+      fields.emplace_back();
+    } else if (c != '\r' || i + 1 != line.size()) {
+      fields.back() += c;
+    }
+  }
+
+  std::string prefix;
+  for (auto index : key_indices) {
+    YACL_ENFORCE(index < fields.size(), "too few fields in line: {}", line);
+    // the separator can't be part of a key.
+    prefix += absl::StrReplaceAll(fields[index],
+                                  {{"\x01", "\x02\x02"}, {"\x02", "\x02\x03"}});
+    prefix += kSortSep;
+  }
+  return prefix;
+}
+
 }  // namespace
 
 // Multiple-Key out-of-core sort.
@@ -142,12 +189,14 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
   }
 
   // Construct sort key indices.
+  std::vector<size_t> key_indices;
   std::vector<std::string> sort_keys;
-  for (auto key : keys) {
+  for (const auto& key : keys) {
     auto index = schema->GetFieldIndex(key);
     YACL_ENFORCE(index >= 0, "field {} is not found in {}", key, in_csv);
+    key_indices.push_back(index);
     // NOTE: `sort` cmd starts from index 1.
-    auto sort_index = index + 1;
+    auto sort_index = key_indices.size();
     // About `sort --key=KEYDEF`
     //
     // KEYDEF is F[.C][OPTS][,F[.C][OPTS]] for start and stop position, where
@@ -169,13 +218,36 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
 
   int mcpus = GetCpuCount();
 
-  // Sort the csv body and append to out csv.
+  // Sort the csv body and append to out csv. A legal csv field may be quoted,
+  // so the values of the keys are put in front of each line for `sort`, and
+  // removed afterwards.
+  const auto keyed_csv = out_csv + ".keyed";
+  ON_SCOPE_EXIT([&] { std::remove(keyed_csv.c_str()); });
+  {
+    io::FileIoOptions in_opts(in_csv);
+    auto in = io::BuildInputStream(in_opts);
+    io::FileIoOptions keyed_opts(keyed_csv);
+    auto keyed = io::BuildOutputStream(keyed_opts);
+    in->GetLine(&line);
+    while (in->GetLine(&line)) {
+      // csv reader ignores empty lines.
+      if (line.empty() || line == "\r") {
+        continue;
+      }
+      keyed->Write(SortKeyPrefix(line, key_indices));
+      keyed->Write(line);
+      keyed->Write("\n");
+    }
+    in->Close();
+    keyed->Close();
+  }
   std::string cmd = fmt::format(
-      "tail -n +2 {} | LC_ALL=C sort {} --parallel={} --buffer-size=1G "
-      "--stable "
-      "--field-separator=, {} {} >>{}",
-      in_csv, numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "),
-      unique ? "| LC_ALL=C uniq" : "", out_csv);
+      "LC_ALL=C sort {0} --parallel={1} --buffer-size=1G --stable "
+      "--field-separator='{2}' {3} -o {4} {4} && "
+      "LC_ALL=C cut -d '{2}' -f {5}- {4} {6} >>{7}",
+      numeric_sort ? "-n" : "", mcpus, kSortSep, fmt::join(sort_keys, " "),
+      ShellQuote(keyed_csv), keys.size() + 1, unique ? "| LC_ALL=C uniq" : "",
+      ShellQuote(out_csv));
   SPDLOG_INFO("Executing sort scripts: {}", cmd);
   int ret = system(cmd.c_str());
   SPDLOG_INFO("Finished sort scripts: {}, ret={}", cmd, ret);
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index a6ecd2c..328e93f 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -501,7 +501,16 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
   uint32_t inter_unique_cnt = 0;
   std::string line;
   std::ifstream sorted_file(table_->Path());
-  std::getline(sorted_file, line);
+  // csv reader ignores empty lines.
+  auto next_line = [&]() {
+    while (std::getline(sorted_file, line)) {
+      if (!line.empty() && line != "\r") {
+        return true;
+      }
+    }
+    return false;
+  };
+  next_line();
   // dump schema line
   dumper.ToIntersect(line);
   dumper.ToExcept(line);
@@ -515,12 +524,12 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     inter_unique_cnt += inter_index_info.size();
     for (auto& info : inter_index_info) {
       while (sorted_file_index < info.start_index) {
-        std::getline(sorted_file, line);
+        next_line();
         dumper.ToExcept(line);
         sorted_file_index++;
       }
       for (uint32_t i = 0; i <= info.self_dup_cnt; ++i) {
-        std::getline(sorted_file, line);
+        next_line();
         dumper.ToIntersect(line, info.peer_dup_cnt);
       }
       sorted_file_index += info.self_dup_cnt + 1;
@@ -531,7 +540,7 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     inter_index_info = processor.GetBatchInfo();
   }
 
-  while (std::getline(sorted_file, line)) {
+  while (next_line()) {
     dumper.ToExcept(line);
     sorted_file_index++;
   }
-- 
2.43.0


From c8bb1ec8f6797bf73099110af2045f47bd910dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 04/56] fix: separate the keys in the digest of an input

---
 psi/utils/csv_checker.cc | 1 +
 psi/utils/table_utils.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index aba4a40..6d15460 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -102,6 +102,7 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       // .keys file tasks almost 12GB for 10^8 samples.
       std::string combined_id = KeysJoin(chosen);
       hash_obj.Update(combined_id);
+      hash_obj.Update(std::string("\n"));
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
         keys_os->Write("\n", 1);
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 328e93f..3cc2b82 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -308,6 +308,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
       hash.Update(keys[i]);
+      hash.Update(std::string("\n"));
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
@@ -403,6 +404,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
     lines += batch.size();
     for (auto& item : batch) {
       hash.Update(item);
+      hash.Update(std::string("\n"));
     }
     batch = provider->ReadNextBatch();
   }
-- 
2.43.0


From f5ddcc4e05d27feb3575885735e305301ffd97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 05/56] fix: escape quotes in the key file and in the output
 header

---
 psi/utils/table_utils.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 3cc2b82..6e124e0 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -32,6 +32,7 @@
 #include <unordered_set>
 #include <utility>
 
+#include "absl/strings/str_replace.h"
 #include "arrow/api.h"
 #include "arrow/csv/api.h"
 #include "arrow/io/api.h"
@@ -211,9 +212,11 @@ Table::Table(std::string path, std::string format)
 
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns) {
   std::ostringstream oss;
-  oss << '"' << columns[0] << '"';
-  for (size_t i = 1; i < columns.size(); ++i) {
-    oss << ',' << '"' << columns[i] << '"';
+  for (size_t i = 0; i < columns.size(); ++i) {
+    if (i != 0) {
+      oss << ',';
+    }
+    oss << '"' << absl::StrReplaceAll(columns[i], {{"\"", "\"\""}}) << '"';
   }
   return oss.str();
 }
@@ -309,7 +312,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
     for (size_t i = 0; i < keys.size(); ++i) {
       hash.Update(keys[i]);
       hash.Update(std::string("\n"));
-      out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
+      out << MakeQuotedCsvLine({keys[i]}) << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
         duplicate_key_cnt++;
-- 
2.43.0


From 650b990d00dfc26920ce078ea519d457735241e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 06/56] fix: do not take the key digest of an input from a
 stale meta file

---
 psi/utils/table_utils.cc | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 6e124e0..0feaec4 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -379,25 +379,6 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 
 std::shared_ptr<KeyInfo> KeyInfo::Make(
     std::shared_ptr<UniqueKeyTable> unique_key_table) {
-  auto meta_path = unique_key_table->Path() + ".meta";
-  if (std::filesystem::exists(meta_path) &&
-      std::filesystem::file_size(meta_path)) {
-    SPDLOG_INFO("meta file {} exists already.", meta_path);
-    proto::KeyInfoMeta meta;
-    LoadJsonFileToPbMessage(meta_path, meta);
-
-    if (meta.source_file_size() ==
-        std::filesystem::file_size(unique_key_table->Path())) {
-      return std::shared_ptr<KeyInfo>(
-          new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
-    } else {
-      SPDLOG_WARN(
-          "unique_key_table file size {} not match meta file size {}, rebuild.",
-          std::filesystem::file_size(unique_key_table->Path()),
-          meta.source_file_size());
-    }
-  }
-
   yacl::crypto::Sha256Hash hash;
   uint32_t lines = 0;
   auto provider = unique_key_table->GetProvider(unique_key_table->Keys());
@@ -420,7 +401,6 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   meta.set_original_cnt(lines);
   meta.set_source_file_size(
       std::filesystem::file_size(unique_key_table->Path()));
-  DumpPbMessageToJsonFile(meta, meta_path);
 
   return std::shared_ptr<KeyInfo>(
       new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
-- 
2.43.0


From 815bcbc4c5d00d547ed1c7af00a821460af3ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 07/56] fix: update the recovery checkpoint under its lock

---
 psi/checkpoint/recovery.cc | 18 ++++++++++++++++--
 psi/checkpoint/recovery.h  |  9 +++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 840e5bf..2bdeb5d 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -81,8 +81,6 @@ RecoveryManager::RecoveryManager(const std::string& folder_path)
 }
 
 void RecoveryManager::SaveCheckpointFile() {
-  std::unique_lock<std::mutex> lock(mutex_);
-
   std::string checkpoint_json;
   google::protobuf::util::JsonPrintOptions json_print_options;
   json_print_options.preserve_proto_field_names = true;
@@ -99,6 +97,8 @@ void RecoveryManager::SaveCheckpointFile() {
 void RecoveryManager::MarkInitEnd(
     const v2::PsiConfig& config,
     const std::vector<uint8_t>& input_hash_digest) {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   if (checkpoint_.stage() != v2::RecoveryCheckpoint::STAGE_UNSPECIFIED) {
     // Check whether config and input_hash_digest match the previous record.
     YACL_ENFORCE(::google::protobuf::util::MessageDifferencer::Equals(
@@ -121,6 +121,8 @@ void RecoveryManager::MarkInitEnd(
 
 void RecoveryManager::MarkPreProcessEnd(
     const std::shared_ptr<IEccCryptor>& cryptor) {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   if (cryptor) {
     if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END) {
       checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END);
@@ -147,6 +149,8 @@ void RecoveryManager::MarkPreProcessEnd(
 
 bool RecoveryManager::MarkOnlineStart(
     const std::shared_ptr<yacl::link::Context>& lctx) {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   bool online_stage_finished = false;
   if (lctx) {
     YACL_ENFORCE_EQ(lctx->WorldSize(), 2U);
@@ -211,6 +215,8 @@ bool RecoveryManager::MarkOnlineStart(
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_self_count(cnt);
 
@@ -219,6 +225,8 @@ void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   SPDLOG_INFO("RecoveryManager::UpdateEcdhDualMaskedItemPeerCount, cnt = {}",
               cnt);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
@@ -229,6 +237,8 @@ void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
 }
 
 void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   SPDLOG_INFO("RecoveryManager::UpdateParsedBucketCount, cnt = {}", cnt);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_parsed_bucket_count(cnt);
@@ -238,6 +248,8 @@ void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
 }
 
 void RecoveryManager::MarkOnlineEnd() {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_ONLINE_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_END);
 
@@ -247,6 +259,8 @@ void RecoveryManager::MarkOnlineEnd() {
 }
 
 void RecoveryManager::MarkPostProcessEnd() {
+  std::unique_lock<std::mutex> lock(mutex_);
+
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END);
 
diff --git a/psi/checkpoint/recovery.h b/psi/checkpoint/recovery.h
index d61f220..ca6ec54 100644
--- a/psi/checkpoint/recovery.h
+++ b/psi/checkpoint/recovery.h
@@ -94,12 +94,17 @@ class RecoveryManager {
     return parsed_bucket_count_from_peer_;
   }
 
-  v2::RecoveryCheckpoint checkpoint() const { return checkpoint_; }
+  v2::RecoveryCheckpoint checkpoint() const {
+    std::unique_lock<std::mutex> lock(mutex_);
+    return checkpoint_;
+  }
 
  private:
+  // mutex_ must be held.
   void SaveCheckpointFile();
 
-  std::mutex mutex_;
+  // protects checkpoint_, which is updated by several threads.
+  mutable std::mutex mutex_;
 
   std::filesystem::path folder_path_;
 
-- 
2.43.0


From 37eed92e011bb90a99736343549de1e8c73dc128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 08/56] fix: replace the checkpoint file atomically

---
 psi/checkpoint/recovery.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 2bdeb5d..71513e0 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -88,10 +88,14 @@ void RecoveryManager::SaveCheckpointFile() {
                    checkpoint_, &checkpoint_json, json_print_options)
                    .ok());
 
+  // Replace the file in one step, so that a crash never leaves a part of it.
+  const auto tmp_path = checkpoint_file_path_.string() + ".tmp";
   std::ofstream file;
-  file.open(checkpoint_file_path_);
+  file.open(tmp_path);
   file << checkpoint_json;
   file.close();
+  YACL_ENFORCE(file.good(), "failed to write {}", tmp_path);
+  std::filesystem::rename(tmp_path, checkpoint_file_path_);
 }
 
 void RecoveryManager::MarkInitEnd(
-- 
2.43.0


From 62a9498270d0cab179fedd9e3e0033606bd61977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 09/56] fix: do not repeat or tear indexes when a run is
 resumed

IndexWriter appended the results of repeated buckets again, after whatever
part of a line an interrupted run had left.
---
 psi/utils/index_store.cc | 27 +++++++++++++++++++++++++++
 psi/utils/index_store.h  |  8 ++++++++
 2 files changed, 35 insertions(+)

diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index f05bc00..16a1872 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -34,6 +34,9 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
                          bool trunc)
     : path_(path), cache_size_(cache_size) {
   std::vector<std::string> fields = {kIdx, kPeerCnt};
+  if (!trunc && std::filesystem::exists(path_)) {
+    trunc = !LoadCommitted();
+  }
   if (trunc || !std::filesystem::exists(path_)) {
     // NOTE(junfeng): This is a hack to write the header without quotation masks
     // to make YACL csv utils happy.
@@ -60,6 +63,26 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
   YACL_ENFORCE(cnt_builder_->Resize(cache_size_ * sizeof(uint64_t)).ok());
 }
 
+bool IndexWriter::LoadCommitted() {
+  size_t valid_size = 0;
+  {
+    std::ifstream file(path_);
+    std::string line;
+    // A line without a line break was not written completely.
+    for (size_t i = 0; std::getline(file, line) && !file.eof(); ++i) {
+      valid_size += line.size() + 1;
+      if (i != 0) {
+        committed_.insert(std::stoull(line));
+      }
+    }
+  }
+  if (valid_size == 0) {
+    return false;
+  }
+  std::filesystem::resize_file(path_, valid_size);
+  return true;
+}
+
 size_t IndexWriter::WriteCache(const std::vector<uint64_t>& indexes,
                                const std::vector<uint64_t>& duplicate_cnt) {
   YACL_ENFORCE(!outfile_->closed());
@@ -84,6 +107,10 @@ size_t IndexWriter::WriteCache(const std::vector<uint64_t>& indexes) {
 size_t IndexWriter::WriteCache(uint64_t index, uint64_t cnt) {
   YACL_ENFORCE(!outfile_->closed());
 
+  if (committed_.count(index) != 0) {
+    return write_cnt_;
+  }
+
   YACL_ENFORCE(index_builder_->AppendScalar(arrow::UInt64Scalar(index)).ok());
   YACL_ENFORCE(cnt_builder_->AppendScalar(arrow::UInt64Scalar(cnt)).ok());
   cache_cnt_++;
diff --git a/psi/utils/index_store.h b/psi/utils/index_store.h
index 131be8d..c6d6961 100644
--- a/psi/utils/index_store.h
+++ b/psi/utils/index_store.h
@@ -22,6 +22,7 @@
 #include <memory>
 #include <optional>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 #include "arrow/io/api.h"
@@ -65,8 +66,15 @@ class IndexWriter {
   [[nodiscard]] std::filesystem::path path() const { return path_; }
 
  private:
+  // Drops an incomplete last line of an existing file and loads the indexes
+  // in it. Returns false if there is no complete line.
+  bool LoadCommitted();
+
   std::filesystem::path path_;
 
+  // Indexes found in the file when it was opened, they are not written again.
+  std::unordered_set<uint64_t> committed_;
+
   size_t cache_cnt_ = 0;
 
   size_t write_cnt_ = 0;
-- 
2.43.0


From 32677e0d975a1052d6f231d8d76e8c917e9764ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 10/56] fix: do not wait forever for a failed stage of the RR22
 pipeline

---
 psi/algorithm/rr22/rr22_psi.h | 40 +++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d940ad7..a712bac 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <condition_variable>
 #include <cstddef>
+#include <functional>
 #include <future>
 #include <memory>
 #include <mutex>
@@ -200,23 +201,44 @@ class Rr22Runner {
     std::condition_variable prepare_cv;
     std::mutex oprf_mtx;
     std::condition_variable oprf_cv;
-    auto prepare_f = std::async(std::launch::async, [&]() {
+    // Set when a stage fails, the other stages stop waiting for it.
+    bool failed = false;
+    auto run_stage = [&](const std::function<void()>& stage) {
+      try {
+        stage();
+      } catch (...) {
+        std::scoped_lock lock(prepare_mtx, oprf_mtx);
+        failed = true;
+        prepare_cv.notify_all();
+        oprf_cv.notify_all();
+        throw;
+      }
+    };
+    auto prepare_f = std::async(std::launch::async, run_stage, [&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
         std::unique_lock lock(prepare_mtx);
-        prepare_cv.wait(
-            lock, [&] { return prepared_runner_queue.size() < cache_size; });
+        prepare_cv.wait(lock, [&] {
+          return failed || prepared_runner_queue.size() < cache_size;
+        });
+        if (failed) {
+          return;
+        }
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
     });
-    auto run_f = std::async(std::launch::async, [&]() {
+    auto run_f = std::async(std::launch::async, run_stage, [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(prepare_mtx);
-          prepare_cv.wait(lock, [&] { return !prepared_runner_queue.empty(); });
+          prepare_cv.wait(
+              lock, [&] { return failed || !prepared_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = prepared_runner_queue.front();
           prepared_runner_queue.pop();
           prepare_cv.notify_all();
@@ -229,12 +251,16 @@ class Rr22Runner {
         }
       }
     });
-    auto intersection_f = std::async(std::launch::async, [&]() {
+    auto intersection_f = std::async(std::launch::async, run_stage, [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(oprf_mtx);
-          oprf_cv.wait(lock, [&] { return !oprf_runner_queue.empty(); });
+          oprf_cv.wait(lock,
+                       [&] { return failed || !oprf_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = oprf_runner_queue.front();
           oprf_runner_queue.pop();
           oprf_cv.notify_all();
-- 
2.43.0


From 9aec82dfc146ff30d8b068b040470627fa17831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 11/56] fix: do not spin forever when receiving KKRT
 corrections fails

---
 psi/algorithm/kkrt/kkrt_psi.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 372ba93..8cc2ac0 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -14,6 +14,7 @@
 
 #include "psi/algorithm/kkrt/kkrt_psi.h"
 
+#include <chrono>
 #include <future>
 #include <numeric>
 #include <unordered_map>
@@ -218,7 +219,10 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
   // we can
   // TODO(shuyan.ycf): this implementation wastes cpus if the networking is
   // slow (Due to spin logics). Better use synchronization primitives.
-  while (r != num_bins) {
+  // The receiving thread may also end early because of an error, which is
+  // thrown below.
+  while (r != num_bins && f_recv_corrections.wait_for(std::chrono::seconds(
+                              0)) != std::future_status::ready) {
     // process things in steps
     for (uint64_t j = 0; j < kkrtOtBatchSize; ++j) {
       // lets check a random item to see if it can be encoded. If so,
-- 
2.43.0


From 65c1b4c56ab162b42eed8ee0991aaad189d58c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 12/56] fix: resume ECDH PSI from exactly the items both
 parties hold

The stores of dual masked items were appended to without removing what the
parties did not agree on, and their item indexes restarted at zero.
---
 psi/algorithm/ecdh/ecdh_psi.cc  | 25 ++++++++++++++++++++-----
 psi/checkpoint/checkpoint.proto |  2 ++
 psi/checkpoint/recovery.cc      |  6 ++++++
 psi/checkpoint/recovery.h       |  6 ++++++
 psi/utils/ec_point_store.h      |  7 +++++++
 psi/utils/hash_bucket_cache.cc  | 24 ++++++++++++++++++++++++
 psi/utils/hash_bucket_cache.h   |  4 ++++
 7 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index e96b38e..c7db500 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -81,12 +81,12 @@ void EcdhPsiContext::MaskSelf(
       batch_items = std::vector<std::string>(
           read_batch_items.begin() + processed_item_cnt,
           read_batch_items.end());
-      processed_item_cnt = 0;
       for (auto [index, cnt] : item_cnt) {
         if (index >= processed_item_cnt) {
           duplicate_item_cnt[index - processed_item_cnt] = cnt;
         }
       }
+      processed_item_cnt = 0;
     }
   }
 
@@ -461,20 +461,35 @@ void RunEcdhPsi(const EcdhPsiOptions& options,
 
   uint64_t processed_item_cnt = 0;
   if (options.recovery_manager) {
+    const auto checkpoint = options.recovery_manager->checkpoint();
+    // The number of peer items which the peer is not going to send again.
+    uint64_t processed_peer_item_cnt = 0;
     if (handler.SelfCanTouchResults() && handler.PeerCanTouchResults()) {
       processed_item_cnt =
           std::min(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),
-                   options.recovery_manager->checkpoint()
-                       .ecdh_dual_masked_item_self_count());
+                   checkpoint.ecdh_dual_masked_item_self_count());
+      processed_peer_item_cnt = std::min(
+          options.recovery_manager->ecdh_dual_masked_self_cnt_from_peer(),
+          checkpoint.ecdh_dual_masked_item_peer_count());
     } else if (handler.SelfCanTouchResults() &&
                !handler.PeerCanTouchResults()) {
-      processed_item_cnt = options.recovery_manager->checkpoint()
-                               .ecdh_dual_masked_item_self_count();
+      processed_item_cnt = checkpoint.ecdh_dual_masked_item_self_count();
+      processed_peer_item_cnt = checkpoint.ecdh_dual_masked_item_peer_count();
     } else {
       processed_item_cnt =
           options.recovery_manager->ecdh_dual_masked_cnt_from_peer();
     }
 
+    if (handler.SelfCanTouchResults()) {
+      // The stores may hold more than the items both parties agree on.
+      options.recovery_manager->UpdateEcdhDualMaskedItemSelfCount(
+          processed_item_cnt);
+      options.recovery_manager->UpdateEcdhDualMaskedItemPeerCount(
+          processed_peer_item_cnt);
+      self_ec_point_store->Truncate(processed_item_cnt);
+      peer_ec_point_store->Truncate(processed_peer_item_cnt);
+    }
+
     SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
   }
 
diff --git a/psi/checkpoint/checkpoint.proto b/psi/checkpoint/checkpoint.proto
index 82c2335..5955506 100644
--- a/psi/checkpoint/checkpoint.proto
+++ b/psi/checkpoint/checkpoint.proto
@@ -48,4 +48,6 @@ message InternalRecoveryRecord {
   uint64 ecdh_dual_masked_item_peer_count = 2;
 
   uint64 parsed_bucket_count = 3;
+
+  uint64 ecdh_dual_masked_item_self_count = 4;
 }
diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 71513e0..65d2d54 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -164,6 +164,8 @@ bool RecoveryManager::MarkOnlineStart(
     record.set_stage(checkpoint_.stage());
     record.set_ecdh_dual_masked_item_peer_count(
         checkpoint_.ecdh_dual_masked_item_peer_count());
+    record.set_ecdh_dual_masked_item_self_count(
+        checkpoint_.ecdh_dual_masked_item_self_count());
     record.set_parsed_bucket_count(checkpoint_.parsed_bucket_count());
     std::string record_str;
     YACL_ENFORCE(record.SerializeToString(&record_str));
@@ -191,10 +193,14 @@ bool RecoveryManager::MarkOnlineStart(
     if (lctx->Rank() == 0) {
       ecdh_dual_masked_cnt_from_peer_ =
           rank1.ecdh_dual_masked_item_peer_count();
+      ecdh_dual_masked_self_cnt_from_peer_ =
+          rank1.ecdh_dual_masked_item_self_count();
       parsed_bucket_count_from_peer_ = rank1.parsed_bucket_count();
     } else {
       ecdh_dual_masked_cnt_from_peer_ =
           rank0.ecdh_dual_masked_item_peer_count();
+      ecdh_dual_masked_self_cnt_from_peer_ =
+          rank0.ecdh_dual_masked_item_self_count();
       parsed_bucket_count_from_peer_ = rank0.parsed_bucket_count();
     }
   }
diff --git a/psi/checkpoint/recovery.h b/psi/checkpoint/recovery.h
index ca6ec54..c8598dd 100644
--- a/psi/checkpoint/recovery.h
+++ b/psi/checkpoint/recovery.h
@@ -90,6 +90,10 @@ class RecoveryManager {
     return ecdh_dual_masked_cnt_from_peer_;
   }
 
+  uint64_t ecdh_dual_masked_self_cnt_from_peer() const {
+    return ecdh_dual_masked_self_cnt_from_peer_;
+  }
+
   uint64_t parsed_bucket_count_from_peer() const {
     return parsed_bucket_count_from_peer_;
   }
@@ -122,6 +126,8 @@ class RecoveryManager {
 
   uint64_t ecdh_dual_masked_cnt_from_peer_ = 0;
 
+  uint64_t ecdh_dual_masked_self_cnt_from_peer_ = 0;
+
   uint64_t parsed_bucket_count_from_peer_ = 0;
 };
 
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 4568028..db7c8e2 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -61,6 +61,11 @@ class IEcPointStore {
   }
 
   virtual uint64_t ItemCount() = 0;
+
+  // Keeps only the first item_count items.
+  virtual void Truncate(uint64_t item_count) {
+    YACL_ENFORCE_EQ(ItemCount(), item_count, "Truncate is not supported.");
+  }
 };
 
 class MemoryEcPointStore : public IEcPointStore {
@@ -99,6 +104,8 @@ class HashBucketEcPointStore : public IEcPointStore {
 
   uint64_t ItemCount() override;
 
+  void Truncate(uint64_t item_count) override { cache_->Truncate(item_count); }
+
   std::vector<HashBucketCache::BucketItem> LoadBucketItems(size_t bin_idx) {
     return cache_->LoadBucketItems(bin_idx);
   };
diff --git a/psi/utils/hash_bucket_cache.cc b/psi/utils/hash_bucket_cache.cc
index 23679f2..742da41 100644
--- a/psi/utils/hash_bucket_cache.cc
+++ b/psi/utils/hash_bucket_cache.cc
@@ -18,6 +18,7 @@
 
 #include <cstdint>
 #include <filesystem>
+#include <fstream>
 #include <memory>
 #include <utility>
 
@@ -67,6 +68,29 @@ void HashBucketCache::Flush() {
   }
 }
 
+void HashBucketCache::Truncate(uint64_t item_count) {
+  Flush();
+  bucket_os_vec_.clear();
+
+  for (uint32_t i = 0; i < bucket_num_; ++i) {
+    const auto path = disk_cache_->GetPath(i);
+    // Items are in the order of their indexes, the last one may be incomplete.
+    uint64_t valid_size = 0;
+    {
+      std::ifstream in(path);
+      std::string line;
+      while (std::getline(in, line) && !in.eof() &&
+             BucketItem::Deserialize(line).index < item_count) {
+        valid_size += line.size() + 1;
+      }
+    }
+    std::filesystem::resize_file(path, valid_size);
+  }
+
+  disk_cache_->CreateOutputStreams(bucket_num_, &bucket_os_vec_);
+  item_index_ = item_count;
+}
+
 std::vector<HashBucketCache::BucketItem> HashBucketCache::LoadBucketItems(
     uint32_t index) {
   std::vector<BucketItem> ret;
diff --git a/psi/utils/hash_bucket_cache.h b/psi/utils/hash_bucket_cache.h
index 7b58cfa..c5fae5d 100644
--- a/psi/utils/hash_bucket_cache.h
+++ b/psi/utils/hash_bucket_cache.h
@@ -85,6 +85,10 @@ class HashBucketCache {
 
   void Flush();
 
+  // Keeps only the first item_count items written so far, including the ones
+  // found in target_dir.
+  void Truncate(uint64_t item_count);
+
   std::vector<BucketItem> LoadBucketItems(uint32_t index);
 
   uint32_t BucketNum() const { return bucket_num_; }
-- 
2.43.0


From 259beb01ea8d8feddfba3bcc455029cf634cf599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 13/56] fix: shuffle the duplicate counts along with the items
 in threshold PSI

---
 experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index 8710228..c972d40 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -103,7 +103,7 @@ void ThresholdEcdhPsiCtx::MaskAndShufflePeer(
       for (size_t i = 0; i < dual_masked_peers.size(); ++i) {
         shuffled_items[i] = std::move(dual_masked_peers[shuffled_indices[i]]);
         cache->SaveData(item_count + i, item_count + shuffled_indices[i],
-                        dup_cnts[i]);
+                        dup_cnts[shuffled_indices[i]]);
       }
     }
 
-- 
2.43.0


From 8f7100de4acf65db078e913ab6d3ae8a30455922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 14/56] fix: honour the intersection threshold when both
 parties hold the same keys

---
 psi/interface.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 54f72b4..e4bc00d 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -95,7 +95,8 @@ void AbstractPsiParty::Init() {
   // Check if the input are the same between receiver and sender.
   // current only support unique keys input check
   // TODO(huocun): support dup keys input
-  if (config_.check_hash_digest()) {
+  // With a threshold, the whole input must not become the result.
+  if (config_.check_hash_digest() && config_.intersection_threshold() == 0) {
     auto unique_flag = AllGatherFlag(lctx_, keys_info_->DupKeyCnt() == 0);
     auto all_unique = std::all_of(unique_flag.begin(), unique_flag.end(),
                                   [](auto flag) { return flag; });
-- 
2.43.0


From bf5f564baf06e09bf05cb26ee791b9d58b2e3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 15/56] fix: start a partial online stage of threshold PSI over

The resumed items were matched with positions of another shuffle.
---
 .../threshold_ecdh_psi/threshold_ecdh_psi.cc  | 39 ++++---------------
 1 file changed, 7 insertions(+), 32 deletions(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index c972d40..7518bfc 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -23,29 +23,6 @@ namespace psi::ecdh {
 
 constexpr int kLogBatchInterval = 10;
 
-namespace {
-uint64_t GetProcessedItemCnt(const EcdhPsiOptions& options,
-                             const EcdhPsiContext& handler) {
-  uint64_t processed_item_cnt = 0;
-  if (handler.SelfCanTouchResults() && handler.PeerCanTouchResults()) {
-    processed_item_cnt =
-        std::min(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),
-                 options.recovery_manager->checkpoint()
-                     .ecdh_dual_masked_item_self_count());
-  } else if (handler.SelfCanTouchResults() && !handler.PeerCanTouchResults()) {
-    processed_item_cnt = options.recovery_manager->checkpoint()
-                             .ecdh_dual_masked_item_self_count();
-  } else {
-    processed_item_cnt =
-        options.recovery_manager->ecdh_dual_masked_cnt_from_peer();
-  }
-
-  SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
-
-  return processed_item_cnt;
-}
-}  // namespace
-
 ThresholdEcdhPsiCtx::ThresholdEcdhPsiCtx(const EcdhPsiOptions& options)
     : EcdhPsiContext(options) {}
 
@@ -228,15 +205,10 @@ void RunSender(const EcdhPsiOptions& options,
   std::shared_ptr<ThresholdEcdhPsiCache> cache =
       std::make_shared<ThresholdEcdhPsiCache>(cache_path);
 
-  uint64_t processed_item_cnt = 0;
-  if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
-  }
-
   // Sender mask self items then send them to receiver.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider, 0);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
@@ -283,15 +255,18 @@ void RunReceiver(const EcdhPsiOptions& options,
   ThresholdEcdhPsiCtx handler(options);
   handler.CheckConfig();
 
-  uint64_t processed_item_cnt = 0;
   if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
+    // The items are shuffled anew, a partial online stage starts over.
+    options.recovery_manager->UpdateEcdhDualMaskedItemSelfCount(0);
+    options.recovery_manager->UpdateEcdhDualMaskedItemPeerCount(0);
+    self_ec_point_store->Truncate(0);
+    peer_ec_point_store->Truncate(0);
   }
 
   // Receiver mask self items then send them to sender.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider, 0);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
-- 
2.43.0


From 612c85844930f0592ce761276de4c0195d63369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 16/56] fix: keep a copy of the labels in MemoryBatchProvider

---
 psi/utils/batch_provider_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/utils/batch_provider_impl.h b/psi/utils/batch_provider_impl.h
index 93e2556..a4a80b8 100644
--- a/psi/utils/batch_provider_impl.h
+++ b/psi/utils/batch_provider_impl.h
@@ -64,7 +64,8 @@ class MemoryBatchProvider : public IBasicBatchProvider,
  private:
   const size_t batch_size_;
   const std::vector<std::string>& items_;
-  const std::vector<std::string>& labels_;
+  // the labels may be the temporary default argument.
+  const std::vector<std::string> labels_;
   std::vector<size_t> buffer_shuffled_indices_;
   size_t cursor_index_ = 0;
 };
-- 
2.43.0


From 96a075380a165d7f299af078e08a4d1de950647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 17/56] fix: rr22 OKVS picks an index type its bins fit when a
 bin has 255 or 65535 columns

---
 psi/algorithm/rr22/okvs/baxos.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 7c7bca0..3861f83 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -132,8 +132,9 @@ void Baxos::Solve(absl::Span<const uint128_t> inputs, const PxVector& V,
                   const std::shared_ptr<yacl::crypto::Prg<uint8_t>>& prng,
                   uint64_t num_threads, PxVector::Helper& h) {
   // select the smallest index type which will work.
+  // Paxos requires sparse_size < max(IdxType).
   auto bit_length =
-      RoundUpTo(yacl::math::Log2Ceil((paxos_param_.sparse_size + 1)), 8);
+      RoundUpTo(yacl::math::Log2Ceil((paxos_param_.sparse_size + 2)), 8);
 
   SPDLOG_DEBUG("bit_length:{}", bit_length);
 
@@ -471,7 +472,7 @@ void Baxos::Decode(absl::Span<const uint128_t> inputs, PxVector& V,
                    const PxVector& P, PxVector::Helper& h,
                    uint64_t num_threads) {
   auto bit_length =
-      RoundUpTo(yacl::math::Log2Ceil(paxos_param_.sparse_size + 1), 8);
+      RoundUpTo(yacl::math::Log2Ceil(paxos_param_.sparse_size + 2), 8);
 
   if (bit_length <= 8) {
     ImplParDecode<uint8_t>(inputs, V, P, h, num_threads);
-- 
2.43.0


From ced52819d6b88adeb875270445de8fd2ac9a6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 18/56] fix: a copy of a rr22 DenseMtx views its own data

---
 psi/algorithm/rr22/okvs/dense_mtx.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/dense_mtx.h b/psi/algorithm/rr22/okvs/dense_mtx.h
index 00eacb8..00694be 100644
--- a/psi/algorithm/rr22/okvs/dense_mtx.h
+++ b/psi/algorithm/rr22/okvs/dense_mtx.h
@@ -196,10 +196,18 @@ class DenseMtx {
   uint64_t cols_ = 0;
 
   DenseMtx() = default;
-  DenseMtx(const DenseMtx&) = default;
+  // data_mtx_ views data_, so a copy has to view its own data.
+  DenseMtx(const DenseMtx& m) { *this = m; }
   DenseMtx(DenseMtx&&) = default;
 
-  DenseMtx& operator=(const DenseMtx&) = default;
+  DenseMtx& operator=(const DenseMtx& m) {
+    data_ = m.data_;
+    bit_rows_ = m.bit_rows_;
+    rows_ = m.rows_;
+    cols_ = m.cols_;
+    data_mtx_ = MatrixView<uint128_t>(data_.data(), cols_, rows_);
+    return *this;
+  }
   DenseMtx& operator=(DenseMtx&&) = default;
 
   DenseMtx(uint64_t rows, uint64_t cols) { resize(rows, cols); }
-- 
2.43.0


From c64d6b4fcd4976b86a4c80ee7377bd7f3aff59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 19/56] fix: a randomized rr22 Paxos encoding fills one matrix
 row, not 16

---
 psi/algorithm/rr22/okvs/paxos.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 0231ae2..9009a96 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -835,7 +835,7 @@ void Paxos<IdxType>::BackfillGf128U64(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
@@ -1036,7 +1036,7 @@ void Paxos<IdxType>::BackfillGf128(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
-- 
2.43.0


From 6fe553f9c914c307c41261801902875a83d560b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 20/56] fix: invert GF(2^128) matrices of the rr22 OKVS with
 more than one row

---
 psi/algorithm/rr22/okvs/paxos.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 9009a96..6272852 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -30,13 +30,12 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
                                              size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  auto inv = std::vector<uint128_t>(row_size, col_size);
+  auto inv = std::vector<uint128_t>(row_size * col_size, 0);
   for (uint64_t i = 0; i < row_size; ++i) {
     inv[i * row_size + i] = yacl::MakeUint128(0, 1);
   }
 
   uint128_t zero_block = yacl::MakeUint128(0, 0);
-  uint128_t one_block = yacl::MakeUint128(0, 1);
 
   // for the ith row
   for (uint64_t i = 0; i < row_size; ++i) {
@@ -47,7 +46,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
       // for all lower row j, check if (j,i)
       // is non-zero
       for (uint64_t j = i + 1; j < row_size; ++j) {
-        if (mtx[j * row_size + i] == one_block) {
+        if (mtx[j * row_size + i] != zero_block) {
           // found one, swap the rows and break
           for (uint64_t k = 0; k < row_size; ++k) {
             std::swap(mtx[i * row_size + k], mtx[j * row_size + k]);
-- 
2.43.0


From 66f5dbb567f34638274233e9eef8fc632c9e3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 21/56] fix: copies of rr22 OKVS vector views keep their
 elements

---
 psi/algorithm/rr22/okvs/paxos_utils.h | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos_utils.h b/psi/algorithm/rr22/okvs/paxos_utils.h
index 654a30a..33640d1 100644
--- a/psi/algorithm/rr22/okvs/paxos_utils.h
+++ b/psi/algorithm/rr22/okvs/paxos_utils.h
@@ -205,15 +205,14 @@ struct PxVector {
   absl::Span<value_type> elements;
 
   PxVector() = default;
-  PxVector(const PxVector& v) : PxVector(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
+  // the copy of a vector owns its elements, the copy of a view is a view.
+  PxVector(const PxVector& v) : owning(v.owning), elements(v.elements) {
+    if (!owning.empty()) {
+      elements = absl::MakeSpan(owning.data(), owning.size());
+    }
   }
 
-  PxVector(PxVector&& v) : PxVector(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
-  }
+  PxVector(PxVector&& v) = default;
 
   PxVector(absl::Span<value_type> e) { elements = e; }
 
@@ -331,15 +330,14 @@ struct PxVectorU64 {
   absl::Span<value_type> elements;
 
   PxVectorU64() = default;
-  PxVectorU64(const PxVectorU64& v) : PxVectorU64(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
+  // the copy of a vector owns its elements, the copy of a view is a view.
+  PxVectorU64(const PxVectorU64& v) : owning(v.owning), elements(v.elements) {
+    if (!owning.empty()) {
+      elements = absl::MakeSpan(owning.data(), owning.size());
+    }
   }
 
-  PxVectorU64(PxVectorU64&& v) : PxVectorU64(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
-  }
+  PxVectorU64(PxVectorU64&& v) = default;
 
   PxVectorU64(absl::Span<value_type> e) { elements = e; }
 
-- 
2.43.0


From 14dcc43a3211099cc92ede92f7ae49ab905d42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 22/56] fix: bound the bins each thread fills in rr22 Baxos by
 the exact size

---
 psi/algorithm/rr22/okvs/baxos.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 3861f83..5087fbd 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -189,7 +189,10 @@ void Baxos::ImplParSolve(
                total_num_bins, items_per_thrd);
 
   // maximum number of items any single thread will map to a bin.
-  auto per_thrd_max_bin_size = GetBinSize(num_bins_, items_per_thrd, ssp_);
+  // The approximated bin size is too small when items_per_thrd is a power of
+  // two and num_bins_ is not.
+  auto per_thrd_max_bin_size = SimpleIndex::GetBinSize(
+      num_bins_, items_per_thrd, ssp_, /*approx=*/false);
   SPDLOG_DEBUG("per_thrd_max_bin_size:{}", per_thrd_max_bin_size);
 
   // the combined max size of the i'th bin held by each thread.
@@ -304,6 +307,7 @@ void Baxos::ImplParSolve(
           auto bin_idx = bin_idxs[k];
           SPDLOG_DEBUG("k:{} bin_idx:{}", k, bin_idx);
           auto bs = bin_sizes[bin_idx]++;
+          YACL_ENFORCE(bs < per_thrd_max_bin_size);
 
           SPDLOG_DEBUG("i:{}, main:{} batch_size:{}", i, main, batch_size);
           SPDLOG_DEBUG("k:{} thrd_idx: {}, bin_idx: {},bs: {}, in_idx: {}", k,
-- 
2.43.0


From d4cbf47f4403311d4059917648ffc4967fb196e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 23/56] fix: a randomized rr22 OKVS encoding subtracts the
 randomized sparse columns of gap rows

---
 psi/algorithm/rr22/okvs/paxos.cc | 56 ++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 6272852..ba3d34f 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -819,6 +819,17 @@ void Paxos<IdxType>::BackfillGf128U64(
       }
 
       helper.Assign(xx[i], values[gap_rows[i][0]]);
+      if (prng) {
+        // x' also excludes the randomized columns of the gap row.
+        for (uint64_t k = 0; k < weight; ++k) {
+          helper.Add(xx[i], output[rows_[gap_rows[i][0] * weight + k]]);
+        }
+        for (auto j : fcinv.mtx[i]) {
+          for (uint64_t k = 0; k < weight; ++k) {
+            helper.Add(xx[i], output[rows_[j * weight + k]]);
+          }
+        }
+      }
       for (auto j : fcinv.mtx[i]) {
         helper.Add(xx[i], values[j]);
         auto fcb = dense_[j];
@@ -1020,6 +1031,17 @@ void Paxos<IdxType>::BackfillGf128(
       }
 
       helper.Assign(xx[i], values[gap_rows[i][0]]);
+      if (prng) {
+        // x' also excludes the randomized columns of the gap row.
+        for (uint64_t k = 0; k < weight; ++k) {
+          helper.Add(xx[i], output[rows_[gap_rows[i][0] * weight + k]]);
+        }
+        for (auto j : fcinv.mtx[i]) {
+          for (uint64_t k = 0; k < weight; ++k) {
+            helper.Add(xx[i], output[rows_[j * weight + k]]);
+          }
+        }
+      }
       for (auto j : fcinv.mtx[i]) {
         helper.Add(xx[i], values[j]);
         auto fcb = dense_[j];
@@ -1570,9 +1592,20 @@ PxVectorU64 Paxos<IdxType>::GetX2PrimeU64(
     YACL_ENFORCE(P.size() == dense_size + sparse_size);
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D', which cancels when the gap row duplicates the
+    // sparse part of another row.
+    for (uint64_t i = 0; i < g; ++i) {
+      for (uint64_t k = 0; k < weight; ++k) {
+        helper.Add(xx2[i], P[rows_[gap_rows[i][0] * weight + k]]);
+      }
+      for (auto j : fcinv.mtx[i]) {
+        for (uint64_t k = 0; k < weight; ++k) {
+          helper.Add(xx2[i], P[rows_[j * weight + k]]);
+        }
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
@@ -1617,9 +1650,20 @@ PxVector Paxos<IdxType>::GetX2Prime(const FCInv& fcinv,
     YACL_ENFORCE(P.size() == (dense_size + sparse_size));
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D', which cancels when the gap row duplicates the
+    // sparse part of another row.
+    for (uint64_t i = 0; i < g; ++i) {
+      for (uint64_t k = 0; k < weight; ++k) {
+        helper.Add(xx2[i], P[rows_[gap_rows[i][0] * weight + k]]);
+      }
+      for (auto j : fcinv.mtx[i]) {
+        for (uint64_t k = 0; k < weight; ++k) {
+          helper.Add(xx2[i], P[rows_[j * weight + k]]);
+        }
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
-- 
2.43.0


From 7064fc434babd17ec728e932cc1dbeb7ff661142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 24/56] fix: give each Baxos bin its own prng instead of
 sharing one between threads

---
 psi/algorithm/rr22/okvs/baxos.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 5087fbd..4059bb7 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -199,6 +199,13 @@ void Baxos::ImplParSolve(
   uint64_t combined_max_bin_size = per_thrd_max_bin_size * num_threads;
   SPDLOG_DEBUG("combined_max_bin_size: {}", combined_max_bin_size);
 
+  // a prg must not be used by several threads, each bin gets its own.
+  std::vector<uint128_t> bin_seeds(num_bins_);
+  if (prng) {
+    prng->Fill(absl::MakeSpan(reinterpret_cast<uint8_t*>(bin_seeds.data()),
+                              bin_seeds.size() * sizeof(uint128_t)));
+  }
+
   // keeps track of the size of each bin for each thread. Additional spaces to
   // prevent false sharing
   std::vector<uint64_t> thrd_bin_sizes_data(num_threads * num_bins_);
@@ -445,7 +452,10 @@ void Baxos::ImplParSolve(
 
       paxos.SetInput(rows_mtx, hashes, cols, col_backing, col_weights);
 
-      paxos.Encode(values, output, h, prng);
+      paxos.Encode(values, output, h,
+                   prng ? std::make_shared<yacl::crypto::Prg<uint8_t>>(
+                              bin_seeds[bin_idx])
+                        : nullptr);
     }
   };
 
-- 
2.43.0


From 0cca0eb9096d57d57d9597f4dbfb7d7002e76591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 25/56] fix: use randomized OKVS encodings in NTY multi-party
 PSI

---
 psi/algorithm/nty/nty_mp_psi.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/nty/nty_mp_psi.cc b/psi/algorithm/nty/nty_mp_psi.cc
index ba0debd..8d06ca2 100644
--- a/psi/algorithm/nty/nty_mp_psi.cc
+++ b/psi/algorithm/nty/nty_mp_psi.cc
@@ -20,6 +20,7 @@
 #include "yacl/crypto/aes/aes_intrinsics.h"
 #include "yacl/crypto/hash/hash_utils.h"
 #include "yacl/crypto/rand/rand.h"
+#include "yacl/crypto/tools/prg.h"
 #include "yacl/utils/serialize.h"
 
 #include "psi/algorithm/rr22/okvs/baxos.h"
@@ -337,7 +338,11 @@ void NtyMPsi::GenOkvs(const std::vector<uint128_t>& items,
   std::vector<uint128_t> p128_v(baxos.size(), 0);
   auto p128_span = absl::MakeSpan(p128_v);
   auto hashed_span = absl::MakeSpan(hashed_items);
-  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, nullptr,
+  // A randomized encoding decodes other items to random values. With zeros in
+  // the unused columns, two encodings would decode a foreign item equally.
+  auto prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(
+      yacl::crypto::SecureRandSeed());
+  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, prng,
               options_.num_threads);
   psi::rr22::SendChunked(ctx, p128_span);
 }
-- 
2.43.0


From 7149cc487073cfae84a20626dc574a5394d96abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 26/56] fix: KKRT reports a peer item count of 1 for items held
 once

---
 psi/algorithm/kkrt/kkrt_psi.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 8cc2ac0..aaa974c 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -408,9 +408,13 @@ std::vector<PsiResultIndex> KkrtPsiRecvIndices(
 
         auto it = oprf_encode_map[j].find(encode_sub_str);
         if (it != oprf_encode_map[j].end()) {
-          ret_intersection.emplace_back(
-              PsiResultIndex{.data = it->second,
-                             .peer_item_cnt = batch.duplicate_item_cnt[i]});
+          PsiResultIndex result{.data = it->second};
+          // counts are only sent for items which the sender holds repeatedly
+          auto cnt_it = batch.duplicate_item_cnt.find(i);
+          if (cnt_it != batch.duplicate_item_cnt.end()) {
+            result.peer_item_cnt = cnt_it->second;
+          }
+          ret_intersection.emplace_back(result);
         }
       }
     }
-- 
2.43.0


From abf10c230a238b178f66f169ae43b3f5a3a87d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 27/56] fix: KMPRT17 sizes received shares by party count
 rather than item count

---
 experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
index d8a38ec..5c88a15 100644
--- a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
+++ b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
@@ -97,7 +97,7 @@ auto KmprtParty::SwapShares(const std::vector<uint128_t>& items,
                             const std::vector<Share>& shares) const -> Share {
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = shares.front().size();
-  std::vector<Share> recv_shares(count);
+  std::vector<Share> recv_shares(wsize);
   std::vector<std::future<Share>> futures(wsize);
   // NOTE: First Send Then Receive for peers of smaller ranks
   for (size_t id{}; id != me; ++id) {
@@ -136,7 +136,7 @@ auto KmprtParty::Reconstruct(const std::vector<uint128_t>& items,
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = items.size();
   if (me == leader) {
-    std::vector<Share> recv_shares(count);
+    std::vector<Share> recv_shares(wsize);
     std::vector<std::future<Share>> futures(wsize);
     for (size_t src{}; src != wsize; ++src) {
       if (me != src) {
-- 
2.43.0


From 3372daddd675aac3e227d6f7e3d1df4793ab0136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 28/56] fix: Spiral gadget inversion reads the transposed entry

GadgetInvertRdim decomposes column i, row j of the input but read
Poly(i, j), so a matrix of more than one column gave the digits of other
entries (or of memory behind the matrix).
---
 psi/algorithm/spiral/gadget.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/spiral/gadget.cc b/psi/algorithm/spiral/gadget.cc
index dc43d26..f759759 100644
--- a/psi/algorithm/spiral/gadget.cc
+++ b/psi/algorithm/spiral/gadget.cc
@@ -63,7 +63,7 @@ void GadgetInvertRdim(const Params& params, PolyMatrixRaw& out,
   uint64_t mask = (static_cast<uint64_t>(1) << bits_per) - 1;
   for (size_t i = 0; i < in.Cols(); ++i) {
     for (size_t j = 0; j < rdim; ++j) {
-      auto poly = in.Poly(i, j);
+      auto poly = in.Poly(j, i);
       for (size_t z = 0; z < params.PolyLen(); ++z) {
         uint64_t val = poly[z];
         for (size_t k = 0; k < num_elements; ++k) {
-- 
2.43.0


From a3a087809cadd89795de6492bb1f4879e839a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 29/56] fix: Spiral response decoding for all modulus switching
 sizes

The quotient is made non-negative by adding denominator / p, which is a
multiple of p only for some values of q2; with the others (q2_bits 14, 15,
16 and 19) every decoded coefficient was off by a constant. Add a multiple
of p instead, as Recenter and Rescale do.
---
 psi/algorithm/spiral/spiral_client.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/spiral/spiral_client.cc b/psi/algorithm/spiral/spiral_client.cc
index 383ed9f..c34df21 100644
--- a/psi/algorithm/spiral/spiral_client.cc
+++ b/psi/algorithm/spiral/spiral_client.cc
@@ -447,7 +447,7 @@ PolyMatrixRaw SpiralClient::DecodeResponseInternal(
     auto res = static_cast<int128_t>(tmp / denominator);
 
     // int64_t can directly compute with int128_t
-    int128_t middle = denominator / p_i128;
+    int128_t middle = (denominator / p_i128) * p_i128;
     int128_t right = 2 * p_i128;
     res = (res + middle + right) % p_i128;
 
@@ -522,7 +522,7 @@ PolyMatrixRaw SpiralClient::DecodeResponseInternal(
       auto res = static_cast<int128_t>(tmp / denominator);
 
       // int64_t can directly compute with int128_t
-      int128_t middle = denominator / p_i128;
+      int128_t middle = (denominator / p_i128) * p_i128;
       int128_t right = 2 * p_i128;
       res = (res + middle + right) % p_i128;
       size_t idx = ins * n * n * poly_len + i;
-- 
2.43.0


From 3c0a746866d71581a91103075b4ead41a3f40593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 30/56] fix: Spiral secret keys use the whole 128-bit seed

std::mt19937(mt_seed) truncates the seed to 32 bits, so there were only
2^32 secret keys: they could be enumerated, and among some hundred thousand
clients two had the same one.
---
 psi/algorithm/spiral/poly_matrix_utils.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/psi/algorithm/spiral/poly_matrix_utils.cc b/psi/algorithm/spiral/poly_matrix_utils.cc
index 46154b6..804876d 100644
--- a/psi/algorithm/spiral/poly_matrix_utils.cc
+++ b/psi/algorithm/spiral/poly_matrix_utils.cc
@@ -20,6 +20,9 @@
 #include "sse2neon.h"
 #endif
 
+#include <array>
+#include <random>
+
 #include "absl/types/span.h"
 #include "seal/modulus.h"
 #include "yacl/base/exception.h"
@@ -173,10 +176,13 @@ void GenTernaryMatrix(const Params& params, PolyMatrixRaw& mat, size_t hamming,
                       yacl::crypto::Prg<uint64_t>& prg) {
   auto modulus = params.Modulus();
 
-  uint128_t mt_seed;
-  prg.Fill(
-      absl::MakeSpan(reinterpret_cast<uint8_t*>(&mt_seed), sizeof(mt_seed)));
-  std::mt19937 rng(mt_seed);
+  // the whole seed must go into the generator: constructing std::mt19937 from
+  // an integer only uses its low 32 bits
+  std::array<uint32_t, 8> mt_seed;
+  prg.Fill(absl::MakeSpan(reinterpret_cast<uint8_t*>(mt_seed.data()),
+                          mt_seed.size() * sizeof(uint32_t)));
+  std::seed_seq seed_seq(mt_seed.begin(), mt_seed.end());
+  std::mt19937 rng(seed_seq);
   // todo: change the style
   for (size_t i = 0; i < mat.Rows(); ++i) {
     for (size_t j = 0; j < mat.Cols(); ++j) {
-- 
2.43.0


From 51ad06b880829d52d00da49977a79b1f39739ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 31/56] fix: Spiral parameters for databases of 5..16 and
 33..64 plaintexts

The dimensions chosen for these sizes left too little room for the second
dimension in the expanded query, so ValidCheck threw and databases of these
sizes could not be served at all. Move bits to the first dimension then.
---
 psi/algorithm/spiral/params.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/psi/algorithm/spiral/params.cc b/psi/algorithm/spiral/params.cc
index ce417e6..df7639f 100644
--- a/psi/algorithm/spiral/params.cc
+++ b/psi/algorithm/spiral/params.cc
@@ -135,6 +135,16 @@ size_t Params::UpdateByDatabaseInfo(const DatabaseMetaInfo& database_info) {
     while (static_cast<size_t>(1 << (v1 + v2)) < plaintext_size) {
       v2 += 1;
     }
+    // the half of the expanded query that holds the bits of the second
+    // dimension must be large enough, move bits to the first one otherwise
+    // (see ValidCheck)
+    while (v2 > 1 &&
+           (static_cast<size_t>(1) << (arith::Log2Ceil(
+                (1ULL << v1) + v2 * poly_matrix_params_.t_gsw_) - 1)) <
+               v2 * poly_matrix_params_.t_gsw_) {
+      v1 += 1;
+      v2 -= 1;
+    }
   }
   // set v1 and v2
   SetDbDim1(v1);
-- 
2.43.0


From 645f58b980a2c0afa018d46acea30c49b741d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 32/56] fix: SimplePIR arithmetic for moduli that are not
 powers of two

---
 experiment/pir/simplepir/client.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/experiment/pir/simplepir/client.cc b/experiment/pir/simplepir/client.cc
index 3470a2a..9551f7d 100644
--- a/experiment/pir/simplepir/client.cc
+++ b/experiment/pir/simplepir/client.cc
@@ -14,6 +14,7 @@
 
 #include "experiment/pir/simplepir/client.h"
 
+#include <cstdlib>
 #include <vector>
 
 #include "yacl/crypto/tools/prg.h"
@@ -71,8 +72,14 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
   s_ = GenerateRandomVector(dimension_, q_);
   std::vector<uint64_t> qu(row_num);
   for (size_t i = 0; i < row_num; i++) {
+    // Represents the error in Z_q before adding it: wrapping around 2^64 is only
+    // consistent with arithmetic modulo q if q divides 2^64
+    const uint64_t magnitude =
+        static_cast<uint64_t>(std::abs(error_vec[i])) % q_;
+    const uint64_t error =
+        error_vec[i] < 0 && magnitude != 0 ? q_ - magnitude : magnitude;
     qu[i] = InnerProductModq(A_[i], s_, q_) + u_i_col[i];
-    qu[i] += static_cast<uint64_t>(error_vec[i]);
+    qu[i] += error;
     qu[i] %= q_;
   }
 
@@ -81,7 +88,9 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
 
 uint64_t SimplePirClient::Recover(const std::vector<uint64_t> &ans) {
   // Computes d_ = ans - hint*s mod q
-  uint64_t phase = ans[idx_row_] - InnerProductModq(hint_[idx_row_], s_, q_);
+  const uint64_t mask = InnerProductModq(hint_[idx_row_], s_, q_);
+  uint64_t phase = ans[idx_row_] >= mask ? ans[idx_row_] - mask
+                                         : ans[idx_row_] + (q_ - mask);
 
   // Handles modular rounding: Map from Z_q to Z_p
   uint64_t d =
-- 
2.43.0


From 745731e00117f7d31d42d8907d7c876806ab6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:27 +0000
Subject: [PATCH 33/56] fix: learn the csv columns without writing a file next
 to the input

---
 psi/utils/arrow_helper.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/psi/utils/arrow_helper.cc b/psi/utils/arrow_helper.cc
index 98ad966..a83c6f6 100644
--- a/psi/utils/arrow_helper.cc
+++ b/psi/utils/arrow_helper.cc
@@ -18,7 +18,9 @@
 #include <fstream>
 #include <ios>
 #include <memory>
+#include <utility>
 
+#include "arrow/buffer.h"
 #include "arrow/csv/api.h"
 #include "arrow/io/api.h"
 #include "yacl/base/exception.h"
@@ -77,27 +79,33 @@ std::vector<std::string> GetCsvColumnsNames(const std::string& path) {
   YACL_ENFORCE(std::filesystem::exists(path), "csv file: {} not exists", path);
   std::ifstream file(path);
 
-  auto tmp_file_name = path + ".temp.csv";
-  std::ofstream ofile(tmp_file_name);
-
+  // Only the first two lines are needed to learn the columns, they are parsed in
+  // memory: nothing may be written next to the input file.
+  std::string head;
   std::string line;
   YACL_ENFORCE(std::getline(file, line), "read csv file first line: {} failed",
                path);
-  ofile << line << '\n';
+  head += line + '\n';
   YACL_ENFORCE(std::getline(file, line), "read csv file second line: {} failed",
                path);
-  ofile << line << '\n';
-  ofile.close();
+  head += line + '\n';
+
+  auto input = std::make_shared<arrow::io::BufferReader>(
+      arrow::Buffer::FromString(std::move(head)));
+  std::shared_ptr<arrow::csv::StreamingReader> reader;
+  PSI_ARROW_GET_RESULT(reader,
+                       arrow::csv::StreamingReader::Make(
+                           arrow::io::default_io_context(), input,
+                           arrow::csv::ReadOptions::Defaults(),
+                           arrow::csv::ParseOptions::Defaults(),
+                           arrow::csv::ConvertOptions::Defaults()));
 
-  auto reader = MakeCsvReader(tmp_file_name);
   std::vector<std::string> columns_names;
   for (const auto& column : reader->schema()->fields()) {
     columns_names.push_back(column->name());
   }
   auto status = reader->Close();
-  YACL_ENFORCE(status.ok(), "close csv reader {} failed", tmp_file_name);
-
-  std::filesystem::remove(tmp_file_name);
+  YACL_ENFORCE(status.ok(), "close csv reader {} failed", path);
 
   return columns_names;
 }
-- 
2.43.0


From acc4b5fde7da5f5ac66612a093831d5207af4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 34/56] fix: do not read past the peer's ECDH config message

---
 psi/algorithm/ecdh/ecdh_psi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index c7db500..193278a 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -54,7 +54,8 @@ void EcdhPsiContext::CheckConfig() {
   auto peer_config = config_list[main_link_ctx_->NextRank()];
   YACL_ENFORCE(my_config_buf == peer_config,
                "EcdhPsiContext Config mismatch, mine={}, peer={}", my_config,
-               peer_config.data<const char>());
+               std::string_view(peer_config.data<const char>(),
+                                peer_config.size()));
 }
 
 void EcdhPsiContext::MaskSelf(
-- 
2.43.0


From baff4a8ec42f588dfa2d2fd8e31fb80673426779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 35/56] fix: check chunk sizes and indices received in RR22

---
 psi/algorithm/rr22/rr22_utils.cc | 27 ++++++++++++++++++++++-----
 psi/algorithm/rr22/rr22_utils.h  |  8 +++++++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_utils.cc b/psi/algorithm/rr22/rr22_utils.cc
index f51af91..ea21628 100644
--- a/psi/algorithm/rr22/rr22_utils.cc
+++ b/psi/algorithm/rr22/rr22_utils.cc
@@ -46,6 +46,19 @@ struct NoHash {
   }
 };
 
+// Indexes of own items, as told by the peer.
+std::vector<uint32_t> ParseIndices(const yacl::Buffer& buffer,
+                                   size_t items_num) {
+  YACL_ENFORCE(buffer.size() % sizeof(uint32_t) == 0);
+  std::vector<uint32_t> indices(buffer.size() / sizeof(uint32_t));
+  std::memcpy(indices.data(), buffer.data<uint8_t>(), buffer.size());
+  for (const auto& index : indices) {
+    YACL_ENFORCE(index < items_num, "item index {} from peer is out of range",
+                 index);
+  }
+  return indices;
+}
+
 }  // namespace
 
 std::pair<std::vector<uint32_t>, std::vector<uint32_t>> GetIntersectionReceiver(
@@ -180,9 +193,13 @@ std::vector<uint32_t> GetIntersectionReceiver(
   size_t recv_item_count = 0;
   while (recv_item_count < peer_items_num) {
     auto buffer = lctx->Recv(lctx->NextRank(), fmt::format("oprf_value"));
+    size_t chunk_count = buffer.size() / mask_size;
+    YACL_ENFORCE(chunk_count > 0 && buffer.size() % mask_size == 0 &&
+                     chunk_count <= peer_items_num - recv_item_count,
+                 "unexpected chunk of {} bytes from peer", buffer.size());
     std::memcpy(peer_buffer.data<uint8_t>() + (recv_item_count * mask_size),
                 buffer.data<uint8_t>(), buffer.size());
-    recv_item_count += buffer.size() / mask_size;
+    recv_item_count += chunk_count;
   }
   YACL_ENFORCE(peer_items_num == peer_buffer.size() / mask_size);
   SPDLOG_INFO("recv rr22 oprf finished: {} vector:{}", peer_buffer.size(),
@@ -260,13 +277,14 @@ std::pair<std::vector<uint32_t>, std::vector<uint32_t>> GetIntersectionSender(
   std::unordered_map<uint64_t, uint32_t> items_cnt;
   if (broadcast_result) {
     auto buffer = lctx->Recv(lctx->NextRank(), "broadcast_result");
-    result.resize(buffer.size() / sizeof(uint32_t));
-    std::memcpy(result.data(), buffer.data<uint8_t>(), buffer.size());
+    result = ParseIndices(buffer, self_oprfs.size());
     buffer = lctx->Recv(lctx->NextRank(), "broadcast_items_cnt");
     items_cnt = utils::DeserializeItemsCnt(buffer);
   }
   std::vector<uint32_t> items_cnt_v(result.size(), 0);
   for (auto& item : items_cnt) {
+    YACL_ENFORCE(item.first < items_cnt_v.size(),
+                 "item index {} from peer is out of range", item.first);
     items_cnt_v[item.first] = item.second;
   }
   return {result, items_cnt_v};
@@ -299,8 +317,7 @@ std::vector<uint32_t> GetIntersectionSender(
   }
   if (broadcast_result) {
     auto buffer = lctx->Recv(lctx->NextRank(), "broadcast_result");
-    result.resize(buffer.size() / sizeof(uint32_t));
-    std::memcpy(result.data(), buffer.data<uint8_t>(), buffer.size());
+    result = ParseIndices(buffer, self_oprfs.size());
   }
   return result;
 }
diff --git a/psi/algorithm/rr22/rr22_utils.h b/psi/algorithm/rr22/rr22_utils.h
index 10352a5..7c3fc92 100644
--- a/psi/algorithm/rr22/rr22_utils.h
+++ b/psi/algorithm/rr22/rr22_utils.h
@@ -60,11 +60,17 @@ std::vector<ValueType> RecvChunked(
   while (recv_item_count < paxos_size) {
     yacl::Buffer paxos_solve_buf =
         lctx->Recv(lctx->NextRank(), fmt::format("recv paxos_solve"));
+    size_t chunk_count = paxos_solve_buf.size() / sizeof(ValueType);
+    YACL_ENFORCE(chunk_count > 0 &&
+                     paxos_solve_buf.size() % sizeof(ValueType) == 0 &&
+                     chunk_count <= paxos_size - recv_item_count,
+                 "unexpected chunk of {} bytes from peer",
+                 paxos_solve_buf.size());
 
     std::memcpy(paxos_solve_v.data() + recv_item_count, paxos_solve_buf.data(),
                 paxos_solve_buf.size());
 
-    recv_item_count += paxos_solve_buf.size() / sizeof(ValueType);
+    recv_item_count += chunk_count;
   }
   YACL_ENFORCE(recv_item_count == paxos_size);
   return paxos_solve_v;
-- 
2.43.0


From 3e8441a3cf8e838f7548f5c111d4595cae85c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 36/56] fix: refuse undecodable messages and empty sync flags

---
 psi/utils/communication.h | 3 ++-
 psi/utils/serialize.h     | 8 ++++----
 psi/utils/sync.cc         | 2 ++
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/psi/utils/communication.h b/psi/utils/communication.h
index 6733b7d..f89a485 100644
--- a/psi/utils/communication.h
+++ b/psi/utils/communication.h
@@ -20,6 +20,7 @@
 #include <unordered_map>
 
 #include "yacl/base/buffer.h"
+#include "yacl/base/exception.h"
 #include "yacl/link/link.h"
 
 #include "psi/utils/serializable.pb.h"
@@ -86,7 +87,7 @@ struct PsiDataBatch {
 
   static PsiDataBatch Deserialize(const yacl::Buffer& buf) {
     proto::PsiDataBatchProto proto;
-    proto.ParseFromArray(buf.data(), buf.size());
+    YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
 
     PsiDataBatch batch;
     batch.item_num = proto.item_num();
diff --git a/psi/utils/serialize.h b/psi/utils/serialize.h
index e564c4a..c9ce901 100644
--- a/psi/utils/serialize.h
+++ b/psi/utils/serialize.h
@@ -38,7 +38,7 @@ inline yacl::Buffer SerializeSize(size_t size) {
 
 inline size_t DeserializeSize(const yacl::Buffer& buf) {
   proto::SizeProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   return proto.input_size();
 }
 
@@ -58,7 +58,7 @@ template <typename T, std::enable_if_t<std::is_same_v<T, uint32_t> ||
                                        int> = 0>
 inline std::vector<T> DeserializeIndexes(const yacl::Buffer& buf) {
   proto::IndexesProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   std::vector<T> size(proto.indexes_size());
   std::copy(proto.indexes().begin(), proto.indexes().end(), size.begin());
   return size;
@@ -86,7 +86,7 @@ inline void DeserializeStrItems(const yacl::Buffer& buf,
                                 std::unordered_map<ItemIndexType, ItemCntType>*
                                     duplicate_item_cnt = nullptr) {
   proto::StrItemsProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   items->reserve(proto.items_size());
   for (auto item : proto.items()) {
     items->emplace_back(item);
@@ -115,7 +115,7 @@ inline std::unordered_map<ItemIndexType, ItemCntType> DeserializeItemsCnt(
     const yacl::Buffer& buf) {
   std::unordered_map<ItemIndexType, ItemCntType> duplicate_item_cnt;
   proto::ItemsCntProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   for (auto& [k, v] : *proto.mutable_duplicate_item_cnt()) {
     duplicate_item_cnt[k] = v;
   }
diff --git a/psi/utils/sync.cc b/psi/utils/sync.cc
index f3a28e0..d53448c 100644
--- a/psi/utils/sync.cc
+++ b/psi/utils/sync.cc
@@ -27,6 +27,8 @@ std::vector<bool> AllGatherFlag(
   std::vector<yacl::Buffer> buffer_list =
       yacl::link::AllGather(link_ctx, {&int_flage, 1}, "PSI:SYNC_FLAG");
   for (size_t idx = 0; idx < buffer_list.size(); idx++) {
+    YACL_ENFORCE_EQ(buffer_list[idx].size(), 1, "invalid flag from rank {}",
+                    idx);
     flag_list[idx] = (buffer_list[idx].data<uint8_t>()[0] == 1);
   }
   return flag_list;
-- 
2.43.0


From b9236780712fc578a882dcb307e354c0f0a61044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 37/56] fix: check indices received in DP-PSI

---
 psi/legacy/dp_psi/dp_psi.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psi/legacy/dp_psi/dp_psi.cc b/psi/legacy/dp_psi/dp_psi.cc
index 2dd7cdf..dd53e3a 100644
--- a/psi/legacy/dp_psi/dp_psi.cc
+++ b/psi/legacy/dp_psi/dp_psi.cc
@@ -287,6 +287,8 @@ std::vector<size_t> RunDpEcdhPsiBob(
     YACL_ENFORCE(batch.flatten_bytes.size() % sizeof(size_t) == 0);
     size_t current_num;
     current_num = batch.flatten_bytes.size() / sizeof(size_t);
+    YACL_ENFORCE_LE(current_num, intersection_size - recv_idx,
+                    "more indexes than announced by peer");
     std::memcpy(intersection_idx.data() + recv_idx, batch.flatten_bytes.data(),
                 batch.flatten_bytes.size());
 
@@ -301,6 +303,8 @@ std::vector<size_t> RunDpEcdhPsiBob(
   std::vector<size_t> dp_intersection_idx;
   dp_intersection_idx.reserve(intersection_idx.size());
   for (const auto& idx : intersection_idx) {
+    YACL_ENFORCE_LT(idx, sub_sample_result.second.size(),
+                    "index from peer is out of range");
     dp_intersection_idx.push_back(sub_sample_result.second[idx]);
   }
   std::sort(dp_intersection_idx.begin(), dp_intersection_idx.end());
-- 
2.43.0


From e83a3a95d2b9a3a11a402f410acddba583f9ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 38/56] fix: check the table size received in KMPRT17

---
 experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc b/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc
index 28257fa..b0e00c1 100644
--- a/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc
+++ b/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc
@@ -19,6 +19,7 @@
 #include <memory>
 
 #include "experiment/psi/kmprt17_mp_psi/kmprt17_hashing.h"
+#include "yacl/base/exception.h"
 #include "yacl/crypto/rand/rand.h"
 #include "yacl/crypto/tools/ro.h"
 #include "yacl/kernel/algorithms/base_ot.h"
@@ -96,6 +97,9 @@ std::vector<uint64_t> KmprtOpprfRecv(
           std::vector<uint64_t> table(TABLE_SIZE[c]);
           auto buf =
               ctx->Recv(ctx->NextRank(), "Receive OPPRF EncryptionTable");
+          YACL_ENFORCE_EQ(static_cast<size_t>(buf.size()),
+                          TABLE_SIZE[c] * sizeof(uint64_t),
+                          "Unexpected size of OPPRF EncryptionTable");
           std::memcpy(table.data(), buf.data(),
                       TABLE_SIZE[c] * sizeof(uint64_t));
           uint64_t eval = batch_evals[i];
-- 
2.43.0


From 0bcd0809917ff15322a00b8a333148af29c9fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 39/56] fix: check indices received in threshold PSI

---
 experiment/psi/threshold_ecdh_psi/sender.cc                | 2 ++
 experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.cc | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/experiment/psi/threshold_ecdh_psi/sender.cc b/experiment/psi/threshold_ecdh_psi/sender.cc
index ffda20e..a58460f 100644
--- a/experiment/psi/threshold_ecdh_psi/sender.cc
+++ b/experiment/psi/threshold_ecdh_psi/sender.cc
@@ -105,6 +105,8 @@ void ThresholdEcdhPsiSender::RestoreAndSendIndex(
 
   if (config_.protocol_config().broadcast_result()) {
     self_index = RecvSelfIndex();
+    YACL_ENFORCE_EQ(self_index.size(), final_intersection_count,
+                    "Unexpected number of indexes from receiver");
   }
 
   std::vector<uint32_t> peer_restored_index(final_intersection_count);
diff --git a/experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.cc b/experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.cc
index 6b89f45..72856d7 100644
--- a/experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.cc
+++ b/experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.cc
@@ -16,6 +16,7 @@
 
 #include <vector>
 
+#include "yacl/base/exception.h"
 #include "yacl/crypto/rand/rand.h"
 
 #include "psi/utils/serialize.h"
@@ -35,6 +36,8 @@ void ThresholdEcdhOprfPsiServer::RecvAndRestoreIndexes(
 
   // restore client's indexes
   for (size_t i = 0; i < client_indexes.size(); ++i) {
+    YACL_ENFORCE_LT(client_indexes[i], client_unique_count,
+                    "index from client is out of range");
     client_indexes[i] = shuffle_indexes[client_indexes[i]];
   }
 
-- 
2.43.0


From fed3cd3bfbb3bed03484fec09d3a967ac5a0243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 40/56] fix: check message sizes in SimplePIR and PPS

---
 experiment/pir/pps/ggm_pset.cc           |  4 ++++
 experiment/pir/pps/receiver.cc           | 16 ++++++++++++++++
 experiment/pir/simplepir/network_util.cc |  7 +++++++
 3 files changed, 27 insertions(+)

diff --git a/experiment/pir/pps/ggm_pset.cc b/experiment/pir/pps/ggm_pset.cc
index e279063..ad58317 100644
--- a/experiment/pir/pps/ggm_pset.cc
+++ b/experiment/pir/pps/ggm_pset.cc
@@ -16,6 +16,8 @@
 
 #include <spdlog/spdlog.h>
 
+#include "yacl/base/exception.h"
+
 namespace pir::pps {
 
 void GGMTree::AESPRG(uint128_t seed, uint128_t& left, uint128_t& right) {
@@ -119,6 +121,8 @@ void PPS::Eval(PIRKey k, std::unordered_set<uint64_t>& set) {
 
 void PPS::Eval(const PIRPuncKey& sk_punc, std::set<uint64_t>& set) {
   uint32_t height = Depth(set_size_);
+  YACL_ENFORCE(sk_punc.k_.size() >= height && (sk_punc.pos_ >> height) == 0,
+               "invalid punctured key");
   std::vector<uint128_t> leaf_nodes(1 << height);
   leaf_nodes[0] = 0;
   std::vector<uint128_t> temp((1 << height));
diff --git a/experiment/pir/pps/receiver.cc b/experiment/pir/pps/receiver.cc
index 249627c..43275e7 100644
--- a/experiment/pir/pps/receiver.cc
+++ b/experiment/pir/pps/receiver.cc
@@ -18,6 +18,7 @@
 #include "ggm_pset.h"
 #include "yacl/base/buffer.h"
 #include "yacl/base/dynamic_bitset.h"
+#include "yacl/base/exception.h"
 #include "yacl/link/context.h"
 
 namespace pir::pps {
@@ -29,16 +30,25 @@ PIRKey Bytes_to_uint128(const std::array<std::byte, 16>& bytes) {
   return (static_cast<uint128_t>(high) << 64) | low;
 }
 
+// Whether `count` elements of `size` bytes fit into the rest of the buffer.
+void CheckRemaining(const yacl::Buffer& buffer, const std::byte* pos,
+                    size_t count, size_t size) {
+  size_t remaining = buffer.size() - (pos - buffer.data<std::byte>());
+  YACL_ENFORCE(count <= remaining / size, "message is too short");
+}
+
 void DeserializeOfflineMessage(const yacl::Buffer& buffer, PIRKey& sk,
                                std::set<uint64_t>& deltas) {
   std::array<std::byte, 16> sk_bytes{};
   const std::byte* data_ptr = buffer.data<std::byte>();
+  CheckRemaining(buffer, data_ptr, 1, sk_bytes.size() + sizeof(size_t));
   std::memcpy(sk_bytes.data(), data_ptr, sk_bytes.size());
   sk = Bytes_to_uint128(sk_bytes);
   data_ptr += sk_bytes.size();
   size_t set_size;
   std::memcpy(&set_size, data_ptr, sizeof(set_size));
   data_ptr += sizeof(set_size);
+  CheckRemaining(buffer, data_ptr, set_size, sizeof(uint64_t));
   deltas.clear();
   for (size_t i = 0; i < set_size; ++i) {
     uint64_t delta;
@@ -51,11 +61,15 @@ void DeserializeOfflineMessage(const yacl::Buffer& buffer, PIRKey& sk,
 void DeserializeOnlineMessage(const yacl::Buffer& buffer, PIRPuncKey& puncKey) {
   const std::byte* data_ptr = buffer.data<const std::byte>();
   size_t k_size;
+  CheckRemaining(buffer, data_ptr, 1, sizeof(k_size));
   std::memcpy(&k_size, data_ptr, sizeof(size_t));
   data_ptr += sizeof(size_t);
+  CheckRemaining(buffer, data_ptr, k_size, sizeof(uint128_t));
   puncKey.k_.resize(k_size);
   std::memcpy(puncKey.k_.data(), data_ptr, k_size * sizeof(uint128_t));
   data_ptr += k_size * sizeof(uint128_t);
+  CheckRemaining(buffer, data_ptr, 1,
+                 sizeof(puncKey.pos_) + sizeof(puncKey.delta_));
   std::memcpy(&puncKey.pos_, data_ptr, sizeof(puncKey.pos_));
   data_ptr += sizeof(puncKey.pos_);
   std::memcpy(&puncKey.delta_, data_ptr, sizeof(puncKey.delta_));
@@ -65,8 +79,10 @@ void DeserializeOfflineMessage(const yacl::Buffer& buffer,
                                std::vector<PIRKeyUnion>& pirKey) {
   const std::byte* data_ptr = buffer.data<const std::byte>();
   size_t size;
+  CheckRemaining(buffer, data_ptr, 1, sizeof(size));
   std::memcpy(&size, data_ptr, sizeof(size_t));
   data_ptr += sizeof(size_t);
+  CheckRemaining(buffer, data_ptr, size, sizeof(uint128_t) + sizeof(uint64_t));
   pirKey.resize(size);
   for (size_t i = 0; i < size; ++i) {
     uint128_t k_val;
diff --git a/experiment/pir/simplepir/network_util.cc b/experiment/pir/simplepir/network_util.cc
index 5c07bcd..135eeb9 100644
--- a/experiment/pir/simplepir/network_util.cc
+++ b/experiment/pir/simplepir/network_util.cc
@@ -18,6 +18,8 @@
 #include <memory>
 #include <vector>
 
+#include "yacl/base/exception.h"
+
 namespace pir::simple {
 yacl::Buffer SerializeVector(const std::vector<uint64_t> &data) {
   // Calculate total buffer size: size header + elements
@@ -52,8 +54,12 @@ std::vector<uint64_t> DeserializeVector(const yacl::Buffer &buffer) {
 
   // Step 1: Read number of elements from buffer header
   size_t data_size;
+  const size_t buffer_size = buffer.size();
+  YACL_ENFORCE(buffer_size >= sizeof(data_size));
   std::memcpy(&data_size, data_ptr, sizeof(data_size));
   data_ptr += sizeof(data_size);
+  YACL_ENFORCE(data_size <=
+               (buffer_size - sizeof(data_size)) / sizeof(uint64_t));
 
   // Initialize result vector with pre-allocated size
   std::vector<uint64_t> data(data_size);
@@ -75,6 +81,7 @@ uint128_t DeserializeUint128(const yacl::Buffer &buffer) {
 
   // Read number of elements from buffer header
   uint128_t value;
+  YACL_ENFORCE(static_cast<size_t>(buffer.size()) >= sizeof(value));
   std::memcpy(&value, data_ptr, sizeof(value));
   return value;
 }
-- 
2.43.0


From 749afe49abbc07134c61f2279670d4789daccf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 41/56] fix: NTY with an empty input, and sizes of received
 buffers

---
 psi/algorithm/nty/nty_mp_psi.cc       | 15 +++++++++++++++
 psi/algorithm/nty/server_aided_psi.cc | 15 +++++++--------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/psi/algorithm/nty/nty_mp_psi.cc b/psi/algorithm/nty/nty_mp_psi.cc
index 8d06ca2..130e1ad 100644
--- a/psi/algorithm/nty/nty_mp_psi.cc
+++ b/psi/algorithm/nty/nty_mp_psi.cc
@@ -16,6 +16,8 @@
 
 #include <unistd.h>
 
+#include <algorithm>
+
 #include "sparsehash/dense_hash_map"
 #include "yacl/crypto/aes/aes_intrinsics.h"
 #include "yacl/crypto/hash/hash_utils.h"
@@ -88,6 +90,10 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
                             std::vector<uint128_t>& intersection) {
   auto [ctx, wsize, self_rank] = CollectContext();
   auto counts = AllGatherItemsSize(ctx, inputs.size());
+  if (std::find(counts.begin(), counts.end(), 0) != counts.end()) {
+    // the intersection with an empty set is empty
+    return;
+  }
   // It is recommended that the party with smaller set be designated as
   // p0 and pi(i > 2), the party with larger set be designated as p1 and p2.
   if (self_rank == options_.aided_server_rank) {
@@ -127,6 +133,7 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -174,6 +181,7 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -224,6 +232,7 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -234,6 +243,10 @@ void NtyMPsi::ThreePartyPsi(const std::vector<uint128_t>& inputs,
                             std::vector<uint128_t>& intersection) {
   auto [ctx, wsize, self_rank] = CollectContext();
   auto counts = AllGatherItemsSize(ctx, inputs.size());
+  if (std::find(counts.begin(), counts.end(), 0) != counts.end()) {
+    // the intersection with an empty set is empty
+    return;
+  }
 
   if (self_rank == options_.aided_server_rank) {
     // gen okvs and prf key
@@ -260,6 +273,7 @@ void NtyMPsi::ThreePartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -290,6 +304,7 @@ void NtyMPsi::ThreePartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
diff --git a/psi/algorithm/nty/server_aided_psi.cc b/psi/algorithm/nty/server_aided_psi.cc
index b85d8cf..1cbd02e 100644
--- a/psi/algorithm/nty/server_aided_psi.cc
+++ b/psi/algorithm/nty/server_aided_psi.cc
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <future>
 
+#include "yacl/base/exception.h"
 #include "yacl/crypto/aes/aes_intrinsics.h"
 #include "yacl/crypto/rand/rand.h"
 
@@ -54,10 +55,9 @@ void ServerAidedTwoPartyPsi::ServerAidedPsi(
     yacl::Buffer recv_data =
         p2p[aided_server_rank]->Recv(p2p[aided_server_rank]->NextRank(),
                                      fmt::format("recv raw intersection data"));
-    if (recv_data.size() % sizeof(uint128_t) != 0) {
-      SPDLOG_ERROR("recv data size should be a multiple of {} bytes",
-                   sizeof(uint128_t));
-    }
+    YACL_ENFORCE(recv_data.size() % sizeof(uint128_t) == 0,
+                 "recv data size should be a multiple of {} bytes",
+                 sizeof(uint128_t));
 
     outputs.resize(recv_data.size() / sizeof(uint128_t));
     std::vector<uint128_t> recv_cipher(recv_data.size() / sizeof(uint128_t));
@@ -85,10 +85,9 @@ void ServerAidedTwoPartyPsi::ServerAssist(
   auto recv_prf = [&](std::vector<uint128_t>& data, uint64_t id) {
     yacl::Buffer recv_data =
         p2p[id]->Recv(p2p[id]->NextRank(), fmt::format("recv data"));
-    if (recv_data.size() % sizeof(uint128_t) != 0) {
-      SPDLOG_ERROR("recv data size should be a multiple of {} bytes",
-                   sizeof(uint128_t));
-    }
+    YACL_ENFORCE(recv_data.size() % sizeof(uint128_t) == 0,
+                 "recv data size should be a multiple of {} bytes",
+                 sizeof(uint128_t));
     data.resize(recv_data.size() / sizeof(uint128_t));
     std::memcpy(data.data(), recv_data.data(), recv_data.size());
     std::sort(data.begin(), data.end());
-- 
2.43.0


From 3035eb0561f15fd348f9d37e682324913e38cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 42/56] fix: ECDH-OPRF client threads do not wait for a failed
 peer thread

---
 psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc | 30 ++++++++++++++++++++--
 psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h  |  5 ++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc
index a4f72e8..5ffed16 100644
--- a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc
+++ b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc
@@ -509,11 +509,24 @@ void EcdhOprfPsiClient::SendServerCacheIndexes(
   SPDLOG_INFO("End SendServerCacheIndexes, {}", peer_indexes.size());
 }
 
+void EcdhOprfPsiClient::AbortQueue() {
+  std::unique_lock<std::mutex> lock(mutex_);
+  queue_aborted_ = true;
+  queue_push_cv_.notify_all();
+  queue_pop_cv_.notify_all();
+}
+
 size_t EcdhOprfPsiClient::SendBlindedItems(
     const std::shared_ptr<IBasicBatchProvider>& batch_provider,
     bool server_get_result) {
   size_t batch_count = 0;
   size_t items_count = 0;
+  bool finished = false;
+  std::shared_ptr<void> abort_guard(nullptr, [&](void*) {
+    if (!finished) {
+      AbortQueue();
+    }
+  });
 
   SPDLOG_INFO("Begin Send BlindedItems items");
 
@@ -567,8 +580,10 @@ size_t EcdhOprfPsiClient::SendBlindedItems(
     if (oprf_client_ == nullptr) {
       std::unique_lock<std::mutex> lock(mutex_);
       queue_push_cv_.wait(lock, [&] {
-        return (oprf_client_queue_.size() < options_.window_size);
+        return (oprf_client_queue_.size() < options_.window_size) ||
+               queue_aborted_;
       });
+      YACL_ENFORCE(!queue_aborted_, "receiving evaluated items failed");
       oprf_client_queue_.push(std::move(oprf_clients));
       queue_pop_cv_.notify_one();
       SPDLOG_DEBUG("push to queue size:{}", oprf_client_queue_.size());
@@ -583,6 +598,7 @@ size_t EcdhOprfPsiClient::SendBlindedItems(
   SPDLOG_INFO("{} finished, batch_count={} items_count={}", __func__,
               batch_count, items_count);
 
+  finished = true;
   return items_count;
 }
 
@@ -592,6 +608,12 @@ void EcdhOprfPsiClient::RecvEvaluatedItems(
 
   size_t batch_count = 0;
   size_t item_count = 0;
+  bool finished = false;
+  std::shared_ptr<void> abort_guard(nullptr, [&](void*) {
+    if (!finished) {
+      AbortQueue();
+    }
+  });
 
   while (true) {
     const auto tag = fmt::format("EcdhOprfPSI:EvaluatedItems:{}", batch_count);
@@ -621,7 +643,10 @@ void EcdhOprfPsiClient::RecvEvaluatedItems(
     // get oprf_clients
     if (oprf_client_ == nullptr) {
       std::unique_lock<std::mutex> lock(mutex_);
-      queue_pop_cv_.wait(lock, [&] { return (!oprf_client_queue_.empty()); });
+      queue_pop_cv_.wait(lock, [&] {
+        return (!oprf_client_queue_.empty()) || queue_aborted_;
+      });
+      YACL_ENFORCE(!queue_aborted_, "sending blinded items failed");
 
       oprf_clients = std::move(oprf_client_queue_.front());
       oprf_client_queue_.pop();
@@ -648,6 +673,7 @@ void EcdhOprfPsiClient::RecvEvaluatedItems(
 
     batch_count++;
   }
+  finished = true;
   SPDLOG_INFO("End Recv EvaluatedItems");
 }
 
diff --git a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
index ef056f8..24d5e16 100644
--- a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
+++ b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
@@ -238,9 +238,14 @@ class EcdhOprfPsiClient {
   size_t GetCompareLength() const { return compare_length_; }
 
  private:
+  // Wakes up the sending and the receiving thread, which wait for each other,
+  // when one of them has failed.
+  void AbortQueue();
+
   EcdhOprfPsiOptions options_;
 
   std::mutex mutex_;
+  bool queue_aborted_ = false;
   std::condition_variable queue_push_cv_;
   std::condition_variable queue_pop_cv_;
   std::queue<std::vector<std::shared_ptr<IEcdhOprfClient>>> oprf_client_queue_;
-- 
2.43.0


From cdd90a7f2f877e9bc200849d9854f025aa52d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 43/56] fix: broadcast results of items that are not UTF-8

---
 psi/utils/serializable.proto | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/utils/serializable.proto b/psi/utils/serializable.proto
index 919ad81..e81657d 100644
--- a/psi/utils/serializable.proto
+++ b/psi/utils/serializable.proto
@@ -32,7 +32,7 @@ message PsiDataBatchProto {
 }
 
 message StrItemsProto {
-  repeated string items = 1;
+  repeated bytes items = 1;
   map<uint64, uint32> duplicate_item_cnt = 2;
 }
 
-- 
2.43.0


From 393d018c3f62b53efe556fcc8117ba414fd8402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 44/56] fix: check shapes of queries, keys and responses in
 Spiral

---
 psi/algorithm/spiral/serialize.cc     |  8 +++---
 psi/algorithm/spiral/spiral_client.cc |  9 +++++--
 psi/algorithm/spiral/spiral_server.cc | 35 +++++++++++++++++++++++++++
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/psi/algorithm/spiral/serialize.cc b/psi/algorithm/spiral/serialize.cc
index 8edd0ac..4f7714d 100644
--- a/psi/algorithm/spiral/serialize.cc
+++ b/psi/algorithm/spiral/serialize.cc
@@ -72,7 +72,7 @@ PolyMatrixRaw DeserializePolyMatrixRaw(const Params& params,
                                        const yacl::ByteContainerView& buffer) {
   // first convert buffer into proto object
   PolyMatrixProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   // then convert proto object to Object
   size_t rows = proto.rows();
@@ -132,7 +132,7 @@ PolyMatrixRaw DeserializePolyMatrixRawRng(yacl::ByteContainerView buffer,
                                           yacl::crypto::Prg<uint64_t> rng) {
   // first convert buffer into proto object
   PolyMatrixProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   // then convert proto object to Object
   size_t rows = proto.rows();
@@ -240,7 +240,7 @@ std::string SerializeResponseToStr(
 std::vector<PolyMatrixRaw> DeserializeResponse(
     const Params& params, const yacl::ByteContainerView& buffer) {
   SpiralResponseProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   std::vector<PolyMatrixRaw> result;
   result.reserve(proto.ct().size());
@@ -254,7 +254,7 @@ std::vector<PolyMatrixRaw> DeserializeResponse(
 PublicKeys DeserializePublicKeys(const Params& params,
                                  const yacl::ByteContainerView& buffer) {
   PublicKeysProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   PublicKeys pks;
   for (const auto& val : proto.v_packing()) {
diff --git a/psi/algorithm/spiral/spiral_client.cc b/psi/algorithm/spiral/spiral_client.cc
index c34df21..5ffedba 100644
--- a/psi/algorithm/spiral/spiral_client.cc
+++ b/psi/algorithm/spiral/spiral_client.cc
@@ -51,12 +51,13 @@ std::string SpiralQuery::SerializeToStr() {
 SpiralQuery SpiralQuery::Deserialize(const Params& params,
                                      const yacl::ByteContainerView& buffer) {
   SpiralQueryProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   SpiralQuery query;
   query.ct_ = PolyMatrixRaw::FromProto(proto.ct(), params);
 
   uint128_t seed{0};
+  YACL_ENFORCE_EQ(proto.seed().size(), sizeof(uint128_t));
   std::memcpy(&seed, proto.seed().data(), sizeof(uint128_t));
   query.seed_ = seed;
 
@@ -86,10 +87,11 @@ std::string SpiralQuery::SerializeRngToStr() {
 SpiralQuery SpiralQuery::DeserializeRng(const Params& params,
                                         const yacl::ByteContainerView& buffer) {
   SpiralQueryProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   // first we construct seed and prg
   uint128_t seed{0};
+  YACL_ENFORCE_EQ(proto.seed().size(), sizeof(uint128_t));
   std::memcpy(&seed, proto.seed().data(), sizeof(uint128_t));
 
   yacl::crypto::Prg<uint64_t> rng(seed);
@@ -406,6 +408,9 @@ PolyMatrixRaw SpiralClient::DecodeResponseInternal(
 
   auto result = PolyMatrixRaw::Zero(params_.PolyLen(), n, n);
 
+  YACL_ENFORCE(response.Rows() == n + 1 && response.Cols() == n,
+               "unexpected shape of response: {} x {}", response.Rows(),
+               response.Cols());
   auto packed_ct = response;
   // \hat c_1
   auto first_row = packed_ct.SubMatrix(0, 0, 1, packed_ct.Cols());
diff --git a/psi/algorithm/spiral/spiral_server.cc b/psi/algorithm/spiral/spiral_server.cc
index 49a4b23..e322070 100644
--- a/psi/algorithm/spiral/spiral_server.cc
+++ b/psi/algorithm/spiral/spiral_server.cc
@@ -35,6 +35,40 @@
 #include "psi/algorithm/spiral/util.h"
 
 namespace psi::spiral {
+
+namespace {
+
+void CheckShape(const PolyMatrixNtt& matrix, size_t rows, size_t cols) {
+  YACL_ENFORCE(matrix.Rows() == rows && matrix.Cols() == cols,
+               "unexpected shape of key: {} x {}, expected {} x {}",
+               matrix.Rows(), matrix.Cols(), rows, cols);
+}
+
+void CheckShapes(const std::vector<PolyMatrixNtt>& keys, size_t count,
+                 size_t rows, size_t cols) {
+  YACL_ENFORCE_GE(keys.size(), count);
+  for (const auto& key : keys) {
+    CheckShape(key, rows, cols);
+  }
+}
+
+// The query and the public keys come from the client.
+void CheckQuery(const Params& params, const SpiralQuery& query,
+                const PublicKeys& pks) {
+  YACL_ENFORCE(query.ct_.Rows() == 2 && query.ct_.Cols() == 1,
+               "unexpected shape of query: {} x {}", query.ct_.Rows(),
+               query.ct_.Cols());
+  CheckShapes(pks.v_packing_, params.N(), params.N() + 1, params.TConv());
+  CheckShapes(pks.v_expansion_left_, params.G(), 2, params.TExpLeft());
+  if (params.DbDim2() > 0) {
+    CheckShapes(pks.v_expansion_right_, params.StopRound() + 1, 2,
+                params.TExpRight());
+  }
+  CheckShapes(pks.v_conversion_, 1, 2, 2 * params.TConv());
+}
+
+}  // namespace
+
 std::vector<uint64_t> SpiralServer::ReorientRawDb(
     const std::vector<std::vector<uint8_t>>& raw_database) {
   // first, we convert raw_database into plaintexts in SpiralPIR, just R_q^{n*n}
@@ -683,6 +717,7 @@ std::vector<PolyMatrixRaw> SpiralServer::ProcessQuery(
     const SpiralQuery& query, const PublicKeys& pks) const {
   YACL_ENFORCE(database_seted_,
                "Before ProcessQuery, database must be processed");
+  CheckQuery(params_, query, pks);
 #ifdef __AVX2__
   SPDLOG_INFO("Using Spiral AVX2 version");
 #else
-- 
2.43.0


From c9e547b76c250dd223e5e63cf8f63122d5a5b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 45/56] fix: check chunks and encodings in Piano

---
 experiment/pir/piano/client.cc   | 2 ++
 experiment/pir/piano/serialize.h | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/experiment/pir/piano/client.cc b/experiment/pir/piano/client.cc
index 818685c..5f6c46b 100644
--- a/experiment/pir/piano/client.cc
+++ b/experiment/pir/piano/client.cc
@@ -103,6 +103,8 @@ void QueryServiceClient::PreprocessDBChunk(const yacl::Buffer& chunk_buffer) {
   uint64_t chunk_index;
   std::vector<uint8_t> db_chunk;
   std::tie(chunk_index, db_chunk) = DeserializeDBChunk(chunk_buffer);
+  YACL_ENFORCE_LT(chunk_index, set_size_);
+  YACL_ENFORCE_EQ(db_chunk.size(), chunk_size_ * entry_size_);
 
   // Use multiple threads to parallelize the computation for the chunk
   std::vector<std::thread> threads;
diff --git a/experiment/pir/piano/serialize.h b/experiment/pir/piano/serialize.h
index 9d4d2ae..9358cc5 100644
--- a/experiment/pir/piano/serialize.h
+++ b/experiment/pir/piano/serialize.h
@@ -18,6 +18,7 @@
 
 #include "experiment/pir/piano/util.h"
 #include "yacl/base/buffer.h"
+#include "yacl/base/exception.h"
 
 #include "experiment/pir/piano/piano.pb.h"
 
@@ -36,7 +37,7 @@ inline yacl::Buffer SerializeDBChunk(uint64_t chunk_index,
 inline std::pair<uint64_t, std::vector<uint8_t>> DeserializeDBChunk(
     const yacl::Buffer& buf) {
   DbChunkProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   std::vector<uint8_t> chunk(proto.chunks().begin(), proto.chunks().end());
   return {proto.chunk_index(), std::move(chunk)};
 }
@@ -55,7 +56,7 @@ inline yacl::Buffer SerializeSetParityQuery(
 inline std::vector<uint64_t> DeserializeSetParityQuery(
     const yacl::Buffer& buf) {
   SetParityQueryProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   std::vector<uint64_t> indices(proto.indices().begin(), proto.indices().end());
   return indices;
 }
@@ -72,7 +73,7 @@ inline yacl::Buffer SerializeSetParityResponse(
 inline std::vector<uint8_t> DeserializeSetParityResponse(
     const yacl::Buffer& buf) {
   SetParityResponseProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   std::vector<uint8_t> parity(proto.parity().begin(), proto.parity().end());
   return parity;
 }
-- 
2.43.0


From f82bb701aaeb681dfa3d2a2718261b591f9630d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:25 +0000
Subject: [PATCH 46/56] fix: SealPIR refused a database that fills its
 hypercube exactly

---
 psi/algorithm/sealpir/seal_pir.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/sealpir/seal_pir.cc b/psi/algorithm/sealpir/seal_pir.cc
index 5ff03f8..c3dfc18 100644
--- a/psi/algorithm/sealpir/seal_pir.cc
+++ b/psi/algorithm/sealpir/seal_pir.cc
@@ -654,7 +654,7 @@ void SealPirServer::GenerateFromSimpleHashTable(
   for (uint32_t i = 0; i < pir_params_.dimension; ++i) {
     prod *= pir_params_.dimension_vec[i];
   }
-  YACL_ENFORCE_GT(prod, num_of_ptxt);
+  YACL_ENFORCE_GE(prod, num_of_ptxt);
 
   uint64_t partition_num = pir_params_.partition_num;
 
@@ -756,7 +756,7 @@ void SealPirServer::GenerateFromRawData(
   for (uint32_t i = 0; i < pir_params_.dimension; ++i) {
     prod *= pir_params_.dimension_vec[i];
   }
-  YACL_ENFORCE_GT(prod, num_of_ptxt);
+  YACL_ENFORCE_GE(prod, num_of_ptxt);
 
   uint64_t partition_num = pir_params_.partition_num;
 
-- 
2.43.0


From d8f6b1f72549d2d5c706525bd52d1a4b8916fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:25 +0000
Subject: [PATCH 47/56] fix: SealPIR checks the number of query dimensions and
 response partitions

---
 psi/algorithm/sealpir/seal_pir.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/algorithm/sealpir/seal_pir.cc b/psi/algorithm/sealpir/seal_pir.cc
index c3dfc18..1721b7c 100644
--- a/psi/algorithm/sealpir/seal_pir.cc
+++ b/psi/algorithm/sealpir/seal_pir.cc
@@ -994,6 +994,7 @@ SealPir::PirResponse SealPirServer::GenerateResponse(
   int N = enc_params_->poly_modulus_degree();
   uint32_t expansion_ratio = pir_params_.expansion_ratio;
   vector<uint64_t> dimension_vec = pir_params_.dimension_vec;
+  YACL_ENFORCE_EQ(query.size(), dimension_vec.size());
 
   PirResponse response;
   response.reserve(pir_params_.partition_num);
@@ -1381,11 +1382,13 @@ std::vector<seal::Plaintext> SealPirClient::DecodeResponse(
   }
   uint32_t expansion_ratio = ComputeExpansionRatio(parms);
   uint32_t d = pir_params_.dimension;
+  YACL_ENFORCE_EQ(response.size(), pir_params_.partition_num);
 
   vector<Plaintext> decoded;
   for (uint64_t partition_idx = 0; partition_idx < pir_params_.partition_num;
        ++partition_idx) {
     vector<Ciphertext> tmp = response[partition_idx];
+    YACL_ENFORCE(!tmp.empty());
     uint32_t ct_poly_count = tmp[0].size();
     for (uint32_t i = 0; i < d; ++i) {
       vector<Ciphertext> newtmp;
-- 
2.43.0


From 1a11543ad278dceb1d308405b2b1e6fb39572016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:25 +0000
Subject: [PATCH 48/56] fix: PIR result files have one header and quoted fields

---
 psi/wrapper/apsi/utils/common.cc | 26 +++++++++++++++++++++-----
 psi/wrapper/apsi/utils/common.h  |  3 +++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index 08c585e..af0f70f 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -179,6 +179,21 @@ std::unique_ptr<::apsi::PSIParams> BuildPsiParams(
   return params;
 }
 
+std::string EscapeCsvField(const std::string &field) {
+  if (field.find_first_of(",\"\r\n") == std::string::npos) {
+    return field;
+  }
+  std::string escaped = "\"";
+  for (char ch : field) {
+    if (ch == '"') {
+      escaped += '"';
+    }
+    escaped += ch;
+  }
+  escaped += '"';
+  return escaped;
+}
+
 int stream_intersection_results(
     const vector<std::string> &orig_items, const vector<::apsi::Item> &items,
     const vector<::apsi::receiver::MatchRecord> &intersection,
@@ -219,20 +234,21 @@ int print_intersection_results(
   }
 
   std::stringstream csv_output;
-  std::string csv_header = "key";
+  bool has_label = false;
   int match_cnt = 0;
   for (size_t i = 0; i < orig_items.size(); i++) {
     std::stringstream msg;
     if (intersection[i].found) {
       match_cnt++;
       msg << Colors::GreenBold << orig_items[i] << Colors::Reset << "(FOUND) ";
-      csv_output << orig_items[i];
+      csv_output << EscapeCsvField(orig_items[i]);
       if (intersection[i].label) {
         msg << ": ";
         msg << Colors::GreenBold << intersection[i].label.to_string()
             << Colors::Reset;
-        csv_output << "," << intersection[i].label.to_string();
-        csv_header += ",value";
+        csv_output << ","
+                   << EscapeCsvField(intersection[i].label.to_string());
+        has_label = true;
       }
       csv_output << endl;
       APSI_LOG_INFO(msg.str());
@@ -248,7 +264,7 @@ int print_intersection_results(
       ofs << csv_output.str();
     } else {
       std::ofstream ofs(out_file);
-      ofs << csv_header << endl;
+      ofs << (has_label ? "key,value" : "key") << endl;
       ofs << csv_output.str();
     }
 
diff --git a/psi/wrapper/apsi/utils/common.h b/psi/wrapper/apsi/utils/common.h
index 0284d52..a9591a0 100644
--- a/psi/wrapper/apsi/utils/common.h
+++ b/psi/wrapper/apsi/utils/common.h
@@ -51,6 +51,9 @@ int print_intersection_results(
     const std::vector<::apsi::receiver::MatchRecord> &intersection,
     const std::string &out_file, bool append_to_outfile = false);
 
+// Quotes a field of a csv file if it has to be quoted.
+std::string EscapeCsvField(const std::string &field);
+
 int stream_intersection_results(
     const std::vector<std::string> &orig_items,
     const std::vector<::apsi::Item> &items,
-- 
2.43.0


From 4ea0b0cfbcc09f85bbef212a7b99788089eecb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:25 +0000
Subject: [PATCH 49/56] fix: quote csv fields in the APSI csv converter and the
 DkPir results

---
 psi/algorithm/dkpir/common.cc | 11 +++++++----
 psi/utils/csv_converter.cc    | 17 ++++++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/psi/algorithm/dkpir/common.cc b/psi/algorithm/dkpir/common.cc
index 042d65b..5413d6c 100644
--- a/psi/algorithm/dkpir/common.cc
+++ b/psi/algorithm/dkpir/common.cc
@@ -97,9 +97,11 @@ void WriteIntersectionResults(
   if (skip_count_check) {
     for (uint64_t i = 0; i < orig_items.size(); ++i) {
       if (intersection[i].found) {
-        csv_output << orig_items[i];
+        csv_output << psi::apsi_wrapper::EscapeCsvField(orig_items[i]);
         if (intersection[i].label) {
-          csv_output << "," << intersection[i].label.to_string();
+          csv_output << ","
+                     << psi::apsi_wrapper::EscapeCsvField(
+                            intersection[i].label.to_string());
         }
         csv_output << std::endl;
       }
@@ -115,10 +117,11 @@ void WriteIntersectionResults(
 
     for (uint64_t i = 0; i < orig_items.size(); ++i) {
       if (intersection[shuffle_indexes[i]].found) {
-        csv_output << orig_items[i];
+        csv_output << psi::apsi_wrapper::EscapeCsvField(orig_items[i]);
         if (intersection[shuffle_indexes[i]].label) {
           csv_output << ","
-                     << intersection[shuffle_indexes[i]].label.to_string();
+                     << psi::apsi_wrapper::EscapeCsvField(
+                            intersection[shuffle_indexes[i]].label.to_string());
         }
         csv_output << std::endl;
       }
diff --git a/psi/utils/csv_converter.cc b/psi/utils/csv_converter.cc
index b11c91a..1c18a80 100644
--- a/psi/utils/csv_converter.cc
+++ b/psi/utils/csv_converter.cc
@@ -45,9 +45,12 @@ void WriteCsvFile(
   writer << "key,value\n";
   for (const auto& [key, value_count_pair] : key_value_map) {
     if (is_count) {
-      writer << key << "," << value_count_pair.second << "\n";
+      writer << psi::apsi_wrapper::EscapeCsvField(key) << ","
+             << value_count_pair.second << "\n";
     } else {
-      writer << key << "," << value_count_pair.first << "\n";
+      writer << psi::apsi_wrapper::EscapeCsvField(key) << ","
+             << psi::apsi_wrapper::EscapeCsvField(value_count_pair.first)
+             << "\n";
     }
   }
 
@@ -200,7 +203,7 @@ void ApsiCsvConverter::ExtractQueryTo(const std::string& query_file_path) {
 
   writer << "key\n";
   for (const auto& query : queries) {
-    writer << query << "\n";
+    writer << psi::apsi_wrapper::EscapeCsvField(query) << "\n";
   }
 
   writer.close();
@@ -216,9 +219,9 @@ int ApsiCsvConverter::ExtractResult(
   int total_row_cnt = 0;
 
   std::stringstream csv_output;
-  csv_output << key_name;
+  csv_output << psi::apsi_wrapper::EscapeCsvField(key_name);
   for (const auto& name : label_names) {
-    csv_output << "," << name;
+    csv_output << "," << psi::apsi_wrapper::EscapeCsvField(name);
   }
   csv_output << "\n";
 
@@ -263,9 +266,9 @@ int ApsiCsvConverter::ExtractResult(
             "Incorrect value:{}, which cannot be split into {} labels.",
             row_value, label_names.size());
 
-        csv_output << current_key;
+        csv_output << psi::apsi_wrapper::EscapeCsvField(current_key);
         for (auto& label : current_labels) {
-          csv_output << "," << label;
+          csv_output << "," << psi::apsi_wrapper::EscapeCsvField(label);
         }
         csv_output << "\n";
       }
-- 
2.43.0


From 21c643d3e16a7a62f3039c56a46d191eaffedd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:25 +0000
Subject: [PATCH 50/56] fix: quotes inside fields survive the bucketing of an
 APSI source file

---
 psi/wrapper/apsi/utils/csv_reader.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/psi/wrapper/apsi/utils/csv_reader.cc b/psi/wrapper/apsi/utils/csv_reader.cc
index ad96237..8ae5b65 100644
--- a/psi/wrapper/apsi/utils/csv_reader.cc
+++ b/psi/wrapper/apsi/utils/csv_reader.cc
@@ -75,6 +75,18 @@ std::vector<std::string> GetCsvColumnNames(const std::string& filename) {
   return column_names;
 }
 
+// Double the quotes of a field which is written between quotes.
+static std::string EscapeQuotes(std::string_view field) {
+  std::string escaped;
+  for (char ch : field) {
+    if (ch == '"') {
+      escaped += '"';
+    }
+    escaped += ch;
+  }
+  return escaped;
+}
+
 ApsiCsvReader::ApsiCsvReader(const string& file_name) : file_name_(file_name) {
   throw_if_file_invalid(file_name_);
 
@@ -218,9 +230,10 @@ void ApsiCsvReader::bucketize(size_t bucket_cnt,
       auto& out = bucket_os_vec[bucket_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("\"{}\"\n", item));
+        out->Write(fmt::format("\"{}\"\n", EscapeQuotes(item)));
       } else {
-        out->Write(fmt::format("\"{}\",\"{}\"\n", item, arrays_[1]->Value(i)));
+        out->Write(fmt::format("\"{}\",\"{}\"\n", EscapeQuotes(item),
+                               EscapeQuotes(arrays_[1]->Value(i))));
       }
     }
   }
@@ -297,10 +310,12 @@ void ApsiCsvReader::GroupBucketize(size_t bucket_cnt,
       auto& out = bucket_group_vec[group_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("{},\"{}\"\n", bucket_idx, item));
+        out->Write(
+            fmt::format("{},\"{}\"\n", bucket_idx, EscapeQuotes(item)));
       } else {
-        out->Write(fmt::format("{},\"{}\",\"{}\"\n", bucket_idx, item,
-                               arrays_[1]->Value(i)));
+        out->Write(fmt::format("{},\"{}\",\"{}\"\n", bucket_idx,
+                               EscapeQuotes(item),
+                               EscapeQuotes(arrays_[1]->Value(i))));
       }
     }
   }
-- 
2.43.0


From 3462e88ffb584f8c1df0743e6a6807f40d6c4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:26 +0000
Subject: [PATCH 51/56] fix: APSI api answers a query of an empty bucket with
 no package

---
 psi/wrapper/apsi/api/sender.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/psi/wrapper/apsi/api/sender.cc b/psi/wrapper/apsi/api/sender.cc
index 2e60bba..9083974 100644
--- a/psi/wrapper/apsi/api/sender.cc
+++ b/psi/wrapper/apsi/api/sender.cc
@@ -120,7 +120,17 @@ std::string Sender::RunQuery(const std::string &query_str) {
   auto db = group_db_.GetBucketDB(query_request->bucket_idx);
 
   if (db.sender_db == nullptr) {
-    return "";
+    // No data in this bucket: nothing can match, so no package follows.
+    ::apsi::QueryResponse response_query =
+        make_unique<::apsi::QueryResponse::element_type>();
+    response_query->package_count = 0;
+
+    stringstream ss_out;
+    ::apsi::network::SenderOperationHeader sop_header;
+    sop_header.type = response_query->type();
+    sop_header.save(ss_out);
+    response_query->save(ss_out);
+    return ss_out.str();
   }
 
   apsi::sender::Query query(std::move(query_request), db.sender_db);
-- 
2.43.0


From 2ff91607d8e2235caf6d7c04c11195c8dd088a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:26 +0000
Subject: [PATCH 52/56] fix: APSI api result file keeps its header when the
 first bucket has no match

---
 psi/wrapper/apsi/api/receiver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/wrapper/apsi/api/receiver.cc b/psi/wrapper/apsi/api/receiver.cc
index 3d94832..56151cd 100644
--- a/psi/wrapper/apsi/api/receiver.cc
+++ b/psi/wrapper/apsi/api/receiver.cc
@@ -236,7 +236,9 @@ std::vector<size_t> Receiver::ProcessResult(
     result_size.push_back(psi::apsi_wrapper::print_intersection_results(
         context.items, context.item_vec, query_result, output_file,
         append_to_outfile));
-    append_to_outfile = true;
+    if (result_size.back() > 0) {
+      append_to_outfile = true;
+    }
   }
 
   return result_size;
-- 
2.43.0


From 8697e3266e8bc9c7093976a02b89ca4ec03b96b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:26 +0000
Subject: [PATCH 53/56] fix: DkPir receiver writes an empty result when nothing
 matches

---
 psi/algorithm/dkpir/receiver.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/psi/algorithm/dkpir/receiver.cc b/psi/algorithm/dkpir/receiver.cc
index 7585675..e02a7ba 100644
--- a/psi/algorithm/dkpir/receiver.cc
+++ b/psi/algorithm/dkpir/receiver.cc
@@ -14,6 +14,8 @@
 
 #include "psi/algorithm/dkpir/receiver.h"
 
+#include <algorithm>
+#include <fstream>
 #include <thread>
 
 #include "absl/strings/str_split.h"
@@ -283,6 +285,21 @@ uint64_t DkPirReceiver::SaveResult(
     const std::vector<::apsi::receiver::MatchRecord>& intersection,
     const std::vector<::apsi::Item>& items, uint128_t shuffle_seed,
     uint64_t shuffle_counter, const std::string& tmp_result_file) {
+  bool has_match = std::any_of(intersection.begin(), intersection.end(),
+                               [](const auto& mr) { return mr.found; });
+  if (!has_match) {
+    // There is no row to convert: the result only has a header.
+    std::ofstream writer(options_.result_file);
+    YACL_ENFORCE(writer.is_open(), "Open file {} failed.",
+                 options_.result_file);
+    writer << psi::apsi_wrapper::EscapeCsvField(options_.key);
+    for (const auto& label : options_.labels) {
+      writer << "," << psi::apsi_wrapper::EscapeCsvField(label);
+    }
+    writer << "\n";
+    return 0;
+  }
+
   psi::dkpir::WriteIntersectionResults(
       orig_items_, items, intersection, shuffle_seed, shuffle_counter,
       tmp_result_file, options_.skip_count_check);
-- 
2.43.0


From 202a025f4fffc541a7821c13574b68c4fefd5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:26 +0000
Subject: [PATCH 54/56] fix: an interrupted division of a group DB is started
 over

---
 psi/wrapper/apsi/utils/group_db.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index 9777c51..7ba8d2c 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -518,6 +518,11 @@ void GroupDB::DivideGroup() {
     std::filesystem::create_directories(db_path_);
   }
 
+  // The streams below append: drop what an interrupted division left.
+  for (size_t i = 0; i < group_cnt_; ++i) {
+    std::filesystem::remove(disk_cache_.GetPath(i));
+  }
+
   ApsiCsvReader reader(source_file_);
   reader.GroupBucketize(num_buckets_, db_path_, group_cnt_, disk_cache_);
 
-- 
2.43.0


From fda84e03f675bb9cdfdf423c3c23e6fa07fb5c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:26 +0000
Subject: [PATCH 55/56] fix: the meta file of a group DB appears at once and
 after its data

---
 psi/wrapper/apsi/utils/group_db.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index 7ba8d2c..7e5214a 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -393,12 +393,19 @@ void GroupDBItem::Generate() {
   }
 
   flush_proc();
+  ofs.close();
 
-  std::ofstream meta_ofs(meta_filename_);
+  // A meta file tells that the group is complete, so it appears at once and
+  // after the data.
+  auto tmp_meta_filename = meta_filename_ + ".tmp";
+  std::ofstream meta_ofs(tmp_meta_filename);
+  meta_ofs.exceptions(std::ios_base::badbit | std::ios_base::failbit);
   meta_ofs << bucket_offset_map_.size() << '\n';
   for (auto& [bucket_id, offset] : bucket_offset_map_) {
     meta_ofs << bucket_id << " " << offset << '\n';
   }
+  meta_ofs.close();
+  std::filesystem::rename(tmp_meta_filename, meta_filename_);
 
   complete_ = true;
 }
-- 
2.43.0


From d9b2bfa36dac0c78f5410aae01aeff7e7c483de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:26 +0000
Subject: [PATCH 56/56] fix: a group DB is done only when all of its groups are
 generated

---
 psi/wrapper/apsi/utils/group_db.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index 7e5214a..772eaa8 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -188,6 +188,12 @@ void GenerateGroupBucketDB(GroupDB& group_db, size_t process_num) {
 
   ProcessGroupParallel(process_num, group_db);
 
+  // Generated groups are only opened here. A group whose process failed is
+  // generated again, which reports the error.
+  for (size_t i = 0; i < group_db.GetGroupNum(); ++i) {
+    group_db.GenerateGroup(i);
+  }
+
   group_db.GenerateDone();
 }
 
-- 
2.43.0

